// ===================================================================================
// Protocol data types (extracted from codec/src/protocol) and opaque stubs for what the session layer only carries around
// ===================================================================================
pub struct Symbol(pub Str);
pub struct Str { pub s: Ghost<Seq<u8>> }
impl Str {
    #[verifier::external_body]
    pub fn from_lit_(s: StaticStr) -> (r: Str) ensures r.s@ == s.s@ { unimplemented!() }
}
pub struct Symbols { pub s: Ghost<Seq<Seq<u8>>> }
pub struct Fields { pub s: Ghost<int> }
pub struct FieldsVec { pub s: Ghost<int> }
pub struct FilterSet { pub s: Ghost<int> }
pub struct VMap { pub s: Ghost<int> }
pub struct Variant { pub s: Ghost<int> }
/// codec's Message: what it encodes to, and the message format it carries
pub struct Message(pub MessageInner_, pub Ghost<Seq<u8>>);
pub struct MessageInner_ { pub message_format: Option<u32> }
impl Message {
    #[verifier::external_body]
    pub fn encoded_size(&self) -> (r: usize) ensures r == self.1@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(&self, b: &mut BytesMut) ensures final(b)@ == old(b)@ + self.1@ { unimplemented!() }
}
pub type Handle = u32;
pub type Seconds = u32;
pub type Milliseconds = u32;
pub type DeliveryTag = Bytes;
pub type SequenceNo = u32;
pub type DeliveryNumber = u32;
pub type TransferNumber = u32;
pub type MessageFormat = u32;
pub type NodeProperties = Fields;
pub type Address = ByteString;
pub type IetfLanguageTags = Symbols;
//@item codec/src/protocol/definitions.rs Role derive="Clone, Copy, PartialEq, Eq, Structural"
//@item codec/src/protocol/definitions.rs SenderSettleMode derive="Clone, Copy, PartialEq, Eq, Structural"
//@item codec/src/protocol/definitions.rs ReceiverSettleMode derive="Clone, Copy, PartialEq, Eq, Structural"
//@item codec/src/protocol/definitions.rs AmqpError
//@item codec/src/protocol/definitions.rs ConnectionError
//@item codec/src/protocol/definitions.rs SessionError
//@item codec/src/protocol/definitions.rs LinkError
//@item codec/src/protocol/definitions.rs TerminusDurability
//@item codec/src/protocol/definitions.rs TerminusExpiryPolicy
//@item codec/src/protocol/mod.rs ErrorCondition
//@item codec/src/protocol/mod.rs DistributionMode
//@item codec/src/protocol/definitions.rs Received
//@item codec/src/protocol/definitions.rs Accepted
//@item codec/src/protocol/definitions.rs Rejected
//@item codec/src/protocol/definitions.rs Released
//@item codec/src/protocol/definitions.rs Modified
//@item codec/src/protocol/definitions.rs DeliveryState
//@item codec/src/protocol/definitions.rs Outcome
//@item codec/src/protocol/definitions.rs Source
//@item codec/src/protocol/definitions.rs Target
//@item codec/src/protocol/definitions.rs End
//@item codec/src/protocol/definitions.rs Close
//@item codec/src/protocol/mod.rs TransferBody
//@item codec/src/protocol/definitions.rs Frame
//@item codec/src/protocol/definitions.rs TransferInner
//@item codec/src/protocol/definitions.rs Transfer
//@impl codec/src/protocol/definitions.rs Transfer only
//@method handle
    ensures r == self.0.handle
//@method delivery_id
    ensures r == self.0.delivery_id
//@method delivery_tag
    ensures r == (match self.0.delivery_tag { Some(__v) => Some(&self.0.delivery_tag->0), None => None })
//@method message_format
    ensures r == self.0.message_format
//@method settled
    ensures r == self.0.settled
//@method more
    ensures r == self.0.more
//@method rcv_settle_mode
    ensures r == self.0.rcv_settle_mode
//@method state
    ensures r == (match self.0.state { Some(__v) => Some(&self.0.state->0), None => None })
//@method resume
    ensures r == self.0.resume
//@method aborted
    ensures r == self.0.aborted
//@method batchable
    ensures r == self.0.batchable
//@method body
    ensures r == (match self.0.body { Some(__v) => Some(&self.0.body->0), None => None })
//@end
//@item codec/src/protocol/definitions.rs FlowInner
//@item codec/src/protocol/definitions.rs Flow
//@impl codec/src/protocol/definitions.rs Flow only
//@method next_incoming_id
    ensures r == self.0.next_incoming_id
//@method incoming_window
    ensures r == self.0.incoming_window
//@method next_outgoing_id
    ensures r == self.0.next_outgoing_id
//@method outgoing_window
    ensures r == self.0.outgoing_window
//@method handle
    ensures r == self.0.handle
//@method delivery_count
    ensures r == self.0.delivery_count
//@method link_credit
    ensures r == self.0.link_credit
//@method available
    ensures r == self.0.available
//@method drain
    ensures r == self.0.drain
//@method echo
    ensures r == self.0.echo
//@method properties
    ensures r == (match self.0.properties { Some(__v) => Some(&self.0.properties->0), None => None })
//@end
//@item codec/src/protocol/definitions.rs AttachInner $Map=VMap
//@item codec/src/protocol/definitions.rs Attach
//@impl codec/src/protocol/definitions.rs Attach only
//@method name
    ensures *r == self.0.name
//@method handle
    ensures r == self.0.handle
//@method handle_mut
    ensures *r == old(self).0.handle, *final(self).0 == (AttachInner { handle: *final(r), ..*old(self).0 })
//@method role
    ensures r == self.0.role
//@method snd_settle_mode
    ensures r == self.0.snd_settle_mode
//@method rcv_settle_mode
    ensures r == self.0.rcv_settle_mode
//@method source
    ensures r == (match self.0.source { Some(__v) => Some(&self.0.source->0), None => None })
//@method source_mut
    ensures *r == old(self).0.source, *final(self).0 == (AttachInner { source: *final(r), ..*old(self).0 })
//@method target
    ensures r == (match self.0.target { Some(__v) => Some(&self.0.target->0), None => None })
//@method target_mut
    ensures *r == old(self).0.target, *final(self).0 == (AttachInner { target: *final(r), ..*old(self).0 })
//@method incomplete_unsettled
    ensures r == self.0.incomplete_unsettled
//@method initial_delivery_count
    ensures r == self.0.initial_delivery_count
//@method initial_delivery_count_mut
    ensures *r == old(self).0.initial_delivery_count, *final(self).0 == (AttachInner { initial_delivery_count: *final(r), ..*old(self).0 })
//@method max_message_size
    ensures r == self.0.max_message_size
//@method max_message_size_mut
    ensures *r == old(self).0.max_message_size, *final(self).0 == (AttachInner { max_message_size: *final(r), ..*old(self).0 })
//@method offered_capabilities
    ensures r == (match self.0.offered_capabilities { Some(__v) => Some(&self.0.offered_capabilities->0), None => None })
//@method desired_capabilities
    ensures r == (match self.0.desired_capabilities { Some(__v) => Some(&self.0.desired_capabilities->0), None => None })
//@method properties
    ensures r == (match self.0.properties { Some(__v) => Some(&self.0.properties->0), None => None })
//@end
//@item codec/src/protocol/definitions.rs DetachInner
//@item codec/src/protocol/definitions.rs Detach
//@impl codec/src/protocol/definitions.rs Detach only
//@method handle
    ensures r == self.0.handle
//@method closed
    ensures r == self.0.closed
//@method error
    ensures r == (match self.0.error { Some(__v) => Some(&self.0.error->0), None => None })
//@end
//@item codec/src/protocol/definitions.rs BeginInner
//@item codec/src/protocol/definitions.rs Begin
//@impl codec/src/protocol/definitions.rs Begin only
//@method remote_channel
    ensures r == self.0.remote_channel
//@method next_outgoing_id
    ensures r == self.0.next_outgoing_id
//@method incoming_window
    ensures r == self.0.incoming_window
//@method outgoing_window
    ensures r == self.0.outgoing_window
//@method handle_max
    ensures r == self.0.handle_max
//@end
//@item codec/src/protocol/definitions.rs DispositionInner
//@item codec/src/protocol/definitions.rs Disposition
//@impl codec/src/protocol/definitions.rs Disposition only
//@method role
    ensures r == self.0.role
//@method first
    ensures r == self.0.first
//@method last
    ensures r == self.0.last
//@method settled
    ensures r == self.0.settled
//@method state
    ensures r == (match self.0.state { Some(__v) => Some(&self.0.state->0), None => None })
//@method batchable
    ensures r == self.0.batchable
//@end
//@item codec/src/protocol/definitions.rs OpenInner
//@item codec/src/protocol/definitions.rs Open
//@impl codec/src/protocol/definitions.rs Open only
//@method container_id
    ensures *r == self.0.container_id
//@method hostname
    ensures r == (match self.0.hostname { Some(__v) => Some(&self.0.hostname->0), None => None })
//@method max_frame_size
    ensures r == self.0.max_frame_size
//@method channel_max
    ensures r == self.0.channel_max
//@method idle_time_out
    ensures r == self.0.idle_time_out
//@method offered_capabilities
    ensures r == (match self.0.offered_capabilities { Some(__v) => Some(&self.0.offered_capabilities->0), None => None })
//@method desired_capabilities
    ensures r == (match self.0.desired_capabilities { Some(__v) => Some(&self.0.desired_capabilities->0), None => None })
//@method properties
    ensures r == (match self.0.properties { Some(__v) => Some(&self.0.properties->0), None => None })
//@end
//@item codec/src/protocol/definitions.rs ErrorInner
//@item codec/src/protocol/definitions.rs Error
//@impl codec/src/protocol/definitions.rs Error only
//@method condition
    ensures *r == self.0.condition
//@method description
    ensures r == (match self.0.description { Some(__v) => Some(&self.0.description->0), None => None })
//@method info
    ensures r == (match self.0.info { Some(__v) => Some(&self.0.info->0), None => None })
//@end
/// ErrorBuilder: what `build` .. `finish` gives (builder generated by the codec)
pub struct ErrorBuilder { pub c: Ghost<ErrorCondition> }
impl Error {
    pub fn build() -> (r: ErrorBuilder) { ErrorBuilder { c: Ghost(arbitrary()) } }
}
impl ErrorBuilder {
    pub fn condition(self, c: ErrorCondition) -> (r: ErrorBuilder) ensures r.c@ == c { ErrorBuilder { c: Ghost(c) } }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Error) ensures r.0.condition == self.c@ { unimplemented!() }
}
//@impl codec/src/protocol/mod.rs TransferBody
//@method len
    ensures r == self.bytes().len(), r <= isize::MAX
//@method message_format
    ensures r == (match *self { TransferBody::Data(_) => None, TransferBody::Message(m) => m.0.message_format })
//@end
impl TransferBody {
    pub open spec fn bytes(&self) -> Seq<u8> { match *self { TransferBody::Data(d) => d@, TransferBody::Message(m) => m.1@ } }
}
//@impl codec/src/protocol/mod.rs "Encode for TransferBody" inherent
//@method encoded_size
    ensures r == self.bytes().len(), r <= isize::MAX
//@method encode
    ensures final(dst)@ == old(dst)@ + self.bytes()
//@end
