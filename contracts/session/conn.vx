// ===================================================================================
// Connection: types and frame output
// ===================================================================================
//@stripmod codec protocol types error delivery sndlink rcvlink session connection control condition oneshot pool mem cmp hash future slab crate
//@renamepath Cell::new cell_new_
//@renamepath pool::new pool_new_
//@renamepath Box::default box_default_
//@renamepath u32::try_from __u32_try_from
//@optfn take max_message_size handle copied remote_channel initial_delivery_count back source delivery_tag tag
//@renamemethod copied copied_
//@renamemethod cloned cloned_
pub struct AmqpParseError {}
pub struct AmqpCodecError {}
pub struct IoError {}
//@item src/error.rs AmqpProtocolError
impl vstd::std_specs::convert::FromSpecImpl<AmqpCodecError> for AmqpProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AmqpCodecError) -> Self { AmqpProtocolError::Codec(e) }
}
/// `#[from]` of thiserror
impl From<AmqpCodecError> for AmqpProtocolError {
    fn from(e: AmqpCodecError) -> (r: Self) { AmqpProtocolError::Codec(e) }
}
/// derived `From`
impl vstd::std_specs::convert::FromSpecImpl<Open> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Open) -> Self { Frame::Open(e) } }
impl From<Open> for Frame { fn from(e: Open) -> (r: Self) { Frame::Open(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Begin> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Begin) -> Self { Frame::Begin(e) } }
impl From<Begin> for Frame { fn from(e: Begin) -> (r: Self) { Frame::Begin(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Attach> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Attach) -> Self { Frame::Attach(e) } }
impl From<Attach> for Frame { fn from(e: Attach) -> (r: Self) { Frame::Attach(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Flow> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Flow) -> Self { Frame::Flow(e) } }
impl From<Flow> for Frame { fn from(e: Flow) -> (r: Self) { Frame::Flow(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Transfer> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Transfer) -> Self { Frame::Transfer(e) } }
impl From<Transfer> for Frame { fn from(e: Transfer) -> (r: Self) { Frame::Transfer(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Disposition> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Disposition) -> Self { Frame::Disposition(e) } }
impl From<Disposition> for Frame { fn from(e: Disposition) -> (r: Self) { Frame::Disposition(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Detach> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Detach) -> Self { Frame::Detach(e) } }
impl From<Detach> for Frame { fn from(e: Detach) -> (r: Self) { Frame::Detach(e) } }
impl vstd::std_specs::convert::FromSpecImpl<End> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: End) -> Self { Frame::End(e) } }
impl From<End> for Frame { fn from(e: End) -> (r: Self) { Frame::End(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Close> for Frame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Close) -> Self { Frame::Close(e) } }
impl From<Close> for Frame { fn from(e: Close) -> (r: Self) { Frame::Close(e) } }
impl vstd::std_specs::convert::FromSpecImpl<LinkError> for ErrorCondition { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LinkError) -> Self { ErrorCondition::LinkError(e) } }
impl From<LinkError> for ErrorCondition { fn from(e: LinkError) -> (r: Self) { ErrorCondition::LinkError(e) } }
pub struct AmqpFrame(pub u16, pub Frame);
impl AmqpFrame {
    pub fn new(channel: u16, f: Frame) -> (r: AmqpFrame) ensures r == AmqpFrame(channel, f) { AmqpFrame(channel, f) }
    pub fn into_parts(self) -> (r: (u16, Frame)) ensures r == (self.0, self.1) { (self.0, self.1) }
}
pub struct AmqpCodec<T> { pub max: Ghost<nat>, pub t: core::marker::PhantomData<T> }
/// ntex_io::IoRef: `out` is what has been handed to the connection's write side
pub struct IoRef { pub out: Ghost<Seq<AmqpFrame>>, pub closed: Ghost<bool>, pub c: IoConfig }
pub struct IoConfig {}
pub struct BufCfg {}
impl IoConfig {
    pub fn write_buf(&self) -> (r: BufCfg) { BufCfg {} }
    pub fn read_buf(&self) -> (r: BufCfg) { BufCfg {} }
}
impl BufCfg {
    #[verifier::external_body]
    pub fn buf_with_capacity(&self, n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl IoRef {
    #[verifier::external_body]
    pub fn encode(&mut self, f: AmqpFrame, c: &AmqpCodec<AmqpFrame>) -> (r: Result<(), AmqpCodecError>) ensures final(self).out@ == old(self).out@.push(f), final(self).closed == old(self).closed { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self) ensures final(self).closed@ == true, final(self).out == old(self).out { unimplemented!() }
    #[verifier::external_body]
    pub fn force_close(&mut self) ensures final(self).closed@ == true, final(self).out == old(self).out { unimplemented!() }
    pub fn cfg(&self) -> (r: &IoConfig) { &self.c }
}
/// control frames handed to the control service, in order
pub struct ControlQueue { pub log: Ghost<Seq<ControlFrame>> }
impl ControlQueue {
    #[verifier::external_body]
    pub fn enqueue_frame(&mut self, f: ControlFrame) ensures final(self).log@ == old(self).log@.push(f) { unimplemented!() }
}
pub struct Wrapper<T> { pub inner: Option<T> }
//@item src/control.rs ControlFrame
//@item src/control.rs FrameInner
//@item src/control.rs ControlFrameKind $io::Error=IoError
//@impl src/control.rs ControlFrame
//@method new
    ensures r.0.session == Some(session), r.0.kind == kind
//@method new_kind
    ensures r.0.session is None, r.0.kind == kind
//@end
//@item src/types.rs Action
pub struct Rc<T> { pub v: T }
//@item src/connection.rs ConnectionState derive="Clone, Copy, PartialEq, Eq, Structural"
//@item src/connection.rs ConnectionInner $Rc<ControlQueue>=ControlQueue
//@item src/connection.rs ConnectionRef
//@item src/connection.rs SessionState
impl ConnectionRef {
    pub open spec fn out(&self) -> Seq<AmqpFrame> { self.0.io.out@ }
    pub fn get_control_queue(&mut self) -> (r: &mut ControlQueue)
        ensures *r == old(self).0.control_queue, *final(self) == (ConnectionRef(ConnectionInner { control_queue: *final(r), ..old(self).0 })) { &mut self.0.control_queue }
}
//@impl src/connection.rs ConnectionRef
//@method config
//@method close_session cellmut
    ensures final(self).0 == (ConnectionInner { sessions: final(self).0.sessions, ..old(self).0 }),
        old(self).0.sessions@.contains_key(id) && old(self).0.sessions@[id] is Established ==> final(self).0.sessions@ == old(self).0.sessions@.insert(id, SessionState::Closing(old(self).0.sessions@[id]->Established_0)),
        !(old(self).0.sessions@.contains_key(id) && old(self).0.sessions@[id] is Established) ==> final(self).0.sessions@ == old(self).0.sessions@,
//@method post_frame cellmut
    ensures final(self).out() == old(self).out().push(frame), conn_kept(old(self).0, final(self).0)
//@end
/// what writing a frame cannot change, even if encoding fails
pub open spec fn conn_kept(a: ConnectionInner, b: ConnectionInner) -> bool {
    &&& a.max_frame_size == b.max_frame_size && a.channel_max == b.channel_max && a.control_queue == b.control_queue && a.io.closed == b.io.closed
}
/// a frame is handed to the write side; if it cannot be encoded the whole connection fails
pub open spec fn con_posted(a: ConnectionInner, b: ConnectionInner, frame: AmqpFrame) -> bool {
    &&& b.io.out@ == a.io.out@.push(frame) && conn_kept(a, b) && b.state == a.state && b.on_close == a.on_close
    &&& b == (ConnectionInner { io: b.io, ..a }) || con_failed(b)
}
pub open spec fn con_failed(b: ConnectionInner) -> bool { b.sessions@ == Map::<usize, SessionState>::empty() && b.sessions_map@ == Map::<u16, usize>::empty() && b.error is Some && b.on_close.released() }
pub open spec fn ses_of(s: SessionState) -> Option<SessionInner> { match s { SessionState::Opening(_, _) => None, SessionState::Established(x) => Some(x), SessionState::Closing(x) => Some(x) } }
//@impl src/connection.rs SessionState
//@method is_opening
    ensures r == (self is Opening)
//@end
//@impl src/connection.rs ConnectionInner
//@method set_error splitor
    ensures conn_kept(*old(self), *final(self)), final(self).io == old(self).io, final(self).state == old(self).state,
        final(self).sessions@ == Map::<usize, SessionState>::empty(), final(self).sessions_map@ == Map::<u16, usize>::empty(),
        final(self).error == (if old(self).error is None { Some(err) } else { old(self).error }), final(self).on_close.released(), final(self).on_close == old(self).on_close,
        forall|k: usize| #[trigger] old(self).sessions@.contains_key(k) && ses_of(old(self).sessions@[k]) is Some ==> ses_failed(ses_of(old(self).sessions@[k])->0, err),
//@preloop 0
    let ghost __s0 = *self;
//@loop 0
    invariant __k0 <= __it0@.len(), __it0@.no_duplicates(),
        forall|k: usize| #[trigger] __s0.sessions@.contains_key(k) <==> __it0@.contains(k),
        forall|k: usize| #[trigger] __s0.sessions@.contains_key(k) <==> self.sessions@.contains_key(k),
        forall|i: int| __k0 <= i < __it0@.len() ==> self.sessions@[#[trigger] __it0@[i]] == __s0.sessions@[__it0@[i]],
        forall|i: int| 0 <= i < __k0 && ses_of(__s0.sessions@[#[trigger] __it0@[i]]) is Some ==> ses_failed(ses_of(__s0.sessions@[__it0@[i]])->0, err),
        *self == (ConnectionInner { sessions: self.sessions, ..__s0 }),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { assert(__s0.sessions@.contains_key(__it0@[__k0 as int])); }
//@method post_frame
    ensures con_posted(*old(self), *final(self), frame)
//@end
