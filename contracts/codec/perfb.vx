// GENERATED by tools/gen_perf.py from tools/amqp_types.json (AMQP 1.0 field tables). Do not edit.
// ===================================================================================
// Performatives, termini, outcomes, sections, SASL frames
// ===================================================================================
//@props C03 C04 C06
//@constfn FIELD_COUNT
//@stripmod format_codes decode collections
//@item codec/src/protocol/definitions.rs Handle
//@item codec/src/protocol/definitions.rs Seconds
//@item codec/src/protocol/definitions.rs Milliseconds
//@item codec/src/protocol/definitions.rs DeliveryTag
//@item codec/src/protocol/definitions.rs SequenceNo
//@item codec/src/protocol/definitions.rs DeliveryNumber
//@item codec/src/protocol/definitions.rs TransferNumber
//@item codec/src/protocol/definitions.rs MessageFormat
//@item codec/src/protocol/definitions.rs IetfLanguageTag
//@item codec/src/protocol/definitions.rs NodeProperties
//@item codec/src/protocol/definitions.rs MessageIdUlong
//@item codec/src/protocol/definitions.rs MessageIdUuid
//@item codec/src/protocol/definitions.rs MessageIdBinary
//@item codec/src/protocol/definitions.rs MessageIdString
//@item codec/src/protocol/definitions.rs Address
//@item codec/src/protocol/mod.rs Map
//@item codec/src/protocol/mod.rs StringVariantMap
//@item codec/src/protocol/mod.rs Fields
//@item codec/src/protocol/mod.rs FilterSet
//@item codec/src/protocol/mod.rs FieldsVec
//@item codec/src/protocol/mod.rs Timestamp
//@item codec/src/protocol/mod.rs Symbols
//@item codec/src/protocol/mod.rs IetfLanguageTags
//@item codec/src/protocol/mod.rs Annotations
//@item codec/src/protocol/mod.rs MessageId
//@item codec/src/protocol/mod.rs ErrorCondition
//@item codec/src/protocol/mod.rs DistributionMode
//@item codec/src/protocol/mod.rs TransferBody
//@item codec/src/protocol/definitions.rs DeliveryAnnotations
//@item codec/src/protocol/definitions.rs MessageAnnotations
//@item codec/src/protocol/definitions.rs ApplicationProperties
//@item codec/src/protocol/definitions.rs Data
//@item codec/src/protocol/definitions.rs AmqpSequence
//@item codec/src/protocol/definitions.rs AmqpValue
//@item codec/src/protocol/definitions.rs Footer
//@item codec/src/protocol/definitions.rs Role
//@item codec/src/protocol/definitions.rs SenderSettleMode
//@item codec/src/protocol/definitions.rs ReceiverSettleMode
//@item codec/src/protocol/definitions.rs AmqpError
//@item codec/src/protocol/definitions.rs ConnectionError
//@item codec/src/protocol/definitions.rs SessionError
//@item codec/src/protocol/definitions.rs LinkError
//@item codec/src/protocol/definitions.rs SaslCode
//@item codec/src/protocol/definitions.rs TerminusDurability
//@item codec/src/protocol/definitions.rs TerminusExpiryPolicy
//@item codec/src/protocol/definitions.rs Error
//@item codec/src/protocol/definitions.rs ErrorInner
//@item codec/src/protocol/definitions.rs Open
//@item codec/src/protocol/definitions.rs OpenInner
//@item codec/src/protocol/definitions.rs Begin
//@item codec/src/protocol/definitions.rs BeginInner
//@item codec/src/protocol/definitions.rs Attach
//@item codec/src/protocol/definitions.rs AttachInner
//@item codec/src/protocol/definitions.rs Flow
//@item codec/src/protocol/definitions.rs FlowInner
//@item codec/src/protocol/definitions.rs Transfer
//@item codec/src/protocol/definitions.rs TransferInner
//@item codec/src/protocol/definitions.rs Disposition
//@item codec/src/protocol/definitions.rs DispositionInner
//@item codec/src/protocol/definitions.rs Detach
//@item codec/src/protocol/definitions.rs DetachInner
//@item codec/src/protocol/definitions.rs End
//@item codec/src/protocol/definitions.rs Close
//@item codec/src/protocol/definitions.rs SaslMechanisms
//@item codec/src/protocol/definitions.rs SaslInit
//@item codec/src/protocol/definitions.rs SaslChallenge
//@item codec/src/protocol/definitions.rs SaslResponse
//@item codec/src/protocol/definitions.rs SaslOutcome
//@item codec/src/protocol/definitions.rs Source
//@item codec/src/protocol/definitions.rs Target
//@item codec/src/protocol/definitions.rs Header
//@item codec/src/protocol/definitions.rs Properties
//@item codec/src/protocol/definitions.rs Received
//@item codec/src/protocol/definitions.rs Accepted
//@item codec/src/protocol/definitions.rs Rejected
//@item codec/src/protocol/definitions.rs Released
//@item codec/src/protocol/definitions.rs Modified
//@item codec/src/message/message.rs Message
//@item codec/src/message/message.rs MessageInner
//@item codec/src/message/body.rs MessageBody


/// mandatory field: present and not null
pub open spec fn fman<T: DecodeFormatted>(s: Seq<u8>, n: int) -> Option<(T, Seq<u8>)> { if n > 0 { T::dec(s) } else { None } }
pub open spec fn fman_rej<T: DecodeFormatted>(s: Seq<u8>, n: int) -> bool { n <= 0 || T::drej(s) }
/// optional field: null or omitted
pub open spec fn fopt<T: DecodeFormatted>(s: Seq<u8>, n: int) -> Option<(Option<T>, Seq<u8>)> { if n > 0 { Option::<T>::dec(s) } else { Some((None, s)) } }
pub open spec fn fopt_rej<T: DecodeFormatted>(s: Seq<u8>, n: int) -> bool { n > 0 && Option::<T>::drej(s) }
pub open spec fn fdef<T>(v: Option<T>, d: T) -> T { match v { Some(x) => x, None => d } }
/// list with its header: fields and bytes after the list
pub open spec fn list_split(s: Seq<u8>) -> Option<((Seq<u8>, u32), Seq<u8>)> {
    match ListHeader::dec(s) {
        Some((h, r)) => if r.len() >= h.size { Some(((r.subrange(0, h.size as int), h.count), r.skip(h.size as int))) } else { None },
        None => None,
    }
}
pub open spec fn owf<T: RoundTrip>(o: Option<T>) -> bool { match o { Some(v) => v.wf(), None => true } }
/// types whose encoding is never null
pub trait NotNull: RoundTrip {
    proof fn nn(v: Self) requires v.wf(), v.enc().len() <= u32::MAX ensures v.enc().len() >= 1, v.enc()[0] != 0x40;
}
pub proof fn lemma_fman<T: NotNull>(v: T, rest: Seq<u8>, n: int)
    requires v.wf(), v.enc().len() <= u32::MAX, n > 0
    ensures fman::<T>(v.enc() + rest, n) == Some((v, rest))
{ T::roundtrip(v, rest); assert((v.enc() + rest)[0] == v.enc()[0]); }
pub proof fn lemma_fdef<T: NotNull>(v: T, rest: Seq<u8>, n: int)
    requires v.wf(), v.enc().len() <= u32::MAX, n > 0
    ensures fopt::<T>(v.enc() + rest, n) == Some((Some(v), rest))
{ T::roundtrip(v, rest); T::nn(v); assert((v.enc() + rest)[0] == v.enc()[0]); }
pub proof fn lemma_fopt<T: NotNull>(v: Option<T>, rest: Seq<u8>, n: int)
    requires owf(v), v.enc().len() <= u32::MAX, n > 0
    ensures fopt::<T>(v.enc() + rest, n) == Some((v, rest))
{
    match v {
        Some(x) => { lemma_fdef(x, rest, n); }
        None => { lemma_one(0x40, rest); assert((v.enc() + rest)[0] == 0x40); }
    }
}
pub proof fn lemma_nn_opt<T: NotNull>(v: Option<T>)
    requires owf(v), v.enc().len() <= u32::MAX
    ensures v.enc().len() >= 1
{ if v is Some { T::nn(v.unwrap()); } }
/// a list whose size field is the size of its fields
pub proof fn lemma_list_split(n: int, c: Seq<u8>, rest: Seq<u8>)
    requires c.len() + 4 <= u32::MAX, 0 <= n <= c.len()
    ensures enc_comp(0xc0, 0xd0, n, c).len() >= 3, list_split(enc_comp(0xc0, 0xd0, n, c) + rest) == Some(((c, n as u32), rest))
{
    lemma_hdr(0xc0, 0xd0, n, c, rest, false);
    lemma_comp_len(0xc0, 0xd0, n, c);
    let e = enc_comp(0xc0, 0xd0, n, c);
    assert((e + rest)[0] == e[0]);
    assert((c + rest).subrange(0, c.len() as int) =~= c);
    assert((c + rest).skip(c.len() as int) =~= rest);
}
pub open spec fn desc_is(d: Descriptor, n: u64, sym: Seq<u8>) -> bool { match d { Descriptor::Ulong(v) => v == n, Descriptor::Symbol(s) => s.0.0@ == sym } }
pub open spec fn denc(n: u64) -> Seq<u8> { Descriptor::Ulong(n).enc() }
pub proof fn lemma_denc(n: u64, rest: Seq<u8>)
    requires 0 < n < 256
    ensures denc(n).len() == 3, denc(n)[0] == 0, (denc(n) + rest)[0] == 0, Descriptor::dec((denc(n) + rest).skip(1)) == Some((Descriptor::Ulong(n), rest))
{ lemma_desc(Descriptor::Ulong(n), rest); }

impl NotNull for u8 { proof fn nn(v: Self) {  } }
impl NotNull for u16 { proof fn nn(v: Self) {  } }
impl NotNull for u32 { proof fn nn(v: Self) {  } }
impl NotNull for u64 { proof fn nn(v: Self) {  } }
impl NotNull for ByteString { proof fn nn(v: Self) { lemma_enc_be_len(v.seq().len(), 4); } }
impl NotNull for Symbol { proof fn nn(v: Self) { lemma_enc_be_len(v.0.0.seq().len(), 4); } }
impl NotNull for Bytes { proof fn nn(v: Self) { lemma_enc_be_len(v.seq().len(), 4); } }
impl NotNull for Uuid { proof fn nn(v: Self) {  } }
impl NotNull for DateTime<Utc> { proof fn nn(v: Self) {  } }
impl NotNull for bool { proof fn nn(v: Self) { } }
impl<K: RoundTrip, V: RoundTrip> NotNull for HashMap<K, V> { proof fn nn(v: Self) { lemma_map_rt(v@, Seq::empty()); } }
impl NotNull for VecSymbolMap { proof fn nn(v: Self) { lemma_map_rt(v.0@, Seq::empty()); } }
impl NotNull for VecStringMap { proof fn nn(v: Self) { lemma_map_rt(v.0@, Seq::empty()); } }
impl<T: Single + ArrayRoundTrip + NotNull> NotNull for Multiple<T> {
    proof fn nn(v: Self) { if v.0@.len() == 1 { assert(v.0@[0].wf()); T::nn(v.0@[0]); } else { lemma_vec_rt(v.0@, Seq::empty()); } }
}

pub open spec fn role_val(v: Role) -> bool { match v { Role::Sender => false, Role::Receiver => true } }
pub open spec fn role_of(s: bool) -> Option<Role> { if s == false { Some(Role::Sender) } else if s == true { Some(Role::Receiver) } else { None } }
//@impl codec/src/protocol/definitions.rs Role
//@method try_from
    ensures match role_of(v) { Some(x) => r == Ok::<Role, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Role"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match bool::sdec(s, fmt) { Some((b, r)) => match role_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { bool::srej(s, fmt) }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Role"
    open spec fn enc(&self) -> Seq<u8> { role_val(*self).enc() }
//@end
impl RoundTrip for Role {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { bool::roundtrip(role_val(v), rest); }
}
impl NotNull for Role { proof fn nn(v: Self) { } }

pub open spec fn sender_settle_mode_val(v: SenderSettleMode) -> u8 { match v { SenderSettleMode::Unsettled => 0u8, SenderSettleMode::Settled => 1u8, SenderSettleMode::Mixed => 2u8 } }
pub open spec fn sender_settle_mode_of(s: u8) -> Option<SenderSettleMode> { if s == 0u8 { Some(SenderSettleMode::Unsettled) } else if s == 1u8 { Some(SenderSettleMode::Settled) } else if s == 2u8 { Some(SenderSettleMode::Mixed) } else { None } }
//@impl codec/src/protocol/definitions.rs SenderSettleMode
//@method try_from
    ensures match sender_settle_mode_of(v) { Some(x) => r == Ok::<SenderSettleMode, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SenderSettleMode"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match u8::sdec(s, fmt) { Some((b, r)) => match sender_settle_mode_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SenderSettleMode"
    open spec fn enc(&self) -> Seq<u8> { sender_settle_mode_val(*self).enc() }
//@end
impl RoundTrip for SenderSettleMode {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { u8::roundtrip(sender_settle_mode_val(v), rest); }
}
impl NotNull for SenderSettleMode { proof fn nn(v: Self) { } }

pub open spec fn receiver_settle_mode_val(v: ReceiverSettleMode) -> u8 { match v { ReceiverSettleMode::First => 0u8, ReceiverSettleMode::Second => 1u8 } }
pub open spec fn receiver_settle_mode_of(s: u8) -> Option<ReceiverSettleMode> { if s == 0u8 { Some(ReceiverSettleMode::First) } else if s == 1u8 { Some(ReceiverSettleMode::Second) } else { None } }
//@impl codec/src/protocol/definitions.rs ReceiverSettleMode
//@method try_from
    ensures match receiver_settle_mode_of(v) { Some(x) => r == Ok::<ReceiverSettleMode, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for ReceiverSettleMode"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match u8::sdec(s, fmt) { Some((b, r)) => match receiver_settle_mode_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for ReceiverSettleMode"
    open spec fn enc(&self) -> Seq<u8> { receiver_settle_mode_val(*self).enc() }
//@end
impl RoundTrip for ReceiverSettleMode {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { u8::roundtrip(receiver_settle_mode_val(v), rest); }
}
impl NotNull for ReceiverSettleMode { proof fn nn(v: Self) { } }

pub open spec fn amqp_error_sym(v: AmqpError) -> Seq<u8> { match v { AmqpError::InternalError => lit!("amqp:internal-error"), AmqpError::NotFound => lit!("amqp:not-found"), AmqpError::UnauthorizedAccess => lit!("amqp:unauthorized-access"), AmqpError::DecodeError => lit!("amqp:decode-error"), AmqpError::ResourceLimitExceeded => lit!("amqp:resource-limit-exceeded"), AmqpError::NotAllowed => lit!("amqp:not-allowed"), AmqpError::InvalidField => lit!("amqp:invalid-field"), AmqpError::NotImplemented => lit!("amqp:not-implemented"), AmqpError::ResourceLocked => lit!("amqp:resource-locked"), AmqpError::PreconditionFailed => lit!("amqp:precondition-failed"), AmqpError::ResourceDeleted => lit!("amqp:resource-deleted"), AmqpError::IllegalState => lit!("amqp:illegal-state"), AmqpError::FrameSizeTooSmall => lit!("amqp:frame-size-too-small") } }
pub open spec fn amqp_error_of(s: Seq<u8>) -> Option<AmqpError> { if s == lit!("amqp:internal-error") { Some(AmqpError::InternalError) } else if s == lit!("amqp:not-found") { Some(AmqpError::NotFound) } else if s == lit!("amqp:unauthorized-access") { Some(AmqpError::UnauthorizedAccess) } else if s == lit!("amqp:decode-error") { Some(AmqpError::DecodeError) } else if s == lit!("amqp:resource-limit-exceeded") { Some(AmqpError::ResourceLimitExceeded) } else if s == lit!("amqp:not-allowed") { Some(AmqpError::NotAllowed) } else if s == lit!("amqp:invalid-field") { Some(AmqpError::InvalidField) } else if s == lit!("amqp:not-implemented") { Some(AmqpError::NotImplemented) } else if s == lit!("amqp:resource-locked") { Some(AmqpError::ResourceLocked) } else if s == lit!("amqp:precondition-failed") { Some(AmqpError::PreconditionFailed) } else if s == lit!("amqp:resource-deleted") { Some(AmqpError::ResourceDeleted) } else if s == lit!("amqp:illegal-state") { Some(AmqpError::IllegalState) } else if s == lit!("amqp:frame-size-too-small") { Some(AmqpError::FrameSizeTooSmall) } else { None } }
//@impl codec/src/protocol/definitions.rs AmqpError
//@method try_from
    ensures match amqp_error_of(v.0.0@) { Some(x) => r == Ok::<AmqpError, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for AmqpError"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match amqp_error_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for AmqpError" hint="let _ = self.enc().len(); litf!{amqp:internal-error}; litf!{amqp:not-found}; litf!{amqp:unauthorized-access}; litf!{amqp:decode-error}; litf!{amqp:resource-limit-exceeded}; litf!{amqp:not-allowed}; litf!{amqp:invalid-field}; litf!{amqp:not-implemented}; litf!{amqp:resource-locked}; litf!{amqp:precondition-failed}; litf!{amqp:resource-deleted}; litf!{amqp:illegal-state}; litf!{amqp:frame-size-too-small};"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, amqp_error_sym(*self)) }
//@end
pub proof fn lemma_amqp_error_sym(v: AmqpError)
    ensures amqp_error_of(amqp_error_sym(v)) == Some(v), is_utf8(amqp_error_sym(v)), 1 <= amqp_error_sym(v).len() <= 255
{ litf!("amqp:internal-error"); litf!("amqp:not-found"); litf!("amqp:unauthorized-access"); litf!("amqp:decode-error"); litf!("amqp:resource-limit-exceeded"); litf!("amqp:not-allowed"); litf!("amqp:invalid-field"); litf!("amqp:not-implemented"); litf!("amqp:resource-locked"); litf!("amqp:precondition-failed"); litf!("amqp:resource-deleted"); litf!("amqp:illegal-state"); litf!("amqp:frame-size-too-small"); axiom_utf8_lits(); }
impl RoundTrip for AmqpError {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_amqp_error_sym(v); lemma_enc_var(0xa3, 0xb3, amqp_error_sym(v), rest); }
}
impl NotNull for AmqpError { proof fn nn(v: Self) { } }

pub open spec fn connection_error_sym(v: ConnectionError) -> Seq<u8> { match v { ConnectionError::ConnectionForced => lit!("amqp:connection:forced"), ConnectionError::FramingError => lit!("amqp:connection:framing-error"), ConnectionError::Redirect => lit!("amqp:connection:redirect") } }
pub open spec fn connection_error_of(s: Seq<u8>) -> Option<ConnectionError> { if s == lit!("amqp:connection:forced") { Some(ConnectionError::ConnectionForced) } else if s == lit!("amqp:connection:framing-error") { Some(ConnectionError::FramingError) } else if s == lit!("amqp:connection:redirect") { Some(ConnectionError::Redirect) } else { None } }
//@impl codec/src/protocol/definitions.rs ConnectionError
//@method try_from
    ensures match connection_error_of(v.0.0@) { Some(x) => r == Ok::<ConnectionError, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for ConnectionError"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match connection_error_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for ConnectionError" hint="let _ = self.enc().len(); litf!{amqp:connection:forced}; litf!{amqp:connection:framing-error}; litf!{amqp:connection:redirect};"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, connection_error_sym(*self)) }
//@end
pub proof fn lemma_connection_error_sym(v: ConnectionError)
    ensures connection_error_of(connection_error_sym(v)) == Some(v), is_utf8(connection_error_sym(v)), 1 <= connection_error_sym(v).len() <= 255
{ litf!("amqp:connection:forced"); litf!("amqp:connection:framing-error"); litf!("amqp:connection:redirect"); axiom_utf8_lits(); }
impl RoundTrip for ConnectionError {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_connection_error_sym(v); lemma_enc_var(0xa3, 0xb3, connection_error_sym(v), rest); }
}
impl NotNull for ConnectionError { proof fn nn(v: Self) { } }

pub open spec fn session_error_sym(v: SessionError) -> Seq<u8> { match v { SessionError::WindowViolation => lit!("amqp:session:window-violation"), SessionError::ErrantLink => lit!("amqp:session:errant-link"), SessionError::HandleInUse => lit!("amqp:session:handle-in-use"), SessionError::UnattachedHandle => lit!("amqp:session:unattached-handle") } }
pub open spec fn session_error_of(s: Seq<u8>) -> Option<SessionError> { if s == lit!("amqp:session:window-violation") { Some(SessionError::WindowViolation) } else if s == lit!("amqp:session:errant-link") { Some(SessionError::ErrantLink) } else if s == lit!("amqp:session:handle-in-use") { Some(SessionError::HandleInUse) } else if s == lit!("amqp:session:unattached-handle") { Some(SessionError::UnattachedHandle) } else { None } }
//@impl codec/src/protocol/definitions.rs SessionError
//@method try_from
    ensures match session_error_of(v.0.0@) { Some(x) => r == Ok::<SessionError, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SessionError"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match session_error_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SessionError" hint="let _ = self.enc().len(); litf!{amqp:session:window-violation}; litf!{amqp:session:errant-link}; litf!{amqp:session:handle-in-use}; litf!{amqp:session:unattached-handle};"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, session_error_sym(*self)) }
//@end
pub proof fn lemma_session_error_sym(v: SessionError)
    ensures session_error_of(session_error_sym(v)) == Some(v), is_utf8(session_error_sym(v)), 1 <= session_error_sym(v).len() <= 255
{ litf!("amqp:session:window-violation"); litf!("amqp:session:errant-link"); litf!("amqp:session:handle-in-use"); litf!("amqp:session:unattached-handle"); axiom_utf8_lits(); }
impl RoundTrip for SessionError {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_session_error_sym(v); lemma_enc_var(0xa3, 0xb3, session_error_sym(v), rest); }
}
impl NotNull for SessionError { proof fn nn(v: Self) { } }

pub open spec fn link_error_sym(v: LinkError) -> Seq<u8> { match v { LinkError::DetachForced => lit!("amqp:link:detach-forced"), LinkError::TransferLimitExceeded => lit!("amqp:link:transfer-limit-exceeded"), LinkError::MessageSizeExceeded => lit!("amqp:link:message-size-exceeded"), LinkError::Redirect => lit!("amqp:link:redirect"), LinkError::Stolen => lit!("amqp:link:stolen") } }
pub open spec fn link_error_of(s: Seq<u8>) -> Option<LinkError> { if s == lit!("amqp:link:detach-forced") { Some(LinkError::DetachForced) } else if s == lit!("amqp:link:transfer-limit-exceeded") { Some(LinkError::TransferLimitExceeded) } else if s == lit!("amqp:link:message-size-exceeded") { Some(LinkError::MessageSizeExceeded) } else if s == lit!("amqp:link:redirect") { Some(LinkError::Redirect) } else if s == lit!("amqp:link:stolen") { Some(LinkError::Stolen) } else { None } }
//@impl codec/src/protocol/definitions.rs LinkError
//@method try_from
    ensures match link_error_of(v.0.0@) { Some(x) => r == Ok::<LinkError, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for LinkError"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match link_error_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for LinkError" hint="let _ = self.enc().len(); litf!{amqp:link:detach-forced}; litf!{amqp:link:transfer-limit-exceeded}; litf!{amqp:link:message-size-exceeded}; litf!{amqp:link:redirect}; litf!{amqp:link:stolen};"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, link_error_sym(*self)) }
//@end
pub proof fn lemma_link_error_sym(v: LinkError)
    ensures link_error_of(link_error_sym(v)) == Some(v), is_utf8(link_error_sym(v)), 1 <= link_error_sym(v).len() <= 255
{ litf!("amqp:link:detach-forced"); litf!("amqp:link:transfer-limit-exceeded"); litf!("amqp:link:message-size-exceeded"); litf!("amqp:link:redirect"); litf!("amqp:link:stolen"); axiom_utf8_lits(); }
impl RoundTrip for LinkError {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_link_error_sym(v); lemma_enc_var(0xa3, 0xb3, link_error_sym(v), rest); }
}
impl NotNull for LinkError { proof fn nn(v: Self) { } }

pub open spec fn sasl_code_val(v: SaslCode) -> u8 { match v { SaslCode::Ok => 0u8, SaslCode::Auth => 1u8, SaslCode::Sys => 2u8, SaslCode::SysPerm => 3u8, SaslCode::SysTemp => 4u8 } }
pub open spec fn sasl_code_of(s: u8) -> Option<SaslCode> { if s == 0u8 { Some(SaslCode::Ok) } else if s == 1u8 { Some(SaslCode::Auth) } else if s == 2u8 { Some(SaslCode::Sys) } else if s == 3u8 { Some(SaslCode::SysPerm) } else if s == 4u8 { Some(SaslCode::SysTemp) } else { None } }
//@impl codec/src/protocol/definitions.rs SaslCode
//@method try_from
    ensures match sasl_code_of(v) { Some(x) => r == Ok::<SaslCode, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslCode"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match u8::sdec(s, fmt) { Some((b, r)) => match sasl_code_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslCode"
    open spec fn enc(&self) -> Seq<u8> { sasl_code_val(*self).enc() }
//@end
impl RoundTrip for SaslCode {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { u8::roundtrip(sasl_code_val(v), rest); }
}
impl NotNull for SaslCode { proof fn nn(v: Self) { } }

pub open spec fn terminus_durability_val(v: TerminusDurability) -> u32 { match v { TerminusDurability::None => 0u32, TerminusDurability::Configuration => 1u32, TerminusDurability::UnsettledState => 2u32 } }
pub open spec fn terminus_durability_of(s: u32) -> Option<TerminusDurability> { if s == 0u32 { Some(TerminusDurability::None) } else if s == 1u32 { Some(TerminusDurability::Configuration) } else if s == 2u32 { Some(TerminusDurability::UnsettledState) } else { None } }
//@impl codec/src/protocol/definitions.rs TerminusDurability
//@method try_from
    ensures match terminus_durability_of(v) { Some(x) => r == Ok::<TerminusDurability, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for TerminusDurability"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match u32::sdec(s, fmt) { Some((b, r)) => match terminus_durability_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for TerminusDurability"
    open spec fn enc(&self) -> Seq<u8> { terminus_durability_val(*self).enc() }
//@end
impl RoundTrip for TerminusDurability {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { u32::roundtrip(terminus_durability_val(v), rest); }
}
impl NotNull for TerminusDurability { proof fn nn(v: Self) { } }

pub open spec fn terminus_expiry_policy_sym(v: TerminusExpiryPolicy) -> Seq<u8> { match v { TerminusExpiryPolicy::LinkDetach => lit!("link-detach"), TerminusExpiryPolicy::SessionEnd => lit!("session-end"), TerminusExpiryPolicy::ConnectionClose => lit!("connection-close"), TerminusExpiryPolicy::Never => lit!("never") } }
pub open spec fn terminus_expiry_policy_of(s: Seq<u8>) -> Option<TerminusExpiryPolicy> { if s == lit!("link-detach") { Some(TerminusExpiryPolicy::LinkDetach) } else if s == lit!("session-end") { Some(TerminusExpiryPolicy::SessionEnd) } else if s == lit!("connection-close") { Some(TerminusExpiryPolicy::ConnectionClose) } else if s == lit!("never") { Some(TerminusExpiryPolicy::Never) } else { None } }
//@impl codec/src/protocol/definitions.rs TerminusExpiryPolicy
//@method try_from
    ensures match terminus_expiry_policy_of(v.0.0@) { Some(x) => r == Ok::<TerminusExpiryPolicy, AmqpParseError>(x), None => r is Err }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for TerminusExpiryPolicy"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match terminus_expiry_policy_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for TerminusExpiryPolicy" hint="let _ = self.enc().len(); litf!{link-detach}; litf!{session-end}; litf!{connection-close}; litf!{never};"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, terminus_expiry_policy_sym(*self)) }
//@end
pub proof fn lemma_terminus_expiry_policy_sym(v: TerminusExpiryPolicy)
    ensures terminus_expiry_policy_of(terminus_expiry_policy_sym(v)) == Some(v), is_utf8(terminus_expiry_policy_sym(v)), 1 <= terminus_expiry_policy_sym(v).len() <= 255
{ litf!("link-detach"); litf!("session-end"); litf!("connection-close"); litf!("never"); axiom_utf8_lits(); }
impl RoundTrip for TerminusExpiryPolicy {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_terminus_expiry_policy_sym(v); lemma_enc_var(0xa3, 0xb3, terminus_expiry_policy_sym(v), rest); }
}
impl NotNull for TerminusExpiryPolicy { proof fn nn(v: Self) { } }

#[verifier::external_body]
pub proof fn axiom_utf8_lits() ensures is_utf8(lit!("amqp:internal-error")), is_utf8(lit!("amqp:not-found")), is_utf8(lit!("amqp:unauthorized-access")), is_utf8(lit!("amqp:decode-error")), is_utf8(lit!("amqp:resource-limit-exceeded")), is_utf8(lit!("amqp:not-allowed")), is_utf8(lit!("amqp:invalid-field")), is_utf8(lit!("amqp:not-implemented")), is_utf8(lit!("amqp:resource-locked")), is_utf8(lit!("amqp:precondition-failed")), is_utf8(lit!("amqp:resource-deleted")), is_utf8(lit!("amqp:illegal-state")), is_utf8(lit!("amqp:frame-size-too-small")), is_utf8(lit!("amqp:connection:forced")), is_utf8(lit!("amqp:connection:framing-error")), is_utf8(lit!("amqp:connection:redirect")), is_utf8(lit!("amqp:session:window-violation")), is_utf8(lit!("amqp:session:errant-link")), is_utf8(lit!("amqp:session:handle-in-use")), is_utf8(lit!("amqp:session:unattached-handle")), is_utf8(lit!("amqp:link:detach-forced")), is_utf8(lit!("amqp:link:transfer-limit-exceeded")), is_utf8(lit!("amqp:link:message-size-exceeded")), is_utf8(lit!("amqp:link:redirect")), is_utf8(lit!("amqp:link:stolen")), is_utf8(lit!("link-detach")), is_utf8(lit!("session-end")), is_utf8(lit!("connection-close")), is_utf8(lit!("never")), is_utf8(lit!("move")), is_utf8(lit!("copy")) { }

//@impl codec/src/protocol/mod.rs "DecodeFormatted for MessageId"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x80 || fmt == 0x53 || fmt == 0x44 { match u64::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Ulong(v), r)), None => None } }
        else if fmt == 0x98 { match Uuid::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Uuid(v), r)), None => None } }
        else if fmt == 0xa0 || fmt == 0xb0 { match Bytes::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Binary(v), r)), None => None } }
        else if fmt == 0xa1 || fmt == 0xb1 { match ByteString::sdec(s, fmt) { Some((v, r)) => Some((MessageId::String(v), r)), None => None } }
        else { None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/mod.rs "Encode for MessageId"
    open spec fn enc(&self) -> Seq<u8> { match *self { MessageId::Ulong(v) => v.enc(), MessageId::Uuid(v) => v.enc(), MessageId::Binary(v) => v.enc(), MessageId::String(v) => v.enc() } }
//@end
impl RoundTrip for MessageId {
    open spec fn wf(&self) -> bool { match *self { MessageId::String(v) => v.wf(), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            MessageId::Ulong(x) => { u64::roundtrip(x, rest); }
            MessageId::Uuid(x) => { Uuid::roundtrip(x, rest); }
            MessageId::Binary(x) => { Bytes::roundtrip(x, rest); lemma_enc_be_len(x.seq().len(), 4); }
            MessageId::String(x) => { ByteString::roundtrip(x, rest); lemma_enc_be_len(x.seq().len(), 4); }
        }
    }
}
impl NotNull for MessageId { proof fn nn(v: Self) { match v { MessageId::Ulong(x) => u64::nn(x), MessageId::Uuid(x) => Uuid::nn(x), MessageId::Binary(x) => Bytes::nn(x), MessageId::String(x) => ByteString::nn(x) } } }

pub open spec fn errc_of(s: Symbol) -> ErrorCondition {
    if amqp_error_of(s.0.0@) is Some { ErrorCondition::AmqpError(amqp_error_of(s.0.0@).unwrap()) } else
    if connection_error_of(s.0.0@) is Some { ErrorCondition::ConnectionError(connection_error_of(s.0.0@).unwrap()) } else
    if session_error_of(s.0.0@) is Some { ErrorCondition::SessionError(session_error_of(s.0.0@).unwrap()) } else
    if link_error_of(s.0.0@) is Some { ErrorCondition::LinkError(link_error_of(s.0.0@).unwrap()) } else
    { ErrorCondition::Custom(s) }
}
/// symbols that are not predefined conditions
pub open spec fn errc_custom(s: Symbol) -> bool { amqp_error_of(s.0.0@) is None && connection_error_of(s.0.0@) is None && session_error_of(s.0.0@) is None && link_error_of(s.0.0@) is None }
//@impl codec/src/protocol/mod.rs "DecodeFormatted for ErrorCondition"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => Some((errc_of(b), r)), None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/mod.rs "Encode for ErrorCondition"
    open spec fn enc(&self) -> Seq<u8> { match *self { ErrorCondition::AmqpError(v) => v.enc(), ErrorCondition::ConnectionError(v) => v.enc(), ErrorCondition::SessionError(v) => v.enc(), ErrorCondition::LinkError(v) => v.enc(), ErrorCondition::Custom(v) => v.enc() } }
//@end
pub proof fn lemma_errc_amqp_error(v: AmqpError) ensures connection_error_of(amqp_error_sym(v)) is None, session_error_of(amqp_error_sym(v)) is None, link_error_of(amqp_error_sym(v)) is None { litf!("amqp:internal-error"); litf!("amqp:not-found"); litf!("amqp:unauthorized-access"); litf!("amqp:decode-error"); litf!("amqp:resource-limit-exceeded"); litf!("amqp:not-allowed"); litf!("amqp:invalid-field"); litf!("amqp:not-implemented"); litf!("amqp:resource-locked"); litf!("amqp:precondition-failed"); litf!("amqp:resource-deleted"); litf!("amqp:illegal-state"); litf!("amqp:frame-size-too-small"); litf!("amqp:connection:forced"); litf!("amqp:connection:framing-error"); litf!("amqp:connection:redirect"); litf!("amqp:session:window-violation"); litf!("amqp:session:errant-link"); litf!("amqp:session:handle-in-use"); litf!("amqp:session:unattached-handle"); litf!("amqp:link:detach-forced"); litf!("amqp:link:transfer-limit-exceeded"); litf!("amqp:link:message-size-exceeded"); litf!("amqp:link:redirect"); litf!("amqp:link:stolen"); }
pub proof fn lemma_errc_connection_error(v: ConnectionError) ensures amqp_error_of(connection_error_sym(v)) is None, session_error_of(connection_error_sym(v)) is None, link_error_of(connection_error_sym(v)) is None { litf!("amqp:internal-error"); litf!("amqp:not-found"); litf!("amqp:unauthorized-access"); litf!("amqp:decode-error"); litf!("amqp:resource-limit-exceeded"); litf!("amqp:not-allowed"); litf!("amqp:invalid-field"); litf!("amqp:not-implemented"); litf!("amqp:resource-locked"); litf!("amqp:precondition-failed"); litf!("amqp:resource-deleted"); litf!("amqp:illegal-state"); litf!("amqp:frame-size-too-small"); litf!("amqp:connection:forced"); litf!("amqp:connection:framing-error"); litf!("amqp:connection:redirect"); litf!("amqp:session:window-violation"); litf!("amqp:session:errant-link"); litf!("amqp:session:handle-in-use"); litf!("amqp:session:unattached-handle"); litf!("amqp:link:detach-forced"); litf!("amqp:link:transfer-limit-exceeded"); litf!("amqp:link:message-size-exceeded"); litf!("amqp:link:redirect"); litf!("amqp:link:stolen"); }
pub proof fn lemma_errc_session_error(v: SessionError) ensures amqp_error_of(session_error_sym(v)) is None, connection_error_of(session_error_sym(v)) is None, link_error_of(session_error_sym(v)) is None { litf!("amqp:internal-error"); litf!("amqp:not-found"); litf!("amqp:unauthorized-access"); litf!("amqp:decode-error"); litf!("amqp:resource-limit-exceeded"); litf!("amqp:not-allowed"); litf!("amqp:invalid-field"); litf!("amqp:not-implemented"); litf!("amqp:resource-locked"); litf!("amqp:precondition-failed"); litf!("amqp:resource-deleted"); litf!("amqp:illegal-state"); litf!("amqp:frame-size-too-small"); litf!("amqp:connection:forced"); litf!("amqp:connection:framing-error"); litf!("amqp:connection:redirect"); litf!("amqp:session:window-violation"); litf!("amqp:session:errant-link"); litf!("amqp:session:handle-in-use"); litf!("amqp:session:unattached-handle"); litf!("amqp:link:detach-forced"); litf!("amqp:link:transfer-limit-exceeded"); litf!("amqp:link:message-size-exceeded"); litf!("amqp:link:redirect"); litf!("amqp:link:stolen"); }
pub proof fn lemma_errc_link_error(v: LinkError) ensures amqp_error_of(link_error_sym(v)) is None, connection_error_of(link_error_sym(v)) is None, session_error_of(link_error_sym(v)) is None { litf!("amqp:internal-error"); litf!("amqp:not-found"); litf!("amqp:unauthorized-access"); litf!("amqp:decode-error"); litf!("amqp:resource-limit-exceeded"); litf!("amqp:not-allowed"); litf!("amqp:invalid-field"); litf!("amqp:not-implemented"); litf!("amqp:resource-locked"); litf!("amqp:precondition-failed"); litf!("amqp:resource-deleted"); litf!("amqp:illegal-state"); litf!("amqp:frame-size-too-small"); litf!("amqp:connection:forced"); litf!("amqp:connection:framing-error"); litf!("amqp:connection:redirect"); litf!("amqp:session:window-violation"); litf!("amqp:session:errant-link"); litf!("amqp:session:handle-in-use"); litf!("amqp:session:unattached-handle"); litf!("amqp:link:detach-forced"); litf!("amqp:link:transfer-limit-exceeded"); litf!("amqp:link:message-size-exceeded"); litf!("amqp:link:redirect"); litf!("amqp:link:stolen"); }
impl RoundTrip for ErrorCondition {
    open spec fn wf(&self) -> bool { match *self { ErrorCondition::Custom(s) => s.wf() && errc_custom(s), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            ErrorCondition::AmqpError(x) => { lemma_errc_amqp_error(x); lemma_amqp_error_sym(x); lemma_enc_var(0xa3, 0xb3, amqp_error_sym(x), rest); }
            ErrorCondition::ConnectionError(x) => { lemma_errc_connection_error(x); lemma_connection_error_sym(x); lemma_enc_var(0xa3, 0xb3, connection_error_sym(x), rest); }
            ErrorCondition::SessionError(x) => { lemma_errc_session_error(x); lemma_session_error_sym(x); lemma_enc_var(0xa3, 0xb3, session_error_sym(x), rest); }
            ErrorCondition::LinkError(x) => { lemma_errc_link_error(x); lemma_link_error_sym(x); lemma_enc_var(0xa3, 0xb3, link_error_sym(x), rest); }
            ErrorCondition::Custom(x) => { Symbol::roundtrip(x, rest); }
        }
    }
}
impl NotNull for ErrorCondition { proof fn nn(v: Self) { match v { ErrorCondition::Custom(x) => Symbol::nn(x), ErrorCondition::AmqpError(x) => AmqpError::nn(x), ErrorCondition::ConnectionError(x) => ConnectionError::nn(x), ErrorCondition::SessionError(x) => SessionError::nn(x), ErrorCondition::LinkError(x) => LinkError::nn(x) } } }
//@impl codec/src/protocol/mod.rs "DecodeFormatted for DistributionMode"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => Some((if b.0.0@ == lit!("move") { DistributionMode::Move } else if b.0.0@ == lit!("copy") { DistributionMode::Copy } else { DistributionMode::Custom(b) }, r)), None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/protocol/mod.rs "Encode for DistributionMode" hint="litf!{move}; litf!{copy};"
    open spec fn enc(&self) -> Seq<u8> { match *self { DistributionMode::Move => enc_var(0xa3, 0xb3, lit!("move")), DistributionMode::Copy => enc_var(0xa3, 0xb3, lit!("copy")), DistributionMode::Custom(v) => v.enc() } }
//@end
impl RoundTrip for DistributionMode {
    open spec fn wf(&self) -> bool { match *self { DistributionMode::Custom(s) => s.wf() && s.0.0@ != lit!("move") && s.0.0@ != lit!("copy"), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        litf!("move"); litf!("copy"); axiom_utf8_lits();
        match v {
            DistributionMode::Move => { lemma_enc_var(0xa3, 0xb3, lit!("move"), rest); }
            DistributionMode::Copy => { lemma_enc_var(0xa3, 0xb3, lit!("copy"), rest); }
            DistributionMode::Custom(x) => { Symbol::roundtrip(x, rest); }
        }
    }
}
impl NotNull for DistributionMode { proof fn nn(v: Self) { match v { DistributionMode::Custom(x) => Symbol::nn(x), _ => { litf!("move"); litf!("copy"); } } } }

