pub mod hsk {
use super::*;
use super::sess::{StaticStr, IoRef, IoError, Either, Frame, AmqpFrame, AmqpCodec, AmqpCodecError, Bytes, ByteString, Symbol, Symbols, Open, OpenInner, Connection, ConnectionRef, ConnectionInner, AmqpServiceConfig, RemoteServiceConfig, Millis, Seconds, AmqpProtocolError, CloneX};
verus! {
// ===================================================================================
// Negotiation: the log of a connection under negotiation is what has been sent on it and received from it, in order.
// `send` may only be called with what the protocol allows at that point (may_send), also on the paths that fail later.
// ===================================================================================
//@item codec/src/protocol/mod.rs ProtocolId derive="Clone, Copy, PartialEq, Eq, Structural"
//@item codec/src/error.rs ProtocolIdError
//@item codec/src/protocol/definitions.rs SaslCode derive="Clone, Copy, PartialEq, Eq, Structural"
//@item codec/src/protocol/definitions.rs SaslMechanisms
//@item codec/src/protocol/definitions.rs SaslInit as=PSaslInit
//@item codec/src/protocol/definitions.rs SaslChallenge
//@item codec/src/protocol/definitions.rs SaslResponse as=PSaslResponse
//@item codec/src/protocol/definitions.rs SaslOutcome
//@item codec/src/protocol/definitions.rs SaslFrameBody $SaslInit=PSaslInit $SaslResponse=PSaslResponse
//@item codec/src/framing.rs SaslFrame
//@impl codec/src/protocol/definitions.rs SaslOutcome
//@method code
    ensures r == self.code
//@end
impl SaslFrame {
    pub fn new(body: SaslFrameBody) -> (r: SaslFrame) ensures r == (SaslFrame { body }) { SaslFrame { body } }
}
impl vstd::std_specs::convert::FromSpecImpl<SaslMechanisms> for SaslFrame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SaslMechanisms) -> Self { SaslFrame { body: SaslFrameBody::SaslMechanisms(e) } } }
impl From<SaslMechanisms> for SaslFrame { fn from(e: SaslMechanisms) -> (r: Self) { SaslFrame::new(SaslFrameBody::SaslMechanisms(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<PSaslInit> for SaslFrame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: PSaslInit) -> Self { SaslFrame { body: SaslFrameBody::SaslInit(e) } } }
impl From<PSaslInit> for SaslFrame { fn from(e: PSaslInit) -> (r: Self) { SaslFrame::new(SaslFrameBody::SaslInit(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<SaslChallenge> for SaslFrame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SaslChallenge) -> Self { SaslFrame { body: SaslFrameBody::SaslChallenge(e) } } }
impl From<SaslChallenge> for SaslFrame { fn from(e: SaslChallenge) -> (r: Self) { SaslFrame::new(SaslFrameBody::SaslChallenge(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<SaslOutcome> for SaslFrame { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SaslOutcome) -> Self { SaslFrame { body: SaslFrameBody::SaslOutcome(e) } } }
impl From<SaslOutcome> for SaslFrame { fn from(e: SaslOutcome) -> (r: Self) { SaslFrame::new(SaslFrameBody::SaslOutcome(e)) } }
//@impl codec/src/protocol/definitions.rs Open
//@method hostname_mut
    ensures *r == old(self).0.hostname, *final(self).0 == (OpenInner { hostname: *final(r), ..*old(self).0 })
//@end
impl AmqpFrame {
    pub fn performative(&self) -> (r: &Frame) ensures *r == self.1 { &self.1 }
}
impl Symbol { #[verifier::external_body] pub fn from_lit_(s: StaticStr) -> (r: Symbol) ensures r.0.s@ == s.s@ { unimplemented!() } }
impl Symbols { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl CloneX for AmqpServiceConfig { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }

pub enum Ev {
    SentProto(ProtocolId), GotProto(ProtocolId),
    SentSasl(SaslFrameBody), GotSasl(SaslFrameBody),
    SentFrame(u16, Frame), GotFrame(u16, Frame),
}
pub type Log = Seq<Ev>;
pub open spec fn last_is(l: Log, e: Ev) -> bool { l.len() > 0 && l.last() == e }
pub open spec fn sasl_ok(e: Ev) -> bool { e is GotSasl && e->GotSasl_0 is SaslOutcome && e->GotSasl_0->SaslOutcome_0.code == SaslCode::Ok }
/// what may be sent after `l`
pub open spec fn may_send(l: Log, e: Ev) -> bool {
    match e {
        // a client starts with its header, or goes on with amqp after an outcome that is ok; a server echoes the header it got
        Ev::SentProto(p) => p != ProtocolId::AmqpTls && (l.len() == 0 || last_is(l, Ev::GotProto(p)) || (p == ProtocolId::Amqp && l.len() > 0 && sasl_ok(l.last()))),
        Ev::SentSasl(b) => l.len() > 0 && match b {
            SaslFrameBody::SaslMechanisms(_) => l.last() == Ev::SentProto(ProtocolId::AmqpSasl),
            // credentials only after both headers and the mechanisms
            SaslFrameBody::SaslInit(_) => l.len() == 3 && l[0] == Ev::SentProto(ProtocolId::AmqpSasl) && l[1] == Ev::GotProto(ProtocolId::AmqpSasl) && l[2] is GotSasl && l[2]->GotSasl_0 is SaslMechanisms,
            SaslFrameBody::SaslChallenge(_) => l.last() is GotSasl && l.last()->GotSasl_0 is SaslInit,
            SaslFrameBody::SaslResponse(_) => l.last() is GotSasl && l.last()->GotSasl_0 is SaslChallenge,
            SaslFrameBody::SaslOutcome(_) => l.last() is GotSasl && (l.last()->GotSasl_0 is SaslInit || l.last()->GotSasl_0 is SaslResponse),
        },
        // open on channel 0: a client after both amqp headers, a server after the client's open
        Ev::SentFrame(c, f) => c == 0 && f is Open && l.len() > 0 && (
            (l.len() > 1 && l[l.len() - 2] == Ev::SentProto(ProtocolId::Amqp) && l.last() == Ev::GotProto(ProtocolId::Amqp))
            || (l.last() is GotFrame && l.last()->GotFrame_1 is Open)),
        _ => false,
    }
}
pub trait Cod { type Item; type Err; spec fn sent(i: Self::Item) -> Ev; spec fn got(i: Self::Item) -> Ev; }
pub struct ProtocolIdCodec;
impl Cod for ProtocolIdCodec { type Item = ProtocolId; type Err = ProtocolIdError; open spec fn sent(i: ProtocolId) -> Ev { Ev::SentProto(i) } open spec fn got(i: ProtocolId) -> Ev { Ev::GotProto(i) } }
impl Cod for AmqpCodec<AmqpFrame> { type Item = AmqpFrame; type Err = AmqpCodecError; open spec fn sent(i: AmqpFrame) -> Ev { Ev::SentFrame(i.0, i.1) } open spec fn got(i: AmqpFrame) -> Ev { Ev::GotFrame(i.0, i.1) } }
impl Cod for AmqpCodec<SaslFrame> { type Item = SaslFrame; type Err = AmqpCodecError; open spec fn sent(i: SaslFrame) -> Ev { Ev::SentSasl(i.body) } open spec fn got(i: SaslFrame) -> Ev { Ev::GotSasl(i.body) } }
/// ntex_io::IoBoxed (assumed): items are sent and received in order; a failure or the end of input adds nothing
pub struct IoBoxed { pub log: Ghost<Log>, pub io: IoRef }
impl IoBoxed {
    #[verifier::external_body]
    pub fn send<C: Cod>(&mut self, item: C::Item, codec: &C) -> (r: Result<(), Either<C::Err, IoError>>)
        requires may_send(old(self).log@, C::sent(item))
        ensures final(self).log@ == old(self).log@.push(C::sent(item)), final(self).io == old(self).io
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recv<C: Cod>(&mut self, codec: &C) -> (r: Result<Option<C::Item>, Either<C::Err, IoError>>)
        ensures final(self).io == old(self).io,
            final(self).log@ == (match r { Ok(Some(x)) => old(self).log@.push(C::got(x)), _ => old(self).log@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: IoRef) ensures r == self.io { unimplemented!() }
    /// (of the dereferenced IoRef)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: IoRef) ensures r == self.io { unimplemented!() }
}
pub fn __await<T>(x: T) -> (r: T) ensures r == x { x }

/// `o` is the open announced for `cfg`, with `h` in place of the configured host name if there is one
pub open spec fn opens(cfg: AmqpServiceConfig, h: Option<ByteString>, o: Open) -> bool {
    &&& o.0.max_frame_size == cfg.max_frame_size && o.0.channel_max == cfg.channel_max
    &&& o.0.hostname == (if h is Some { h } else { cfg.hostname })
    &&& o.0.idle_time_out == (if cfg.idle_time_out > 0 { Some(cfg.idle_time_out) } else { None })
    &&& o.0.offered_capabilities == cfg.offered_capabilities && o.0.desired_capabilities == cfg.desired_capabilities
}
/// what is kept of the peer's open
pub open spec fn kept(o: Open, r: RemoteServiceConfig) -> bool {
    &&& r.max_frame_size == o.0.max_frame_size && r.channel_max == o.0.channel_max && r.hostname == o.0.hostname
    &&& r.idle_time_out == (match o.0.idle_time_out { Some(x) => x, None => 0 })
    &&& r.offered_capabilities == o.0.offered_capabilities && r.desired_capabilities == o.0.desired_capabilities
}
/// the connection made for `cfg` and the peer's open
pub open spec fn conn_for(c: ConnectionInner, io: IoRef, cfg: AmqpServiceConfig, o: Open) -> bool {
    &&& c.io == io && c.error is None
    &&& c.max_frame_size == o.0.max_frame_size
    &&& c.channel_max == (if cfg.channel_max < o.0.channel_max { cfg.channel_max as usize } else { o.0.channel_max as usize })
}
pub open spec fn got_open(l: Log, o: Open) -> bool { l.len() > 0 && l.last() is GotFrame && l.last()->GotFrame_1 == Frame::Open(o) }
pub open spec fn idle_ok(t: Millis, o: Open) -> bool { let i = match o.0.idle_time_out { Some(x) => x, None => 0 }; t.0 <= i && (i >= 4 ==> t.0 < i) && (i > 0 ==> t.0 > 0) }

// ------------------------------------------------------------------ server
//@renamepath protocol::SaslInit PSaslInit
//@renamepath protocol::SaslResponse PSaslResponse
//@item src/server/error.rs HandshakeError $std::io::Error=IoError
#[verifier::external_body]
pub struct StdString {}
impl From<Either<AmqpCodecError, IoError>> for HandshakeError { #[verifier::external_body] fn from(e: Either<AmqpCodecError, IoError>) -> (r: Self) { unimplemented!() } }
impl From<Either<ProtocolIdError, IoError>> for HandshakeError { #[verifier::external_body] fn from(e: Either<ProtocolIdError, IoError>) -> (r: Self) { unimplemented!() } }
impl From<ProtocolIdError> for HandshakeError { #[verifier::external_body] fn from(e: ProtocolIdError) -> (r: Self) { unimplemented!() } }
//@item src/server/sasl.rs Sasl $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/sasl.rs SaslInit $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/sasl.rs SaslResponse $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/sasl.rs SaslSuccess $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/handshake.rs HandshakeAmqp $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/handshake.rs HandshakeAmqpOpened $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@item src/server/handshake.rs HandshakeAck
//@item src/server/handshake.rs Handshake
impl Handshake {
    pub open spec fn log(&self) -> Log { match *self { Handshake::Amqp(h) => h.state.log@, Handshake::Sasl(h) => h.state.log@ } }
    pub open spec fn cfg(&self) -> AmqpServiceConfig { match *self { Handshake::Amqp(h) => h.local_config, Handshake::Sasl(h) => h.local_config } }
    pub open spec fn io(&self) -> IoRef { match *self { Handshake::Amqp(h) => h.state.io, Handshake::Sasl(h) => h.state.io } }
    pub open spec fn inv(&self) -> bool { match *self { Handshake::Amqp(h) => last_is(h.state.log@, Ev::SentProto(ProtocolId::Amqp)), Handshake::Sasl(h) => last_is(h.state.log@, Ev::SentProto(ProtocolId::AmqpSasl)) } }
}
//@impl src/server/sasl.rs Sasl
//@method new $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    ensures r.state == state, r.local_config == local_config
//@method init mutbind=state
    requires last_is(self.state.log@, Ev::SentProto(ProtocolId::AmqpSasl))
    ensures r is Ok ==> r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ == self.state.log@.push(Ev::SentSasl(SaslFrameBody::SaslMechanisms(SaslMechanisms { sasl_server_mechanisms: self.mechanisms }))).push(Ev::GotSasl(SaslFrameBody::SaslInit(r->Ok_0.frame)))
//@end
//@impl src/server/sasl.rs SaslInit
//@method challenge
    requires last_is(self.state.log@, Ev::GotSasl(SaslFrameBody::SaslInit(self.frame)))
    ensures r is Ok ==> r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && exists|c: Bytes| c@.len() == 0 && r->Ok_0.state.log@ == #[trigger] self.state.log@.push(Ev::SentSasl(SaslFrameBody::SaslChallenge(SaslChallenge { challenge: c }))).push(Ev::GotSasl(SaslFrameBody::SaslResponse(r->Ok_0.frame)))
//@method challenge_with mutbind=state
    requires last_is(self.state.log@, Ev::GotSasl(SaslFrameBody::SaslInit(self.frame)))
    ensures r is Ok ==> r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ == self.state.log@.push(Ev::SentSasl(SaslFrameBody::SaslChallenge(SaslChallenge { challenge }))).push(Ev::GotSasl(SaslFrameBody::SaslResponse(r->Ok_0.frame)))
//@method outcome mutbind=state
    requires last_is(self.state.log@, Ev::GotSasl(SaslFrameBody::SaslInit(self.frame)))
    ensures r is Ok ==> r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ == self.state.log@.push(Ev::SentSasl(SaslFrameBody::SaslOutcome(SaslOutcome { code, additional_data: None })))
//@end
//@impl src/server/sasl.rs SaslResponse
//@method outcome mutbind=state
    requires last_is(self.state.log@, Ev::GotSasl(SaslFrameBody::SaslResponse(self.frame)))
    ensures r is Ok ==> r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ == self.state.log@.push(Ev::SentSasl(SaslFrameBody::SaslOutcome(SaslOutcome { code, additional_data: None })))
//@end
impl HandshakeAmqpOpened {
    pub open spec fn inv(&self) -> bool {
        &&& got_open(self.state.log@, self.frame)
        &&& kept(self.frame, self.remote_config)
        &&& conn_for(self.sink.0.0, self.state.io, self.local_config, self.frame)
    }
}
//@impl src/server/handshake.rs HandshakeAmqpOpened
//@method new $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    ensures r == (HandshakeAmqpOpened { frame, sink, state, local_config, remote_config })
//@method ack
    requires self.inv()
    ensures r.st == st, r.sink == self.sink, r.state == self.state, idle_ok(r.idle_timeout, self.frame)
//@end
//@impl src/server/handshake.rs HandshakeAck<St>
//@method into_inner
    ensures r == (self.st, self.sink, self.idle_timeout, self.state)
//@end
//@impl src/server/sasl.rs SaslSuccess
//@method open mutbind=state
    ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ =~= self.state.log@.push(Ev::GotProto(ProtocolId::Amqp)).push(Ev::SentProto(ProtocolId::Amqp)).push(r->Ok_0.state.log@.last())
//@end
//@impl src/server/handshake.rs HandshakeAmqp
//@method open mutbind=state
    ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.local_config == self.local_config && r->Ok_0.state.io == self.state.io
        && r->Ok_0.state.log@ =~= self.state.log@.push(r->Ok_0.state.log@.last())
//@end
//@impl src/server/handshake.rs Handshake
//@method new_plain $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    ensures r is Amqp, r->Amqp_0.state == state, r->Amqp_0.local_config == local_config
//@method new_sasl $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    ensures r is Sasl, r->Sasl_0.state == state, r->Sasl_0.local_config == local_config
//@end
pub trait Service<R>: Sized { type Response; type Error; }
/// the application's handshake service (assumed): an ack it returns was made by `HandshakeAmqpOpened::ack` at the end of the steps
/// above, taken from the handshake it was given
pub struct Pipeline<H> { pub h: H }
pub open spec fn ack_ok<St>(a: HandshakeAck<St>, h: Handshake) -> bool {
    exists|o: Open| #[trigger] got_open(a.state.log@, o) && a.state.io == h.io() && conn_for(a.sink.0.0, a.state.io, h.cfg(), o) && idle_ok(a.idle_timeout, o)
}
impl<H> Pipeline<H> {
    #[verifier::external_body]
    pub fn call<St>(&self, r: Handshake) -> (x: Result<HandshakeAck<St>, <H as Service<Handshake>>::Error>) where H: Service<Handshake, Response = HandshakeAck<St>>
        requires r.inv()
        ensures x is Ok ==> ack_ok(x->Ok_0, r)
    { unimplemented!() }
}
pub struct State<St>(pub St);
impl<St> State<St> { pub fn new(st: St) -> (r: Self) ensures r.0 == st { State(st) } }
//@item src/server/error.rs ServerError
pub struct AmqpDispatcherError {}
impl<E> From<HandshakeError> for ServerError<E> { #[verifier::external_body] fn from(e: HandshakeError) -> (r: Self) { ServerError::Handshake(e) } }
/// what a server connection starts from
pub open spec fn accepted<St>(r: (IoBoxed, AmqpCodec<AmqpFrame>, Connection, State<St>, Millis), io: IoBoxed, cfg: AmqpServiceConfig) -> bool {
    let l = r.0.log@; let n = l.len() - 1;
    &&& n >= 1 && l[n] is SentFrame && l[n]->SentFrame_0 == 0 && l[n]->SentFrame_1 is Open && opens(cfg, None, l[n]->SentFrame_1->Open_0)
    &&& l[n - 1] is GotFrame && l[n - 1]->GotFrame_1 is Open
    &&& r.0.io == io.io && r.1.max@ == cfg.max_size
    &&& conn_for(r.2.0.0, io.io, cfg, l[n - 1]->GotFrame_1->Open_0) && idle_ok(r.4, l[n - 1]->GotFrame_1->Open_0)
}
//@fn src/server/service.rs handshake mutbind=io keepwhere as=handshake_ $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    requires io.log@.len() == 0
    ensures r is Ok ==> accepted(r->Ok_0, io, cfg)
//@start
    let mut io = io;
//@end

// ------------------------------------------------------------------ the dispatcher of a connection is started
/// Dispatcher (its own contract is in module dsp)
pub struct Dispatcher<P, C> { pub sink: Connection, pub idle: Millis, pub p: P, pub c: C }
impl<P, C> Dispatcher<P, C> { pub fn new(sink: Connection, p: P, c: C, idle_timeout: Millis) -> (r: Self) ensures r.sink == sink, r.idle == idle_timeout { Dispatcher { sink, p, c, idle: idle_timeout } } }
/// only after both opens, for the connection they were exchanged on, with the time-out that the peer asked for
pub open spec fn startable<P, C>(io: IoBoxed, d: Dispatcher<P, C>) -> bool {
    &&& d.sink.0.0.io == io.io
    &&& exists|k: int, j: int| 0 <= k < io.log@.len() && 0 <= j < io.log@.len() && #[trigger] io.log@[j] is SentFrame && io.log@[j]->SentFrame_1 is Open && #[trigger] io.log@[k] is GotFrame && io.log@[k]->GotFrame_1 is Open && idle_ok(d.idle, io.log@[k]->GotFrame_1->Open_0)
}
pub struct IoDispatcher {}
impl IoDispatcher {
    #[verifier::external_body]
    pub fn new<P, C>(io: IoBoxed, codec: AmqpCodec<AmqpFrame>, d: Dispatcher<P, C>) -> (r: Result<(), AmqpDispatcherError>) requires startable(io, d) { unimplemented!() }
}
pub trait ServiceFactory<R, C>: Sized { type InitError; }
/// the application's service factories
pub struct CtlF {}
pub struct PbF {}
pub struct Srv {}
pub struct InitErr {}
impl CtlF { #[verifier::external_body] pub fn pipeline<S>(&self, s: S) -> (r: Result<Srv, InitErr>) { unimplemented!() } }
impl PbF { #[verifier::external_body] pub fn pipeline<S>(&self, s: S) -> (r: Result<Srv, InitErr>) { unimplemented!() } }
impl<St> CloneX for ServerInner<St> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<St> State<St> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn timeout_checked<T>(t: Seconds, f: T) -> (r: Result<T, ()>) ensures r is Ok ==> r->Ok_0 == f { unimplemented!() }
//@renamepath handshake handshake_
//@item src/server/service.rs ServerInner $Ctl=CtlF $Pb=PbF
//@item src/server/service.rs ServerHandler $Cfg<AmqpServiceConfig>=AmqpServiceConfig $Ctl=CtlF $Pb=PbF $Rc<ServerInner<St,Ctl,Pb>>=ServerInner<St>
//@impl src/server/service.rs "ServerHandler<St, H, Ctl, Pb>" header="impl<St: 'static, H: Service<Handshake, Response = HandshakeAck<St>>> ServerHandler<St, H>" $Ctl=CtlF $Pb=PbF
//@method create
    requires req.log@.len() == 0
//@end

// ------------------------------------------------------------------ client
//@renamepath SaslInit PSaslInit
//@renamepath SaslInit::prepare_response PSaslInit::prepare_response
pub struct Error<E> { pub e: E }
impl<E> From<E> for Error<E> { #[verifier::external_body] fn from(e: E) -> (r: Self) { Error { e } } }
pub struct NetConnectError {}
//@renamepath ntex_net::connect::ConnectError NetConnectError
//@item src/client/error.rs ConnectError $std::io::Error=IoError
impl From<Either<AmqpCodecError, IoError>> for ConnectError { #[verifier::external_body] fn from(e: Either<AmqpCodecError, IoError>) -> (r: Self) { unimplemented!() } }
impl From<Either<ProtocolIdError, IoError>> for ConnectError { #[verifier::external_body] fn from(e: Either<ProtocolIdError, IoError>) -> (r: Self) { unimplemented!() } }
impl From<ProtocolIdError> for ConnectError { #[verifier::external_body] fn from(e: ProtocolIdError) -> (r: Self) { unimplemented!() } }
//@item src/client/mod.rs SaslAuth
//@item src/client/connection.rs Client
//@impl src/client/connection.rs Client
//@method new
    ensures r.io == io, r.codec == codec, r.connection == connection, r.remote_config == remote_config
//@end
/// what a client connection starts from: both amqp headers and both opens after `l0`
pub open spec fn connected(c: Client<()>, l0: Log, io: IoRef, cfg: AmqpServiceConfig, h: Option<ByteString>) -> bool {
    let l = c.io.log@; let n = l0.len() as int;
    &&& l.len() == n + 4 && l.subrange(0, n) =~= l0
    &&& l[n] == Ev::SentProto(ProtocolId::Amqp) && l[n + 1] == Ev::GotProto(ProtocolId::Amqp)
    &&& l[n + 2] is SentFrame && l[n + 2]->SentFrame_0 == 0 && l[n + 2]->SentFrame_1 is Open && opens(cfg, h, l[n + 2]->SentFrame_1->Open_0)
    &&& l[n + 3] is GotFrame && l[n + 3]->GotFrame_1 is Open && kept(l[n + 3]->GotFrame_1->Open_0, c.remote_config)
    &&& c.io.io == io && conn_for(c.connection.0.0, io, cfg, l[n + 3]->GotFrame_1->Open_0) && c.codec.max@ == cfg.max_frame_size
}
//@fn src/client/connector.rs connect_plain_inner mutbind=io $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    requires io.log@.len() == 0 || sasl_ok(io.log@.last())
    ensures r is Ok ==> connected(r->Ok_0, io.log@, io.io, config, hostname)
//@start
    let mut io = io;
//@end
impl PSaslInit {
    /// assumed: `format!("{authz_id}\0{authn_id}\0{password}")`
    #[verifier::external_body]
    pub fn prepare_response(authz_id: &ByteString, authn_id: &ByteString, password: &ByteString) -> (r: Bytes) ensures r@ == authz_id@ + seq![0u8] + authn_id@ + seq![0u8] + password@ { unimplemented!() }
}
/// the sasl steps of a client: credentials are sent once, after the mechanisms, and the outcome is ok
pub open spec fn authenticated(l: Log, cfg: AmqpServiceConfig, a: SaslAuth) -> bool {
    &&& l.len() == 5 && l[0] == Ev::SentProto(ProtocolId::AmqpSasl) && l[1] == Ev::GotProto(ProtocolId::AmqpSasl)
    &&& l[2] is GotSasl && l[2]->GotSasl_0 is SaslMechanisms
    &&& l[3] is SentSasl && l[3]->SentSasl_0 is SaslInit && sasl_init_ok(l[3]->SentSasl_0->SaslInit_0, cfg, a)
    &&& sasl_ok(l[4])
}
pub open spec fn sasl_init_ok(i: PSaslInit, cfg: AmqpServiceConfig, a: SaslAuth) -> bool {
    &&& i.hostname == cfg.hostname && i.mechanism.0.s@ == lit!("PLAIN") && i.initial_response is Some
    &&& i.initial_response->0@ == a.authz_id@ + seq![0u8] + a.authn_id@ + seq![0u8] + a.password@
}
pub open spec fn sasl_connected(c: Client<()>, io: IoRef, cfg: AmqpServiceConfig, h: Option<ByteString>, a: SaslAuth) -> bool {
    &&& c.io.log@.len() == 9 && authenticated(c.io.log@.subrange(0, 5), cfg, a) && connected(c, c.io.log@.subrange(0, 5), io, cfg, h)
}
//@fn src/client/connector.rs connect_sasl_inner mutbind=io $Cfg<AmqpServiceConfig>=AmqpServiceConfig
    requires io.log@.len() == 0
    ensures r is Ok ==> sasl_connected(r->Ok_0, io.io, config, hostname, auth)
//@start
    let mut io = io;
//@end
pub struct CfgName {}
impl AmqpServiceConfig { #[verifier::external_body] pub fn service(&self) -> (r: CfgName) { unimplemented!() } }
impl<E> Error<E> { #[verifier::external_body] pub fn set_service(self, n: CfgName) -> (r: Self) { unimplemented!() } }
pub struct PhantomData<A> { pub a: core::marker::PhantomData<A> }
//@item src/client/connector.rs ConnectorService $Cfg<AmqpServiceConfig>=AmqpServiceConfig
//@renamepath connect::Connect::new NetConnect::new
pub trait Address {}
//@item src/client/mod.rs Connect
//@impl src/client/mod.rs "Connect<T>"
//@method new
    ensures r.addr == addr, r.sasl is None, r.hostname is None
//@method sasl_auth mutself
    ensures r == (Connect { sasl: Some(SaslAuth { authz_id, authn_id, password }), ..self })
//@method hostname mutself dropgeneric=U $U=ByteString callas=into:same_
    ensures r == (Connect { hostname: Some(hostname), ..self })
//@method into_parts
    ensures r == (self.addr, self.sasl, self.hostname)
//@end
pub trait SameX: Sized { fn same_(self) -> (r: Self) ensures r == self { self } }
impl SameX for ByteString {}
/// the transport (assumed): nothing has been sent or received on a connection that was just made
pub struct NetConnect<A> { pub a: A }
pub struct NetIo {}
impl<A> NetConnect<A> { #[verifier::external_body] pub fn new(a: A) -> (r: Self) { unimplemented!() } }
pub struct ServiceCtx {}
impl ServiceCtx { #[verifier::external_body] pub fn call<T, A>(&self, c: &T, r: NetConnect<A>) -> (x: Result<NetIo, Error<NetConnectError>>) { unimplemented!() } }
impl IoBoxed { #[verifier::external_body] pub fn from(io: NetIo) -> (r: Self) ensures r.log@.len() == 0 { unimplemented!() } }
impl Error<NetConnectError> { #[verifier::external_body] pub fn map_error_<F: FnOnce(NetConnectError) -> ConnectError>(self, f: F) -> (r: Error<ConnectError>) { unimplemented!() } }
impl From<NetConnectError> for ConnectError { #[verifier::external_body] fn from(e: NetConnectError) -> (r: Self) { unimplemented!() } }
//@impl src/client/connector.rs "Service<Connect<A>> for ConnectorService<A, T>" inherent only header="impl<A: Address, T> ConnectorService<A, T>"
//@method call asyncbody=0 callas=map:map_error_ sig="fn connect_fut_(&self, req: Connect<A>, ctx: ServiceCtx) -> Result<Client<()>, Error<ConnectError>>"
    ensures r is Ok ==> match req.sasl {
            Some(a) => sasl_connected(r->Ok_0, r->Ok_0.io.io, self.config, req.hostname, a),
            None => connected(r->Ok_0, Seq::<Ev>::empty(), r->Ok_0.io.io, self.config, req.hostname),
        }
//@end
//@impl src/client/connector.rs "ConnectorService<A, T>"
//@method negotiate
    requires io.log@.len() == 0
    ensures r is Ok ==> connected(r->Ok_0, io.log@, io.io, self.config, hostname)
//@method negotiate_sasl
    requires io.log@.len() == 0
    ensures r is Ok ==> sasl_connected(r->Ok_0, io.io, self.config, hostname, auth)
//@end
/// a client is started only once it is connected
pub open spec fn runnable<St>(c: Client<St>) -> bool {
    exists|l0: Log, cfg: AmqpServiceConfig, h: Option<ByteString>, d: Client<()>| #[trigger] connected(d, l0, c.io.io, cfg, h) && c.io == d.io && c.codec == d.codec && c.connection == d.connection && c.remote_config == d.remote_config
}
pub struct SrvFn {}
#[verifier::external_body]
pub fn __service_() -> (r: SrvFn) { unimplemented!() }
pub struct PipelineOf<S> { pub s: S }
impl<S> PipelineOf<S> { pub fn new(s: S) -> (r: Self) ensures r.s == s { PipelineOf { s } } }
impl SrvFn { #[verifier::external_body] pub fn into_service(self) -> (r: SrvFn) { unimplemented!() } }
//@renamepath Pipeline::new PipelineOf::new
//@impl src/client/connection.rs "Client<St>" header="impl<St: 'static> Client<St>"
//@method sink
    ensures r == self.connection.0
//@method state
    ensures r.io == self.io, r.codec == self.codec, r.connection == self.connection, r.remote_config == self.remote_config
//@method start_default
    requires runnable(self)
//@method start nogenerics $F=SrvFn
    requires runnable(self)
//@end
} // verus!
}
