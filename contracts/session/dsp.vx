pub mod dsp {
use super::*;
use super::sess::{Either, Frame, AmqpFrame, AmqpCodec, AmqpCodecError, AmqpProtocolError, IoError, Error, Attach, Detach, Flow, Action, ControlFrame, FrameInner, ControlFrameKind, Wrapper, SenderLink, ReceiverLink, SessionInner, Session, ConnectionRef, Millis, SenderLinkInner, ReceiverLinkInner, CloneX, CellX, AsyncBlk, __async_, __panic, min, rcv_closed, snd_closed, snd_accepted_any, snd_refused, ses_flowed, flow_applied, rcv_confirmed, credit_set};
verus! {
// ===================================================================================
// Dispatcher: what is passed on to the application's services.
// `Sink` stands for Connection: `got` is what handle_frame returned (its own contract is ConnectionRef::handle_frame), `errs`
// what it was failed with, `closed` how often it was closed. The services' logs are what they were called with, in order.
// ===================================================================================
//@renamepath cell::Cell::new CellCell::new
//@stripmod marker cell ntex_rt
impl CloneX for ControlFrame { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub enum Op { Frame(AmqpFrame), SetError(AmqpProtocolError), Close }
pub struct Waker {}
impl Waker { #[verifier::external_body] pub fn wake(&self) { unimplemented!() } }
pub struct Queue { pub waker: Waker }
pub struct SinkIn { pub got: Ghost<Seq<Result<Action, AmqpProtocolError>>>, pub ops: Ghost<Seq<Op>>, pub opened: Ghost<bool>, pub q: Queue }
pub struct Sink(pub SinkIn);
impl CellX for SinkIn { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
impl SinkIn {
    #[verifier::external_body]
    pub fn set_error(&mut self, e: AmqpProtocolError) ensures final(self).ops@ == old(self).ops@.push(Op::SetError(e)), final(self).got == old(self).got { unimplemented!() }
}
impl Sink {
    #[verifier::external_body]
    pub fn handle_frame(&mut self, f: AmqpFrame) -> (r: Result<Action, AmqpProtocolError>) ensures final(self).0.got@ == old(self).0.got@.push(r), final(self).0.ops == old(self).0.ops { unimplemented!() }
    #[verifier::external_body]
    pub fn is_opened(&self) -> (r: bool) ensures r == self.0.opened@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_error(&mut self, e: AmqpProtocolError) ensures final(self).0.ops@ == old(self).0.ops@.push(Op::SetError(e)), final(self).0.got == old(self).0.got { unimplemented!() }
    pub fn get_control_queue(&self) -> (r: &Queue) { &self.0.q }
}
/// the application's services
pub struct AppSvc {}
pub struct CtlSvc {}
pub struct AppErr {}
impl From<AppErr> for Error { #[verifier::external_body] fn from(e: AppErr) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<AmqpProtocolError> for AmqpDispatcherError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AmqpProtocolError) -> Self { AmqpDispatcherError::Protocol(e) } }
/// `#[from]` of thiserror
impl From<AmqpProtocolError> for AmqpDispatcherError { fn from(e: AmqpProtocolError) -> (r: Self) { AmqpDispatcherError::Protocol(e) } }
pub struct Pipeline<S> { pub s: S }
pub struct PipelineBinding<S, R> { pub log: Ghost<Seq<R>>, pub s: S }
pub struct PipelineCall<S, R> { pub s: Ghost<Option<S>>, pub r: Ghost<Option<R>> }
impl<S> Pipeline<S> {
    #[verifier::external_body]
    pub fn bind<R>(self) -> (r: PipelineBinding<S, R>) ensures r.log@.len() == 0 { unimplemented!() }
}
impl<S, R> PipelineBinding<S, R> {
    #[verifier::external_body]
    pub fn call(&mut self, r: R) -> (x: PipelineCall<S, R>) ensures final(self).log@ == old(self).log@.push(r), x.r@ == Some(r) { unimplemented!() }
}
/// what a call of the application's service ends with
pub uninterp spec fn answer<S, R>(f: PipelineCall<S, R>) -> Result<(), AppErr>;
pub trait AwaitD: Sized { type Out; spec fn gives(&self, r: Self::Out) -> bool; }
impl<S, R> AwaitD for PipelineCall<S, R> { type Out = Result<(), AppErr>; open spec fn gives(&self, r: Result<(), AppErr>) -> bool { r == answer(*self) } }
impl AwaitD for AsyncBlk { type Out = Result<(), AmqpProtocolError>; open spec fn gives(&self, r: Result<(), AmqpProtocolError>) -> bool { true } }
#[verifier::external_body]
pub fn __await<F: AwaitD>(f: F) -> (r: F::Out) ensures f.gives(r) { unimplemented!() }
/// shutdown of a service
pub struct Shut {}
impl AwaitD for Shut { type Out = (); open spec fn gives(&self, r: ()) -> bool { true } }
impl<S, R> PipelineBinding<S, R> { #[verifier::external_body] pub fn shutdown(&self) -> (r: Shut) { unimplemented!() } }
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { RefCell { v } }
    pub fn borrow_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
}
pub struct CellCell<T> { pub t: core::marker::PhantomData<T> }
impl<T> CellCell<T> { #[verifier::external_body] pub fn new(v: T) -> (r: Self) { unimplemented!() } }
pub struct LocalWaker {}
impl LocalWaker { pub fn default() -> (r: Self) { LocalWaker {} } }
pub struct Sleep { pub t: Ghost<u32> }
#[verifier::external_body]
pub fn sleep(t: Millis) -> (r: Sleep) ensures r.t@ == t.0 { unimplemented!() }
#[verifier::external_body]
pub fn spawn(f: AsyncBlk) { unimplemented!() }
pub fn opt_mut_<T>(o: &mut Option<T>) -> (r: &mut T) requires *old(o) is Some ensures *r == old(o)->0, *final(o) == Some(*final(r)) { match o { Some(x) => x, None => __panic() } }
//@item src/types.rs Message
//@item src/error.rs AmqpDispatcherError $io::Error=IoError
pub enum Control { Wb, }
pub enum Reason { Io(Option<IoError>), Encoder(AmqpCodecError), Decoder(AmqpCodecError), KeepAliveTimeout, ReadTimeout }
pub enum DispatchItem { Item(AmqpFrame), Control(Control), Stop(Reason) }
pub struct ServiceCtx {}
//@item src/dispatcher.rs Dispatcher $Sr=AppSvc $Ctl=CtlSvc $Connection=Sink $cell::Cell<Option<AmqpDispatcherError>>=CellCell<Option<AmqpDispatcherError>>
impl<T> Wrapper<T> {
    pub fn new(inner: T) -> (r: Self) ensures r.inner == Some(inner) { Wrapper { inner: Some(inner) } }
    pub fn take(&mut self) -> (r: T) requires old(self).inner is Some ensures r == old(self).inner->0, final(self).inner is None { match self.inner.take() { Some(x) => x, None => __panic() } }
}

impl<T> super::sess::Vec<T> {
    pub fn iter_(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
//@impl src/rcvlink.rs ReceiverLink
//@method session
    ensures *r == self.inner.session
//@end
impl Dispatcher {
    /// nothing but the services' logs, the pending control calls and the results of handle_frame differ
    pub open spec fn same_but_calls(&self, o: Dispatcher) -> bool { self.idle_timeout == o.idle_timeout && self.idle_sleep == o.idle_sleep && self.sink.0.ops == o.sink.0.ops }
}
/// the control service was called once, with (kind, session)
pub open spec fn told(o: Dispatcher, n: Dispatcher, kind: ControlFrameKind, session: Option<SessionInner>) -> bool {
    let f = ControlFrame(FrameInner { kind, session });
    &&& n.ctl_service.log@ == o.ctl_service.log@.push(f)
    &&& n.ctl_fut.v@.len() == o.ctl_fut.v@.len() + 1 && n.ctl_fut.v@.last().0 == f
}
pub open spec fn not_told(o: Dispatcher, n: Dispatcher) -> bool { n.ctl_service.log@ == o.ctl_service.log@ && n.ctl_fut.v@ == o.ctl_fut.v@ }
/// a frame's action is passed on, once, to the right service
pub open spec fn routed(o: Dispatcher, n: Dispatcher, a: Action) -> bool {
    let s0 = o.service.log@; let s1 = n.service.log@;
    match a {
        Action::None => not_told(o, n) && s1 == s0,
        Action::Transfer(l) => not_told(o, n) && s1 == (if n.sink.0.opened@ { s0.push(Message::Transfer(l)) } else { s0 }),
        Action::Flow(l, f) => s1 == s0 && told(o, n, ControlFrameKind::Flow(f, l), Some(l.inner.session.inner)),
        Action::AttachSender(l, f, p) => s1 == s0 && told(o, n, ControlFrameKind::AttachSender(f, Wrapper { inner: Some(p) }, l), Some(l.inner.session.inner)),
        Action::AttachReceiver(l, f, p) => s1 == s0 && told(o, n, ControlFrameKind::AttachReceiver(f, Wrapper { inner: Some(p) }, l), Some(l.inner.session.inner)),
        Action::DetachSender(l, f) => s1 == s0 && told(o, n, ControlFrameKind::RemoteDetachSender(f, l), Some(l.inner.session.inner)),
        Action::DetachReceiver(l, f) => s1 == s0.push(Message::Detached(l)) && told(o, n, ControlFrameKind::RemoteDetachReceiver(f, l), Some(l.inner.session.inner)),
        Action::SessionEnded(ls) => s1.len() == s0.len() + 1 && s1.take(s0.len() as int) =~= s0 && s1.last() is DetachedAll && receivers(ls@) =~= s1.last()->DetachedAll_0@ && told(o, n, ControlFrameKind::RemoteSessionEnded(ls), None),
        Action::RemoteClose(e) => s1 == s0 && told(o, n, ControlFrameKind::ProtocolError(e), None),
    }
}
pub open spec fn receivers(l: Seq<Either<SenderLink, ReceiverLink>>) -> Seq<ReceiverLink> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let r = receivers(l.drop_last()); match l.last() { Either::Right(x) => r.push(x), Either::Left(_) => r } }
}
/// the control service has answered a frame (`err`: with an error): what becomes of it, by kind
pub open spec fn answered(o: Dispatcher, n: Dispatcher, f: FrameInner, g: FrameInner, err: Option<Error>, r: Result<(), AmqpDispatcherError>) -> bool {
    let same = n.service.log@ == o.service.log@ && n.ctl_service == o.ctl_service && n.ctl_fut == o.ctl_fut;
    let quiet = n.sink.0.ops@ == o.sink.0.ops@ && n.sink.0.got == o.sink.0.got;
    &&& match f.kind {
        ControlFrameKind::ProtocolError(e) => same && n.sink.0.ops@ == o.sink.0.ops@.push(Op::SetError(e)) && r is Err && r->Err_0 == AmqpDispatcherError::Protocol(e),
        ControlFrameKind::Closed | ControlFrameKind::Disconnected(_) => same && n.sink.0.ops@ == o.sink.0.ops@.push(Op::SetError(AmqpProtocolError::Disconnected)) && r is Ok,
        ControlFrameKind::AttachReceiver(frm, p, l) => quiet && r is Ok && n.ctl_service == o.ctl_service && n.ctl_fut == o.ctl_fut && g.kind is AttachReceiver
            && (if err is Some { same && rcv_closed(l.inner, g.kind->AttachReceiver_2.inner, err) } else { n.service.log@ == o.service.log@.push(Message::Attached(frm, l)) }),
        ControlFrameKind::AttachSender(frm, p, l) => quiet && r is Ok && same && g.session is Some
            && (if err is Some { snd_refused(f.session->0, g.session->0, frm, l.inner, err) } else { snd_accepted_any(f.session->0, g.session->0, frm, p.inner->0, l.inner) }),
        ControlFrameKind::Flow(frm, l) => quiet && r is Ok && same && g.kind is Flow
            && (if err is Some { snd_closed(l.inner, g.kind->Flow_1.inner, err) } else { g.session is Some && ses_flowed(f.session->0, g.session->0, *frm.0) && flow_applied(l.inner, g.kind->Flow_1.inner, *frm.0) }),
        ControlFrameKind::RemoteDetachSender(frm, l) => quiet && r is Ok && same && (err is Some ==> g.kind is RemoteDetachSender && snd_closed(l.inner, g.kind->RemoteDetachSender_1.inner, err)) && (err is None ==> g == f),
        ControlFrameKind::RemoteDetachReceiver(frm, l) => quiet && r is Ok && same && (err is Some ==> g.kind is RemoteDetachReceiver && rcv_closed(l.inner, g.kind->RemoteDetachReceiver_1.inner, err)) && (err is None ==> g == f),
        _ => quiet && r is Ok && same && g == f,
    }
}
pub open spec fn stopped(r: Reason) -> ControlFrameKind {
    match r {
        Reason::Io(e) => ControlFrameKind::Disconnected(e),
        Reason::Encoder(e) => ControlFrameKind::ProtocolError(AmqpProtocolError::Codec(e)),
        Reason::Decoder(e) => ControlFrameKind::ProtocolError(AmqpProtocolError::Codec(e)),
        Reason::KeepAliveTimeout => ControlFrameKind::ProtocolError(AmqpProtocolError::KeepAliveTimeout),
        Reason::ReadTimeout => ControlFrameKind::ProtocolError(AmqpProtocolError::ReadTimeout),
    }
}
//@impl src/dispatcher.rs "Dispatcher<Sr, Ctl>" header="impl Dispatcher" $Sr=AppSvc $Ctl=CtlSvc
//@method new $Connection=Sink
    ensures r.sink == sink, r.service.log@.len() == 0, r.ctl_service.log@.len() == 0, r.ctl_fut.v@.len() == 0,
        // traffic at least twice as often as the peer asked for
        r.idle_timeout.0 <= idle_timeout.0 / 2, idle_timeout.0 >= 2 ==> r.idle_timeout.0 > 0, r.idle_sleep.t@ == r.idle_timeout.0,
//@start
    proof { let t = idle_timeout.0; assert(t >> 1 == t / 2) by (bit_vector); }
//@method handle_control_frame cellmut mutmatch splitor cellfield=session_cell:0.session $&ControlFrame="&mut ControlFrame"
    requires
        old(frame).0.kind is AttachSender ==> (old(frame).0.kind->AttachSender_1).inner is Some, old(frame).0.kind is AttachReceiver ==> (old(frame).0.kind->AttachReceiver_1).inner is Some,
        old(frame).0.kind is AttachSender || old(frame).0.kind is Flow ==> old(frame).0.session is Some,
    ensures answered(*old(self), *final(self), old(frame).0, final(frame).0, err, r)
//@method handle_control_frame asyncbody=0 sig="fn attach_receiver_fut_(fut: PipelineCall<AppSvc, Message>, mut link: ReceiverLink, response: Attach, done: &mut ReceiverLink)"
    ensures match answer(fut) {
            Err(_) => exists|e: Error| #[trigger] rcv_closed(link.inner, final(done).inner, Some(e)),
            Ok(_) => exists|m: ReceiverLink| #[trigger] rcv_confirmed(link, m, response) && credit_set(m.inner, final(done).inner, 50),
        }
//@finish
    *done = link;
//@method call_control_service cellmut
    ensures told(*old(self), *final(self), frame.0.kind, frame.0.session), final(self).service == old(self).service, final(self).sink == old(self).sink, final(self).same_but_calls(*old(self))
//@end
//@impl src/dispatcher.rs "Service<DispatchItem<AmqpCodec<AmqpFrame>>> for Dispatcher<Sr, Ctl>" inherent only header="impl Dispatcher" $Sr=AppSvc $Ctl=CtlSvc
//@method shutdown cellmut
    ensures final(self).sink.0.ops@ == old(self).sink.0.ops@.push(Op::SetError(AmqpProtocolError::Disconnected)), final(self).sink.0.got == old(self).sink.0.got, final(self).service == old(self).service,
        final(self).ctl_service.log@ == old(self).ctl_service.log@.push(ControlFrame(FrameInner { kind: ControlFrameKind::Closed, session: None }))
//@method call cellmut mutbind=lnk $ServiceCtx<'_,Self>=ServiceCtx $Result<Self::Response,Self::Error>=Result<Option<AmqpFrame>,AmqpDispatcherError> $DispatchItem<AmqpCodec<AmqpFrame>>=DispatchItem
    ensures final(self).same_but_calls(*old(self)),
        match request {
            DispatchItem::Item(f) => {
                let x = final(self).sink.0.got@.last();
                &&& final(self).sink.0.got@ == old(self).sink.0.got@.push(x)
                &&& x is Err ==> r == Err::<Option<AmqpFrame>, AmqpDispatcherError>(AmqpDispatcherError::Protocol(x->Err_0)) && not_told(*old(self), *final(self)) && final(self).service == old(self).service
                &&& x is Ok ==> r == Ok::<Option<AmqpFrame>, AmqpDispatcherError>(None) && routed(*old(self), *final(self), x->Ok_0)
            },
            DispatchItem::Stop(e) => r == Ok::<Option<AmqpFrame>, AmqpDispatcherError>(None) && final(self).sink == old(self).sink && final(self).service == old(self).service && told(*old(self), *final(self), stopped(e), None),
            DispatchItem::Control(_) => r == Ok::<Option<AmqpFrame>, AmqpDispatcherError>(None) && *final(self) == *old(self),
        }
//@loop 0
    invariant __it0 == links, __k0 <= links@.len(), __v@ == receivers(links@.take(__k0 as int)),
    decreases links@.len() - __k0,
//@loopend 0
    proof { let t = links@.take(__k0 as int); assert(t.drop_last() =~= links@.take(__k0 - 1)); assert(t.last() == links@[__k0 - 1]); }
//@postloop 0
    proof { assert(links@.take(links@.len() as int) =~= links@); }
//@end
} // verus!
}
