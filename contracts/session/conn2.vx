// ===================================================================================
// Connection: channels, sessions, frame dispatch
// ===================================================================================
pub open spec fn begin_of(f: AmqpFrame) -> BeginInner { *f.1->Begin_0.0 }
/// the peer opens a session on its channel `ch`
pub open spec fn con_registered(a: ConnectionInner, b: ConnectionInner, ch: u16, begin: Begin, cell: ConnectionInner) -> bool {
    let t = a.sessions.next();
    let f = b.io.out@.last();
    &&& !a.sessions@.contains_key(t)
    &&& b.sessions@ == a.sessions@.insert(t, b.sessions@[t]) && b.sessions@[t] is Established && ses_new(b.sessions@[t]->Established_0, t, false, ConnectionRef(cell), ch, begin)
    &&& b.sessions_map@ == a.sessions_map@.insert(ch, t)
    &&& b == (ConnectionInner { sessions: b.sessions, sessions_map: b.sessions_map, io: b.io, ..a })
    &&& b.io.out@ == a.io.out@.push(f) && b.io.closed == a.io.closed && f.0 == t as u16 && f.1 is Begin
    &&& begin_of(f).remote_channel == Some(ch) && begin_of(f).next_outgoing_id == 1 && begin_of(f).outgoing_window == begin.0.incoming_window
}
/// the peer answers a begin of this endpoint
pub open spec fn con_completed(a: ConnectionInner, b: ConnectionInner, lc: u16, rc: u16, begin: Begin) -> bool {
    let t = lc as usize;
    if a.sessions@.contains_key(t) && a.sessions@[t] is Opening {
        let s = b.sessions@[t]->Established_0;
        &&& b.sessions@ == a.sessions@.insert(t, b.sessions@[t]) && b.sessions@[t] is Established && ses_new(s, t, true, ConnectionRef(a.sessions@[t]->Opening_1), rc, begin)
        &&& b.sessions_map@ == a.sessions_map@.insert(rc, t)
        &&& b == (ConnectionInner { sessions: b.sessions, sessions_map: b.sessions_map, ..a })
        &&& a.sessions@[t]->Opening_0 is Some ==> exists|x: Session| a.sessions@[t]->Opening_0->0.resolved() == Some(x) && #[trigger] x.inner == s
    } else {
        b.sessions@ =~= a.sessions@ && b == (ConnectionInner { sessions: b.sessions, ..a })
    }
}
/// a frame for the session bound to the peer's channel `ch`
pub open spec fn con_dispatched(a: ConnectionInner, b: ConnectionInner, ch: u16, frame: Frame, r: Result<Action, AmqpProtocolError>) -> bool {
    if !a.sessions_map@.contains_key(ch) || !a.sessions@.contains_key(a.sessions_map@[ch]) {
        r == Err::<Action, AmqpProtocolError>(AmqpProtocolError::UnknownSession(frame)) && b.sessions@ =~= a.sessions@ && b == (ConnectionInner { sessions: b.sessions, ..a })
    } else {
        let t = a.sessions_map@[ch];
        match a.sessions@[t] {
            SessionState::Opening(_, _) => r == Err::<Action, AmqpProtocolError>(AmqpProtocolError::UnexpectedOpeningState(frame)) && b.sessions@ =~= a.sessions@ && b == (ConnectionInner { sessions: b.sessions, ..a }),
            SessionState::Established(s) => match frame {
                Frame::End(e) => {
                    &&& (b.sessions@ =~= a.sessions@.remove(t) && b.sessions_map@ =~= a.sessions_map@.remove(ch) && b.error is None) || con_failed(b)
                    &&& ses_failed(s, AmqpProtocolError::SessionEnded(e.error)) && r is Ok && r->Ok_0 is SessionEnded
                    &&& b.io.out@ == a.io.out@.push(AmqpFrame(s.id as u16, Frame::End(End { error: None }))) && conn_kept(a, b)
                },
                _ => {
                    &&& b.sessions@ == a.sessions@.insert(t, b.sessions@[t]) && b.sessions@[t] is Established && b == (ConnectionInner { sessions: b.sessions, ..a })
                    &&& match frame {
                        Frame::Attach(f) => exists|m: SessionInner, handled: bool| #[trigger] ses_attach(s, m, *f.0, s, handled) && att_action(m, b.sessions@[t]->Established_0, f, handled, r),
                        _ => ses_framed(s, b.sessions@[t]->Established_0, frame, r),
                    }
                },
            },
            SessionState::Closing(s) => match frame {
                Frame::End(e) => {
                    &&& b.sessions@ =~= a.sessions@.remove(t) && b.sessions_map@ =~= a.sessions_map@.remove(ch)
                    &&& b == (ConnectionInner { sessions: b.sessions, sessions_map: b.sessions_map, ..a })
                    &&& ses_failed(s, AmqpProtocolError::SessionEnded(e.error)) && r is Ok && r->Ok_0 is None
                },
                _ => r is Ok && r->Ok_0 is None && b.sessions@ =~= a.sessions@ && b == (ConnectionInner { sessions: b.sessions, ..a }),
            },
        }
    }
}
/// an attach that is not the answer to a local attach opens a new link in the complementary role
pub open spec fn att_action(m: SessionInner, b: SessionInner, f: Attach, handled: bool, r: Result<Action, AmqpProtocolError>) -> bool {
    if handled { r is Ok && r->Ok_0 is None && b == m }
    else if f.0.role == Role::Receiver {
        &&& r is Ok && r->Ok_0 is AttachSender && r->Ok_0->AttachSender_1 == f
        &&& new_snd(m, b, *f.0, r->Ok_0->AttachSender_0.inner.id, *r->Ok_0->AttachSender_2.0)
    } else {
        &&& r is Ok && r->Ok_0 is AttachReceiver && r->Ok_0->AttachReceiver_1 == f
        &&& new_rcv(m, b, *f.0, *r->Ok_0->AttachReceiver_2.0, r->Ok_0->AttachReceiver_0.inner)
    }
}
//@impl src/connection.rs ConnectionInner
//@method register_remote_session
    ensures con_registered(*old(self), *final(self), remote_channel_id, begin, *cell)
//@method complete_session_creation
    ensures con_completed(*old(self), *final(self), local_channel_id, remote_channel_id, begin)
//@method handle_frame
    ensures match frame.1 {
            Frame::Empty => r is Ok && r->Ok_0 is None && *final(self) == *old(self),
            Frame::Close(c) => {
                &&& r is Ok && old(self).state == ConnectionState::Closing ==> r->Ok_0 is None
                &&& old(self).state != ConnectionState::Closing ==> {
                    &&& r == Ok::<Action, AmqpProtocolError>(Action::RemoteClose(AmqpProtocolError::Closed(c.error)))
                    &&& final(self).io.out@ == old(self).io.out@.push(AmqpFrame(0, Frame::Close(Close { error: None }))) && final(self).state == ConnectionState::RemoteClose
                    &&& forall|k: usize| #[trigger] old(self).sessions@.contains_key(k) && ses_of(old(self).sessions@[k]) is Some ==> ses_failed(ses_of(old(self).sessions@[k])->0, AmqpProtocolError::Closed(c.error))
                }
                &&& final(self).sessions@ == Map::<usize, SessionState>::empty() && final(self).sessions_map@ == Map::<u16, usize>::empty() && final(self).error is Some && final(self).on_close.released()
            },
            Frame::Begin(g) => if g.0.remote_channel is Some { r is Ok && r->Ok_0 is None && con_completed(*old(self), *final(self), g.0.remote_channel->0, frame.0, g) }
                else { (r is Ok ==> r->Ok_0 is None) && con_registered(*old(self), *final(self), frame.0, g, *inner) },
            _ => if old(self).error is Some { r is Ok && r->Ok_0 is None && *final(self) == *old(self) } else { con_dispatched(*old(self), *final(self), frame.0, frame.1, r) },
        },
//@end
impl vstd::std_specs::ops::BitOrSpecImpl<DFlags> for DFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: DFlags) -> bool { true }
    open spec fn bitor_spec(self, o: DFlags) -> DFlags { DFlags { sender: self.sender || o.sender, ls: self.ls || o.ls, rs: self.rs || o.rs } }
}
impl core::ops::BitOr for DFlags { type Output = DFlags; fn bitor(self, o: DFlags) -> (r: DFlags) { DFlags { sender: self.sender || o.sender, ls: self.ls || o.ls, rs: self.rs || o.rs } } }
impl SenderLinkInner {
    /// `send` at the type TransferBuilder uses it with (the conversion is the identity)
    pub fn send_body_(&mut self, body: TransferBody, tag: Option<Bytes>, settled: bool, format: Option<MessageFormat>) -> (r: Result<(DeliveryNumber, Bytes), AmqpProtocolError>)
        ensures
            old(self).error is Some ==> r == Err::<(DeliveryNumber, Bytes), AmqpProtocolError>(old(self).error->0),
            r is Ok && tag is Some ==> r->Ok_0.1 == tag->0,
            r is Ok ==> exists|l: SenderLinkInner, m: SenderLinkInner| #![trigger lawaited(*old(self), l), lawaited(m, *final(self))] lawaited(*old(self), l) && link_send(l, m, r->Ok_0.1@, body, settled, format, r->Ok_0.0) && lawaited(m, *final(self)),
    { self.send(BodySrc(body), tag, settled, format) }
}
//@item src/delivery.rs TransferBuilder
/// the builder's message went out over its link as one delivery
pub open spec fn tb_sent(b: TransferBuilder, tag: Seq<u8>, id: DeliveryNumber) -> bool {
    exists|l: SenderLinkInner, m: SenderLinkInner| #[trigger] lawaited(b.sender, l) && #[trigger] link_send(l, m, tag, b.data, b.settled, b.format, id)
}
//@impl src/delivery.rs TransferBuilder $Flags=DFlags
//@method new
    ensures r.tag is None, !r.settled, r.format is None, r.data == data, r.sender == sender
//@method tag mutself
    ensures r == (TransferBuilder { tag: Some(tag), ..self })
//@method settled mutself
    ensures r == (TransferBuilder { settled: true, ..self })
//@method format mutself
    ensures r == (TransferBuilder { format: Some(fmt), ..self })
//@method send mutself awaitself=self.sender callas=send:send_body_
    ensures
        self.sender.error is Some ==> r == Err::<Delivery, AmqpProtocolError>(self.sender.error->0),
        self.sender.error is None && self.sender.closed ==> r == Err::<Delivery, AmqpProtocolError>(AmqpProtocolError::Disconnected),
        self.sender.error is None && !self.sender.closed && self.sender.max_message_size is Some && self.sender.max_message_size->0 != 0 && self.data.bytes().len() > self.sender.max_message_size->0 ==> r == Err::<Delivery, AmqpProtocolError>(AmqpProtocolError::BodyTooLarge),
        r is Ok ==> r->Ok_0.flags.v == (DFlags { sender: true, ls: self.settled, rs: false }),
        r is Ok ==> tb_sent(self, r->Ok_0.tag@, r->Ok_0.id),
        r is Ok && self.tag is Some ==> r->Ok_0.tag == self.tag->0,
//@start
    let ghost __s0 = self;
//@before Ok(Delivery
    proof { let _m = tb_sent(__s0, tag@, id); }
//@end
//@impl src/connection.rs ConnectionRef
//@method force_close cellmut
    ensures final(self).0.state == ConnectionState::Drop, final(self).0.io.closed@, final(self).0.error is Some, final(self).0.on_close.released(),
        final(self).0.sessions@ == Map::<usize, SessionState>::empty(), final(self).0.sessions_map@ == Map::<u16, usize>::empty(),
        forall|k: usize| #[trigger] old(self).0.sessions@.contains_key(k) && ses_of(old(self).0.sessions@[k]) is Some ==> ses_failed(ses_of(old(self).0.sessions@[k])->0, AmqpProtocolError::ConnectionDropped),
//@method get_session_by_local_id
    ensures match r { Some(s) => self.0.sessions@.contains_key(channel as usize) && self.0.sessions@[channel as usize] is Established && s.inner == self.0.sessions@[channel as usize]->Established_0,
            None => !(self.0.sessions@.contains_key(channel as usize) && self.0.sessions@[channel as usize] is Established) }
//@method close cellmut rettype="Ready<AmqpProtocolError>"
    ensures final(self).0.io.out@ == old(self).0.io.out@.push(AmqpFrame(0, Frame::Close(Close { error: None }))), final(self).0.io.closed@
//@method handle_frame cellmut
//@end
/// what happens on the connection while a task waits
pub open spec fn cawaited(a: ConnectionInner, b: ConnectionInner) -> bool { conn_kept(a, b) }
pub trait AwaitC: Sized { type Out; spec fn gives_c(&self, r: Self::Out) -> bool; spec fn in_conn(&self, c: ConnectionInner) -> bool; }
/// the waiting side of a session that is being opened: the other side is in the session table (or the connection has failed and it is dropped)
impl AwaitC for Receiver<Session> {
    type Out = Result<Session, Canceled>;
    open spec fn gives_c(&self, r: Self::Out) -> bool { r == (match self.of().resolved() { Some(v) => Ok::<Session, Canceled>(v), None => Err(Canceled {}) }) }
    open spec fn in_conn(&self, c: ConnectionInner) -> bool { con_failed(c) || exists|k: usize| #[trigger] c.sessions@.contains_key(k) && c.sessions@[k] is Opening && c.sessions@[k]->Opening_0 == Some(self.of()) }
}
impl ConnectionInner {
    #[verifier::external_body]
    pub fn await_<F: AwaitC>(&mut self, f: F) -> (r: F::Out) requires f.in_conn(*old(self)) ensures f.gives_c(r), cawaited(*old(self), *final(self)) { unimplemented!() }
}
/// begin is sent on a fresh channel within the negotiated channel-max and the caller waits for the answer on that channel
pub open spec fn con_opening(a: ConnectionInner, b: ConnectionInner, tx: Sender<Session>) -> bool {
    let t = a.sessions.next();
    let f = b.io.out@.last();
    &&& a.error is None && t <= a.channel_max && !a.sessions@.contains_key(t)
    &&& b.io.out@ == a.io.out@.push(f) && f.0 == t as u16 && f.1 is Begin && begin_of(f).remote_channel is None && begin_of(f).next_outgoing_id == 1
    &&& con_failed(b) || b.sessions@ == a.sessions@.insert(t, b.sessions@[t]) && b.sessions@[t] is Opening && b.sessions@[t]->Opening_0 == Some(tx)
}
//@fn src/connection.rs open_session mutparam=con awaitself=con $HashMap<types::Symbol,types::Variant>=Fields
    ensures
        old(con).error is Some ==> r == Err::<Session, AmqpProtocolError>(old(con).error->0) && *final(con) == *old(con),
        old(con).error is None && old(con).sessions.next() > old(con).channel_max ==> r == Err::<Session, AmqpProtocolError>(AmqpProtocolError::TooManyChannels) && *final(con) == *old(con),
        old(con).error is None && old(con).sessions.next() <= old(con).channel_max ==> exists|m: ConnectionInner, tx: Sender<Session>| #![trigger con_opening(*old(con), m, tx)] con_opening(*old(con), m, tx) && cawaited(m, *final(con))
            && r == (match tx.resolved() { Some(s) => Ok::<Session, AmqpProtocolError>(s), None => Err(AmqpProtocolError::Disconnected) }),
//@after let (tx, rx) = channel()
    let ghost __tx = tx;
//@after inner.post_frame
    proof {
        let _m = inner.sessions@.contains_key(token);
        let _m = con_opening(*old(con), *inner, __tx);
    }
//@end

//@impl src/session.rs Session
//@method detach_receiver_link cellmut rettype=AsyncBlk
    ensures exists|tx: DetachTx| #[trigger] rcv_detach(old(self).inner, final(self).inner, handle, false, error, tx)
//@method detach_receiver_link asyncbody=0 sig="fn detach_receiver_fut_(rx: Receiver<Result<(), AmqpProtocolError>>) -> Result<(), AmqpProtocolError>"
    ensures promised(rx, r)
//@method detach_sender_link cellmut rettype=AsyncBlk
    ensures exists|tx: DetachTx| #[trigger] snd_detach(old(self).inner, final(self).inner, handle, false, error, tx)
//@method detach_sender_link asyncbody=0 sig="fn detach_sender_fut_(rx: Receiver<Result<(), AmqpProtocolError>>) -> Result<(), AmqpProtocolError>"
    ensures promised(rx, r)
//@method end asyncbody=0 awaitself=inner sig="fn end_fut_(inner: &mut SessionInner) -> Result<(), AmqpProtocolError>"
    ensures awaited(*old(inner), *final(inner)),
        // the peer's error, if it ended the session with one
        match final(inner).error { Some(AmqpProtocolError::SessionEnded(Some(e))) => r == Err::<(), AmqpProtocolError>(AmqpProtocolError::SessionEnded(Some(e))), _ => r is Ok },
//@method end cellmut rettype="Either<Ready<AmqpProtocolError>,AsyncBlk>"
    ensures
        old(self).inner.flags.ended ==> *final(self) == *old(self) && r is Left && r->Left_0 is Ok,
        !old(self).inner.flags.ended ==> r is Right,
        !old(self).inner.flags.ended && old(self).inner.flags.ending ==> *final(self) == *old(self),
        !old(self).inner.flags.ended && !old(self).inner.flags.ending ==> {
            let a = old(self).inner; let b = final(self).inner;
            &&& b == (SessionInner { flags: Flags { ending: true, ..a.flags }, sink: b.sink, ..a })
            &&& b.sink.out() == a.sink.out().push(AmqpFrame(a.id as u16, Frame::End(End { error: None })))
            &&& b.sink.0.control_queue.log@.len() == a.sink.0.control_queue.log@.len() + 1 && b.sink.0.control_queue.log@.last().0.kind is LocalSessionEnded
        },
//@end
//@impl src/delivery.rs "Drop for DeliveryInner" inherent
//@method drop
    ensures old(self).tx is Some ==> old(self).tx->0.resolved() == Some(()), *final(self) == (DeliveryInner { tx: None, ..*old(self) })
//@end
// ------------------------------------------------------------------ what is negotiated with open
pub struct CfgContext {}
impl CloneX for Symbols { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
//@renamepath Rc::default control_queue_
#[verifier::external_body]
pub fn control_queue_() -> (r: ControlQueue) ensures r.log@.len() == 0 { unimplemented!() }
impl<T> AmqpCodec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.max@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn max_size(self, n: usize) -> (r: Self) ensures r.max@ == n { unimplemented!() }
}
pub type Seconds2 = u32;
#[derive(Clone, Copy)]
pub struct Millis(pub u32);
pub struct Cfg<T> { pub v: T }
//@item src/lib.rs AmqpServiceConfig dropfields=config
//@item src/lib.rs RemoteServiceConfig
pub struct Uuid {}
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> (r: Uuid) { unimplemented!() }
    #[verifier::external_body]
    pub fn simple(self) -> (r: Uuid) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: ByteString) { unimplemented!() }
}
//@impl src/lib.rs AmqpServiceConfig
//@method to_open
    ensures r.0.max_frame_size == self.max_frame_size, r.0.channel_max == self.channel_max, r.0.hostname == self.hostname,
        r.0.idle_time_out == (if self.idle_time_out > 0 { Some(self.idle_time_out) } else { None }),
        r.0.offered_capabilities == self.offered_capabilities, r.0.desired_capabilities == self.desired_capabilities,
//@method set_channel_max mutself
    ensures r == (AmqpServiceConfig { channel_max: num, ..self })
//@method set_max_frame_size mutself
    ensures r == (AmqpServiceConfig { max_frame_size: size, ..self })
//@method set_idle_timeout mutself
    ensures r == (AmqpServiceConfig { idle_time_out: (timeout * 1000) as u32, ..self })
//@method set_max_size mutself
    ensures r == (AmqpServiceConfig { max_size: size, ..self })
//@end
//@impl src/lib.rs RemoteServiceConfig
//@method new
    ensures r.max_frame_size == open.0.max_frame_size, r.channel_max == open.0.channel_max, r.hostname == open.0.hostname,
        r.idle_time_out == (match open.0.idle_time_out { Some(x) => x, None => 0 }),
        r.offered_capabilities == open.0.offered_capabilities, r.desired_capabilities == open.0.desired_capabilities,
//@method timeout_remote
    ensures r.0 <= self.idle_time_out, self.idle_time_out >= 4 ==> r.0 < self.idle_time_out, self.idle_time_out > 0 ==> r.0 > 0
//@end
pub struct Connection(pub ConnectionRef);
//@impl src/connection.rs Connection
//@method new $&Cfg<AmqpServiceConfig>=&AmqpServiceConfig
    ensures r.0.0.io == io, r.0.0.error is None, r.0.0.state == ConnectionState::Normal, r.0.0.sessions@ == Map::<usize, SessionState>::empty(), r.0.0.sessions_map@ == Map::<u16, usize>::empty(),
        r.0.0.max_frame_size == remote_config.max_frame_size, r.0.0.channel_max <= local_config.channel_max, r.0.0.channel_max <= remote_config.channel_max,
        r.0.0.channel_max == local_config.channel_max || r.0.0.channel_max == remote_config.channel_max,
//@method get_ref
    ensures r == self.0
//@end
