//@item src/session.rs Session
//@item src/session.rs SessionInner
//@item src/session.rs SenderLinkState
//@item src/session.rs ReceiverLinkState
//@item src/session.rs PendingTransfer
//@item src/sndlink.rs SenderLink
//@item src/sndlink.rs SenderLinkInner
//@item src/rcvlink.rs ReceiverLink
//@item src/rcvlink.rs ReceiverLinkInner
//@item src/delivery.rs Delivery $Flags=DFlags
//@item src/delivery.rs DeliveryInner
pub type EstablishedSenderLink = SenderLink;
pub type EstablishedReceiverLink = ReceiverLink;
pub struct Flags { pub local: bool, pub ended: bool, pub ending: bool }
/// LocalWaker: n: how often the reader task has been woken
pub struct LocalWaker { pub id: Ghost<int>, pub n: Ghost<nat>, pub reg: Ghost<bool> }
pub struct Waker {}
pub struct Context { pub w: Waker }
impl Context { pub fn waker(&self) -> (r: &Waker) { &self.w } }
pub enum Poll<T> { Ready(T), Pending }
/// the task registered at the time was woken
pub uninterp spec fn task_woken(id: int, n: nat) -> bool;
impl LocalWaker {
    pub open spec fn woken(&self) -> bool { task_woken(self.id@, self.n@) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn register(&mut self, w: &Waker) ensures final(self).reg@, final(self).id == old(self).id, final(self).n == old(self).n { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&mut self) ensures final(self).n@ == old(self).n@ + 1, final(self).id == old(self).id, old(self).woken() { unimplemented!() }
}
/// std Cell; `&self` methods that write it take `&mut self` here
pub struct StdCell<T> { pub v: T }
impl<T: Copy> StdCell<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: StdCell<T>) ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: T) ensures r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, v: T) ensures final(self).v == v { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct DFlags { pub sender: bool, pub ls: bool, pub rs: bool }
/// derived `Default`
pub trait DefaultX: Sized { spec fn dflt() -> Self; }
#[verifier::external_body]
pub fn box_default_<T: DefaultX>() -> (r: Box<T>) ensures *r == T::dflt() { unimplemented!() }
impl DefaultX for TransferInner {
    open spec fn dflt() -> Self { TransferInner { handle: 0, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false, body: None } }
}

/// what an `.await` on a value of this type gives
pub trait AwaitX: Sized { type Out; spec fn gives(&self, r: Self::Out) -> bool; spec fn in_session(&self, s: SessionInner) -> bool; spec fn in_link(&self, l: SenderLinkInner) -> bool; spec fn in_delivery(&self, d: Delivery) -> bool; }
/// a task waits for a notification only after it has registered for it
impl AwaitX for Receiver<Result<(), AmqpProtocolError>> {
    type Out = Result<Result<(), AmqpProtocolError>, Canceled>;
    open spec fn gives(&self, r: Self::Out) -> bool { r == (match self.of().resolved() { Some(v) => Ok::<Result<(), AmqpProtocolError>, Canceled>(v), None => Err(Canceled {}) }) }
    open spec fn in_session(&self, s: SessionInner) -> bool { exists|i: int| 0 <= i < s.pending_transfers@.len() && (#[trigger] s.pending_transfers@[i]).tx == self.of() }
    open spec fn in_link(&self, l: SenderLinkInner) -> bool { self.in_session(l.session.inner) || exists|i: int| 0 <= i < l.pending_transfers@.len() && #[trigger] l.pending_transfers@[i] == self.of() }
    open spec fn in_delivery(&self, d: Delivery) -> bool { false }
}
impl AwaitX for Receiver<()> {
    type Out = Result<(), Canceled>;
    open spec fn gives(&self, r: Self::Out) -> bool { r is Ok <==> self.of().resolved() is Some }
    open spec fn in_session(&self, s: SessionInner) -> bool { false }
    open spec fn in_link(&self, l: SenderLinkInner) -> bool { false }
    open spec fn in_delivery(&self, d: Delivery) -> bool { dlv_entry(d) is Some && dlv_entry(d)->0.tx == Some(self.of()) }
}
impl AwaitX for Waiter {
    type Out = ();
    open spec fn gives(&self, r: ()) -> bool { true }
    open spec fn in_session(&self, s: SessionInner) -> bool { self.id == s.closed.id }
    open spec fn in_link(&self, l: SenderLinkInner) -> bool { false }
    open spec fn in_delivery(&self, d: Delivery) -> bool { false }
}
/// an async fn of this crate: called and awaited in one step, so its result is the value
impl<T, E> AwaitX for Result<T, E> { type Out = Self;
    open spec fn gives(&self, r: Self) -> bool { r == *self }
    open spec fn in_session(&self, s: SessionInner) -> bool { true }
    open spec fn in_link(&self, l: SenderLinkInner) -> bool { true }
    open spec fn in_delivery(&self, d: Delivery) -> bool { true }
}
impl SessionInner {
    /// what any other activity on the session can do while this task waits
    #[verifier::external_body]
    pub fn await_<F: AwaitX>(&mut self, f: F) -> (r: F::Out) requires f.in_session(*old(self)) ensures f.gives(r), awaited(*old(self), *final(self)) { unimplemented!() }
}
impl SenderLinkInner {
    #[verifier::external_body]
    pub fn await_<F: AwaitX>(&mut self, f: F) -> (r: F::Out) requires f.in_link(*old(self)) ensures f.gives(r), lawaited(*old(self), *final(self)) { unimplemented!() }
}
impl Delivery {
    #[verifier::external_body]
    pub fn await_<F: AwaitX>(&mut self, f: F) -> (r: F::Out) requires f.in_delivery(*old(self)) ensures f.gives(r), dawaited(*old(self), *final(self)) { unimplemented!() }
}
/// `Error::from(e)` for an `Error`
pub trait SameX: Sized { fn same_(self) -> (r: Self) ensures r == self { self } }
impl SameX for Error {}
/// what the future of a close / detach yields: exactly what the session resolves the promise with
pub open spec fn promised(rx: Receiver<Result<(), AmqpProtocolError>>, r: Result<(), AmqpProtocolError>) -> bool {
    match rx.of().resolved() { Some(Ok(_)) => r is Ok, Some(Err(e)) => r == Err::<(), AmqpProtocolError>(e), None => r == Err::<(), AmqpProtocolError>(AmqpProtocolError::Disconnected) }
}
#[verifier::external_body]
pub fn __await<F: AwaitX>(f: F) -> (r: F::Out) ensures f.gives(r) { unimplemented!() }
/// entry of a delivery in the unsettled map of its session
pub open spec fn dlv_map(d: Delivery) -> Map<DeliveryNumber, DeliveryInner> { if d.flags.v.sender { d.session.inner.unsettled_snd_deliveries@ } else { d.session.inner.unsettled_rcv_deliveries@ } }
pub open spec fn dlv_entry(d: Delivery) -> Option<DeliveryInner> { if dlv_map(d).contains_key(d.id) { Some(dlv_map(d)[d.id]) } else { None } }
pub open spec fn dawaited(a: Delivery, b: Delivery) -> bool { a.id == b.id && a.tag == b.tag && a.flags.v.sender == b.flags.v.sender && awaited(a.session.inner, b.session.inner) }
pub open spec fn awaited(a: SessionInner, b: SessionInner) -> bool {
    &&& a.id == b.id && a.remote_channel_id == b.remote_channel_id
    &&& conn_kept(a.sink.0, b.sink.0)
    &&& a.sink.out().is_prefix_of(b.sink.out())
}
pub open spec fn lawaited(a: SenderLinkInner, b: SenderLinkInner) -> bool {
    &&& a.id == b.id && a.remote_handle == b.remote_handle && a.name == b.name
    &&& awaited(a.session.inner, b.session.inner)
}
impl Default for ByteString { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() } }

// ------------------------------------------------------------------ notions used by the contracts
/// the session is being ended or is ended: its channel is closed in this direction (2.5.5)
pub open spec fn quiet(s: SessionInner) -> bool { s.flags.ended || s.flags.ending }
/// one frame is handed to the connection on the session's channel (none after the session's end frame), nothing else of the session changes
pub open spec fn posted(a: SessionInner, b: SessionInner, f: Frame) -> bool {
    &&& b == (SessionInner { sink: b.sink, ..a })
    &&& conn_kept(a.sink.0, b.sink.0)
    &&& b.sink.out() == (if quiet(a) { a.sink.out() } else { a.sink.out().push(AmqpFrame(a.id as u16, f)) })
}
pub open spec fn est_snd(s: SessionInner, h: usize) -> bool { s.links@.contains_key(h) && s.links@[h] is Left && s.links@[h]->Left_0 is Established }
pub open spec fn est_rcv(s: SessionInner, h: usize) -> bool { s.links@.contains_key(h) && s.links@[h] is Right && s.links@[h]->Right_0 is Established }
pub type Done = Option<Result<(), AmqpProtocolError>>;
pub open spec fn failed(e: AmqpProtocolError) -> Done { Some(Err(e)) }
/// transfers that wait for the window of the session
pub open spec fn all_pending(p: Seq<PendingTransfer>, d: Done) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).tx.resolved() == d }
/// transfers that wait for the credit of a link
pub open spec fn all_credit(p: Seq<Sender<Result<(), AmqpProtocolError>>>, d: Done) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).resolved() == d }
/// tasks that wait for the outcome of a delivery are notified
pub open spec fn dlv_notified(d: DeliveryInner) -> bool { d.tx is Some ==> d.tx->0.resolved() == Some(()) }
pub open spec fn all_notified(m: Map<DeliveryNumber, DeliveryInner>) -> bool { forall|k: DeliveryNumber| #[trigger] m.contains_key(k) ==> dlv_notified(m[k]) }
/// a link (state) is told that the session failed
pub open spec fn snd_failed(l: SenderLinkInner, e: AmqpProtocolError) -> bool { all_credit(l.pending_transfers@, failed(e)) && l.on_close.released() && l.on_credit.released() }
pub open spec fn link_failed(st: Either<SenderLinkState, ReceiverLinkState>, e: AmqpProtocolError) -> bool {
    match st {
        Either::Left(SenderLinkState::Established(l)) => snd_failed(l.inner, e),
        Either::Left(SenderLinkState::Closing(t)) => t is Some ==> t->0.resolved() == failed(e),
        Either::Right(ReceiverLinkState::Established(l)) => l.inner.reader_task.woken(),
        _ => true,
    }
}
/// deliveries of one link get an error, the others are untouched
pub open spec fn dlv_failed(a: Map<DeliveryNumber, DeliveryInner>, b: Map<DeliveryNumber, DeliveryInner>, h: Handle, e: AmqpProtocolError) -> bool {
    &&& forall|k: DeliveryNumber| #[trigger] a.contains_key(k) <==> b.contains_key(k)
    &&& forall|k: DeliveryNumber| #[trigger] a.contains_key(k) ==> if a[k].handle == h { dlv_err(a[k], b[k], e) } else { b[k] == a[k] }
}
pub open spec fn dlv_err(a: DeliveryInner, b: DeliveryInner, e: AmqpProtocolError) -> bool { dlv_notified(a) && b == (DeliveryInner { error: Some(e), tx: None, ..a }) }
/// effect of a disposition on one delivery
pub open spec fn dlv_disp(a: DeliveryInner, b: DeliveryInner, d: DispositionInner) -> bool {
    &&& dlv_notified(a)
    &&& b == (DeliveryInner { settled: a.settled || d.settled, state: if d.state is Some { d.state } else { a.state }, tx: None, ..a })
}
/// RFC 1982 style distance
pub open spec fn dist(a: u32, b: u32) -> int { if b >= a { b - a } else { b - a + 0x1_0000_0000 } }
/// ids addressed by a disposition (2.7.6: `last` missing: just `first`; a range that goes backwards is empty)
pub open spec fn disp_hits(d: DispositionInner, no: u32) -> bool {
    match d.last { None => no == d.first, Some(l) => dist(d.first, l) <= i32::MAX && dist(d.first, no) <= dist(d.first, l) }
}
/// what is left of a limit granted by the peer when `sent - seen` more have been sent than the peer has accounted for (2.5.6, 2.6.7: serial arithmetic)
pub open spec fn left_of(limit: u32, sent: u32, seen: u32) -> u32 {
    let n = dist(seen, sent);
    if n > limit && n <= i32::MAX { 0 } else { (if limit >= n { limit - n } else { limit - n + 0x1_0000_0000 }) as u32 }
}
pub open spec fn other_link(h: Handle) -> spec_fn(PendingTransfer) -> bool { |t: PendingTransfer| t.link_handle != h }
pub open spec fn others(p: Seq<PendingTransfer>, h: Handle) -> Seq<PendingTransfer> { p.filter(other_link(h)) }
/// transfers of link `h` fail, the transfers of other links keep waiting
pub open spec fn pend_failed(a: Seq<PendingTransfer>, b: Seq<PendingTransfer>, h: Handle, e: AmqpProtocolError) -> bool {
    &&& b == others(a, h)
    &&& forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).link_handle == h ==> a[i].tx.resolved() == failed(e)
}
pub proof fn lemma_filter_remove<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool)
    requires 0 <= i < s.len(), !p(s[i])
    ensures s.remove(i).filter(p) == s.filter(p)
    decreases s.len()
{
    reveal(Seq::filter);
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        lemma_filter_remove(s.drop_last(), i, p);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
pub proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filter_all(s.drop_last(), p);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s.filter(p) =~= s); }
}
