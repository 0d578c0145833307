// ===================================================================================
// sndlink.rs, delivery.rs, rcvlink.rs
// ===================================================================================
impl DFlags {
    pub const SENDER: DFlags = DFlags { sender: true, ls: false, rs: false };
    pub const LOCAL_SETTLED: DFlags = DFlags { sender: false, ls: true, rs: false };
    pub const REMOTE_SETTLED: DFlags = DFlags { sender: false, ls: false, rs: true };
    pub fn empty() -> (r: DFlags) ensures r == (DFlags { sender: false, ls: false, rs: false }) { DFlags { sender: false, ls: false, rs: false } }
    pub fn contains(&self, o: DFlags) -> (r: bool) ensures r == ((o.sender ==> self.sender) && (o.ls ==> self.ls) && (o.rs ==> self.rs)) {
        (!o.sender || self.sender) && (!o.ls || self.ls) && (!o.rs || self.rs)
    }
    pub fn insert(&mut self, o: DFlags) ensures *final(self) == (DFlags { sender: old(self).sender || o.sender, ls: old(self).ls || o.ls, rs: old(self).rs || o.rs }) {
        self.sender = self.sender || o.sender; self.ls = self.ls || o.ls; self.rs = self.rs || o.rs;
    }
}
/// a sender link as it is created: no credit, nothing waiting
pub open spec fn snd_fresh(l: SenderLinkInner, id: usize, name: ByteString, rh: Handle, dc: SequenceNo, s: SessionInner, m: Option<u32>) -> bool {
    &&& l.id == id && l.name == name && l.remote_handle == rh && l.delivery_count == dc && l.session.inner == s && l.max_message_size == m
    &&& l.link_credit == 0 && l.pending_transfers@.len() == 0 && l.error is None && !l.closed
}
/// what `send` accepts: any type that converts into a transfer body
pub struct BodySrc(pub TransferBody);
impl vstd::std_specs::convert::FromSpecImpl<BodySrc> for TransferBody { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: BodySrc) -> Self { e.0 } }
impl From<BodySrc> for TransferBody { fn from(e: BodySrc) -> (r: Self) { e.0 } }
/// a link sends one delivery: one unit of credit is consumed first
pub open spec fn link_send(l: SenderLinkInner, m: SenderLinkInner, tag: Seq<u8>, body: TransferBody, settled: bool, format: Option<u32>, id: DeliveryNumber) -> bool {
    &&& l.error is None && !l.closed && l.link_credit > 0 && l.pending_transfers@.len() == 0 && l.session.inner.remote_incoming_window > 0
    &&& m.link_credit == l.link_credit - 1 && m.delivery_count == (if l.delivery_count == u32::MAX { 0 } else { (l.delivery_count + 1) as u32 })
    &&& m == (SenderLinkInner { link_credit: m.link_credit, delivery_count: m.delivery_count, session: m.session, ..l })
    &&& delivered(l.session.inner, m.session.inner, l.id as u32, tag, body, settled, format, id)
}
//@impl src/sndlink.rs SenderLink
//@method new
    ensures r.inner == inner
//@method session
    ensures *r == self.inner.session
//@end
/// the link is closed locally: whoever waits on it is told, the peer is sent a closing detach
pub open spec fn snd_closed(a: SenderLinkInner, b: SenderLinkInner, error: Option<Error>) -> bool {
    if a.closed { b == a } else {
        &&& b.closed && snd_failed(a, AmqpProtocolError::LinkDetached(None)) && b.pending_transfers@.len() == 0
        &&& b == (SenderLinkInner { closed: true, pending_transfers: b.pending_transfers, session: b.session, ..a })
        &&& exists|tx: DetachTx| #[trigger] snd_detach(a.session.inner, b.session.inner, a.id as u32, true, error, tx)
    }
}
//@impl src/sndlink.rs SenderLinkInner
//@method new
    ensures snd_fresh(r, id, name, handle, delivery_count, session, max_message_size)
//@method id
    ensures r == self.id as u32
//@method max_message_size
    ensures r == self.max_message_size
//@method with
    ensures snd_fresh(r, id, r.name, frame.0.handle, (if frame.0.initial_delivery_count is Some { frame.0.initial_delivery_count->0 } else { 0 }), session,
        (match frame.0.max_message_size { Some(v) => Some(if v <= u32::MAX { v as u32 } else { u32::MAX }), None => None }))
//@method remote_detached
    ensures snd_failed(*old(self), err), final(self).closed, final(self).error == Some(err), final(self).pending_transfers@.len() == 0,
        *final(self) == (SenderLinkInner { pending_transfers: final(self).pending_transfers, closed: true, error: Some(err), ..*old(self) }),
//@preloop 0
    let ghost __s0 = *self;
    let ghost __a0 = __it0.all();
//@loop 0
    invariant __it0.all() == __a0, __it0.pos() == __k0, __k0 <= __end0, __end0 == __it0.all().len(),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] __a0[i]).resolved() == failed(err), *self == __s0,
    decreases __end0 - __k0
//@method close rettype="Either<Ready<AmqpProtocolError>,AsyncBlk>"
    ensures snd_closed(*old(self), *final(self), error)
//@preloop 0
    let ghost __s0 = *self;
    let ghost __a0 = __it0.all();
//@loop 0
    invariant __it0.all() == __a0, __it0.pos() == __k0, __k0 <= __end0, __end0 == __it0.all().len(),
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] __a0[i]).resolved() == failed(AmqpProtocolError::LinkDetached(None)), *self == __s0,
    decreases __end0 - __k0
//@method close asyncbody=0 sig="fn close_fut_(rx: Receiver<Result<(), AmqpProtocolError>>) -> Result<(), AmqpProtocolError>"
    ensures promised(rx, r)
//@method apply_flow
    ensures flow_applied(*old(self), *final(self), *flow.0)
//@preloop 0
    let ghost __s0 = *self;
    let ghost __a0 = __it0.all();
//@loop 0
    invariant __it0.all() == __a0, __it0.pos() == __k0, __k0 <= __end0, __end0 == __it0.all().len(), *self == __s0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] __a0[i]).resolved() == Some(Ok::<(), AmqpProtocolError>(())),
    decreases __end0 - __k0
//@method send awaitself dropgeneric=T $T=BodySrc
    ensures
        old(self).error is Some ==> r == Err::<(DeliveryNumber, Bytes), AmqpProtocolError>(old(self).error->0) && *final(self) == *old(self),
        old(self).closed ==> r is Err && final(self).session == old(self).session,
        r is Ok && tag is Some ==> r->Ok_0.1 == tag->0,
        r is Ok && tag is None ==> r->Ok_0.1@ == be4(old(self).delivery_tag),
        r is Ok ==> exists|l: SenderLinkInner, m: SenderLinkInner| #![trigger lawaited(*old(self), l), lawaited(m, *final(self))] lawaited(*old(self), l) && link_send(l, m, r->Ok_0.1@, body.0, settled, format, r->Ok_0.0) && lawaited(m, *final(self)),
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant lawaited(*old(self), *self), old(self).error is None, old(self).closed ==> self.closed && self.session == old(self).session,
    ensures lawaited(*old(self), *self), self.error is None, !self.closed, !old(self).closed, self.link_credit > 0, self.pending_transfers@.len() == 0,
        self.session.inner.remote_incoming_window > 0 || !est_snd(self.session.inner, self.id as u32 as usize),
//@after self.pending_transfers.push_back
    proof { assert(self.pending_transfers@.last() == rx.of()); }
//@postloop 0
    let ghost __l = *self;
    let ghost mut __m = *self;
    let ghost __body = body;
//@after let __f
    proof {
        __m = *self;
        let _m = link_send(__l, __m, tag@, __body, settled, format, __f->Ok_0);
        assert(lawaited(__l, __m));
    }
//@method get_tag
    ensures match tag { Some(t) => r == t && *final(self) == *old(self), None => r@ == be4(old(self).delivery_tag) && *final(self) == (SenderLinkInner { delivery_tag: (if old(self).delivery_tag == u32::MAX { 0 } else { (old(self).delivery_tag + 1) as u32 }), ..*old(self) }) }
//@end
/// the peer has settled the delivery
pub open spec fn rsettled(d: Delivery) -> bool { d.flags.v.rs || (dlv_entry(d) is Some && dlv_entry(d)->0.settled) }
pub open spec fn role_of(d: Delivery) -> Role { if d.flags.v.sender { Role::Sender } else { Role::Receiver } }
/// exactly one disposition, about this delivery only, is sent
pub open spec fn disposed(a: Delivery, b: Delivery, settled: bool, state: DeliveryState) -> bool {
    let f = b.session.inner.sink.out().last();
    &&& posted(a.session.inner, b.session.inner, f.1)
    &&& quiet(a.session.inner) || f.1 is Disposition && disp_of(f) == (DispositionInner { role: role_of(a), first: a.id, last: None, settled, state: Some(state), batchable: false })
}
/// what a delivery that the peer has answered is reported as
pub open spec fn outcome(e: DeliveryInner) -> Option<Result<Option<DeliveryState>, AmqpProtocolError>> {
    if e.state is Some { Some(Ok(e.state)) } else if e.error is Some { Some(Err(e.error->0)) } else { None }
}
pub open spec fn taken(a: DeliveryInner, b: DeliveryInner) -> bool {
    b == a || (a.state is Some && a.state->0 is Modified && b == (DeliveryInner { state: None, ..a }))
}
//@impl src/delivery.rs Delivery $Flags=DFlags
//@method new_rcv
    ensures r.id == id, r.tag == tag, r.flags.v == (if settled { DFlags::LOCAL_SETTLED } else { DFlags { sender: false, ls: false, rs: false } }),
        settled ==> r.session == session,
        !settled ==> r.session.inner == (SessionInner { unsettled_rcv_deliveries: r.session.inner.unsettled_rcv_deliveries, ..session.inner })
            && r.session.inner.unsettled_rcv_deliveries@ == session.inner.unsettled_rcv_deliveries@.insert(id, DeliveryInner { handle: link_handle, settled: false, state: None, error: None, tx: None }),
//@method id
    ensures r == self.id
//@method tag
    ensures *r == self.tag
//@method remote_state cellmut viafield=is_set:flags,set_flag:+flags
    ensures r == (match dlv_entry(*old(self)) { Some(e) => e.state, None => None }), dlv_map(*final(self)) =~= dlv_map(*old(self))
//@method is_remote_settled cellmut viafield=is_set:flags,set_flag:+flags
    ensures r == rsettled(*old(self)), *final(self) == *old(self)
//@method settle
    ensures if rsettled(*old(self)) || old(self).flags.v.ls { *final(self) == *old(self) } else {
            &&& disposed(*old(self), *final(self), true, state) && final(self).flags.v == (DFlags { ls: true, ..old(self).flags.v })
            &&& *final(self) == (Delivery { flags: final(self).flags, session: final(self).session, ..*old(self) }) }
//@method update_state
    ensures if rsettled(*old(self)) || old(self).flags.v.ls { *final(self) == *old(self) } else {
            disposed(*old(self), *final(self), false, state) && *final(self) == (Delivery { session: final(self).session, ..*old(self) }) }
//@method is_set
    ensures r == ((flag.sender ==> self.flags.v.sender) && (flag.ls ==> self.flags.v.ls) && (flag.rs ==> self.flags.v.rs))
//@method set_flag cellmut
    ensures *final(self) == (Delivery { flags: final(self).flags, ..*old(self) }), final(self).flags.v == (DFlags { sender: old(self).flags.v.sender || flag.sender, ls: old(self).flags.v.ls || flag.ls, rs: old(self).flags.v.rs || flag.rs })
//@method check_inner
    ensures r == outcome(*old(inner)), taken(*old(inner), *final(inner))
//@method wait cellmut awaitself poolchan viafield=is_set:flags,set_flag:+flags
    ensures
        old(self).flags.v.ls ==> r == Ok::<Option<DeliveryState>, AmqpProtocolError>(None) && *final(self) == *old(self),
        !old(self).flags.v.ls && dlv_entry(*old(self)) is None ==> r == Err::<Option<DeliveryState>, AmqpProtocolError>(AmqpProtocolError::LinkDetached(None)),
        !old(self).flags.v.ls && dlv_entry(*old(self)) is Some && outcome(dlv_entry(*old(self))->0) is Some ==> r == outcome(dlv_entry(*old(self))->0)->0,
        !old(self).flags.v.ls && dlv_entry(*old(self)) is Some && outcome(dlv_entry(*old(self))->0) is None && dlv_entry(*old(self))->0.settled ==> r == Ok::<Option<DeliveryState>, AmqpProtocolError>(None) && rsettled(*final(self)),
//@end
//@impl src/delivery.rs "Drop for Delivery" inherent $Flags=DFlags
//@method drop viafield=is_set:flags,set_flag:+flags
    ensures match dlv_entry(*old(self)) {
            None => *final(self) == *old(self),
            Some(e) => {
                let s = final(self).session.inner;
                let f = s.sink.out().last();
                &&& dlv_map(*final(self)) == dlv_map(*old(self)).remove(old(self).id) && final(self).flags == old(self).flags
                &&& if rsettled(*old(self)) || old(self).flags.v.ls { s.sink == old(self).session.inner.sink } else {
                    &&& conn_kept(old(self).session.inner.sink.0, s.sink.0) && posted(SessionInner { sink: old(self).session.inner.sink, ..s }, s, f.1)
                    &&& quiet(s) || f.0 == s.id as u16 && f.1 is Disposition && disp_of(f).role == role_of(*old(self)) && disp_of(f).first == old(self).id && disp_of(f).last is None && disp_of(f).settled && disp_of(f).state is Some && disp_of(f).state->0 is Rejected
                }
                &&& s == (SessionInner { unsettled_snd_deliveries: s.unsettled_snd_deliveries, unsettled_rcv_deliveries: s.unsettled_rcv_deliveries, sink: s.sink, ..old(self).session.inner })
                &&& old(self).flags.v.sender ==> s.unsettled_rcv_deliveries == old(self).session.inner.unsettled_rcv_deliveries
                &&& !old(self).flags.v.sender ==> s.unsettled_snd_deliveries == old(self).session.inner.unsettled_snd_deliveries
            } }
//@end
//@impl src/delivery.rs DeliveryInner
//@method new
    ensures r == (DeliveryInner { handle, tx: None, state: None, error: None, settled: false })
//@method handle
    ensures r == self.handle
//@method set_error
    ensures dlv_err(*old(self), *final(self), error)
//@method handle_disposition
    ensures dlv_disp(*old(self), *final(self), *disp.0)
//@end
// ------------------------------------------------------------------ receiving
/// while a delivery is being put together, its first transfer is the last entry of the queue
pub open spec fn rcv_whole(l: ReceiverLinkInner) -> bool { l.partial_body is Some ==> l.queue@.len() > 0 }
/// a complete delivery is available
pub open spec fn rcv_ready(l: ReceiverLinkInner) -> bool { l.queue@.len() > (if l.partial_body is Some { 1int } else { 0 }) }
/// deliveries are handed out in order, and never before they are complete
pub open spec fn rcv_taken(a: ReceiverLinkInner, b: ReceiverLinkInner, r: Option<(Delivery, Transfer)>) -> bool {
    match r {
        Some(d) => rcv_ready(a) && d == a.queue@[0] && b.queue@ == a.queue@.skip(1) && b == (ReceiverLinkInner { queue: b.queue, ..a }),
        None => !rcv_ready(a) && b.queue@ == a.queue@ && b == (ReceiverLinkInner { queue: b.queue, ..a }),
    }
}
pub open spec fn rcv_closed(a: ReceiverLinkInner, b: ReceiverLinkInner, error: Option<Error>) -> bool {
    &&& b.closed && a.reader_task.woken()
    &&& b == (ReceiverLinkInner { closed: true, session: b.session, reader_task: b.reader_task, ..a })
    &&& if a.closed { b.session == a.session } else { exists|tx: DetachTx| #[trigger] rcv_detach(a.session.inner, b.session.inner, a.handle, true, error, tx) }
}
/// the transfer is refused: the link is closed with this error, nothing is delivered
pub open spec fn refused(a: ReceiverLinkInner, b: ReceiverLinkInner, r: Action, c: LinkError) -> bool {
    &&& r is None && b.queue@ == a.queue@ && b.closed
    &&& exists|x: ReceiverLinkInner, e: Error| #[trigger] rcv_closed(x, b, Some(e)) && e.0.condition == ErrorCondition::LinkError(c) && x.closed == a.closed && x.session == a.session && x.handle == a.handle
}
pub open spec fn tag_ok(d: Delivery, f: TransferInner) -> bool { if f.delivery_tag is Some { d.tag == f.delivery_tag->0 } else { d.tag@.len() == 0 } }
/// the delivery that a transfer starts
pub open spec fn rcv_started(l: ReceiverLinkInner, d: Delivery, f: TransferInner) -> bool {
    let settled = f.settled == Some(true);
    &&& d.id == f.delivery_id->0 && tag_ok(d, f) && d.flags.v == (DFlags { sender: false, ls: settled, rs: false })
    &&& settled ==> d.session == l.session
    &&& !settled ==> d.session.inner.unsettled_rcv_deliveries@ == l.session.inner.unsettled_rcv_deliveries@.insert(d.id, DeliveryInner { handle: l.handle, settled: false, state: None, error: None, tx: None })
        && d.session.inner == (SessionInner { unsettled_rcv_deliveries: d.session.inner.unsettled_rcv_deliveries, ..l.session.inner })
}
pub open spec fn body_bytes(f: TransferInner) -> Seq<u8> { if f.body is Some { f.body->0.bytes() } else { Seq::<u8>::empty() } }
/// a transfer frame on a receiver link
pub open spec fn rcv_transfer(a: ReceiverLinkInner, b: ReceiverLinkInner, f: TransferInner, r: Action, me: ReceiverLinkInner) -> bool {
    let count = (if a.delivery_count == u32::MAX { 0 } else { (a.delivery_count + 1) as u32 });
    if a.credit == 0 { refused(a, b, r, LinkError::TransferLimitExceeded) && b.credit == 0 }
    else if a.partial_body is Some {
        if f.delivery_id is Some && !(a.queue@.len() > 0 && a.queue@.last().0.id == f.delivery_id->0) { refused(a, b, r, LinkError::DetachForced) }
        else if f.body is Some && a.partial_body->0@.len() + body_bytes(f).len() > a.max_message_size { refused(a, b, r, LinkError::MessageSizeExceeded) }
        else if f.more {
            &&& r is None && b == (ReceiverLinkInner { partial_body: b.partial_body, ..a }) && b.partial_body is Some && b.partial_body->0@ == a.partial_body->0@ + body_bytes(f)
        } else if a.queue@.len() > 0 {
            let d = b.queue@.last();
            &&& b.partial_body is None && b.queue@ == a.queue@.drop_last().push(d) && d.0 == a.queue@.last().0
            &&& *d.1.0 == (TransferInner { body: d.1.0.body, ..*a.queue@.last().1.0 }) && d.1.0.body is Some && d.1.0.body->0.bytes() == a.partial_body->0@ + body_bytes(f)
            &&& b.credit == a.credit - 1 && b.delivery_count == count
            &&& a.queue@.len() == 1 ==> a.reader_task.woken()
            &&& r == Action::Transfer(ReceiverLink { inner: me })
            &&& b == (ReceiverLinkInner { partial_body: None, queue: b.queue, credit: b.credit, delivery_count: count, reader_task: b.reader_task, ..a })
        } else { true }
    } else if f.delivery_id is None { refused(a, b, r, LinkError::DetachForced) }
    else if f.more {
        let d = b.queue@.last();
        &&& r is None && b.partial_body is Some && b.partial_body->0@ == body_bytes(f)
        &&& b.queue@ == a.queue@.push(d) && rcv_started(a, d.0, f) && *d.1.0 == (TransferInner { body: None, ..f })
        &&& b == (ReceiverLinkInner { partial_body: b.partial_body, queue: b.queue, ..a })
    } else {
        let d = b.queue@.last();
        &&& b.queue@ == a.queue@.push(d) && rcv_started(a, d.0, f) && *d.1.0 == f
        &&& b.credit == a.credit - 1 && b.delivery_count == count
        &&& a.queue@.len() == 0 ==> a.reader_task.woken()
        &&& r == Action::Transfer(ReceiverLink { inner: me })
        &&& b == (ReceiverLinkInner { queue: b.queue, credit: b.credit, delivery_count: count, reader_task: b.reader_task, ..a })
    }
}
/// the answer to the peer's attach is sent, unless the link is closed already
pub open spec fn rcv_confirmed(a: ReceiverLink, b: ReceiverLink, response: Attach) -> bool {
    let s = a.inner.session.inner; let n = b.inner.session.inner; let t = a.inner.handle as usize; let f = n.sink.out().last();
    if a.inner.closed { b == a } else {
        &&& b.inner == (ReceiverLinkInner { session: b.inner.session, ..a.inner })
        &&& s.links@.contains_key(t) && s.links@[t] is Right && s.links@[t]->Right_0 is Opening && (*s.links@[t]->Right_0->Opening_0) is Some ==> {
            &&& est_rcv(n, t) && grew(s, n, 1)
            &&& quiet(s) || f.0 == s.id as u16 && f.1 is Attach && attach_of(f) == (AttachInner { max_message_size: (if a.inner.max_message_size != 0 { Some(a.inner.max_message_size) } else { None }), ..*response.0 })
        }
        &&& n.sink.out() == s.sink.out() || grew(s, n, 1)
    }
}
pub open spec fn credit_set(a: ReceiverLinkInner, b: ReceiverLinkInner, credit: u32) -> bool {
    if a.closed { b == a } else {
        &&& b.credit == (if a.credit + credit <= u32::MAX { (a.credit + credit) as u32 } else { u32::MAX })
        &&& b == (ReceiverLinkInner { credit: b.credit, session: b.session, ..a })
        &&& posted(a.session.inner, b.session.inner, b.session.inner.sink.out().last().1)
        &&& flow_answer0(b.session.inner.sink.out().last(), b.session.inner, Some(a.handle), Some(a.delivery_count), Some(credit))
    }
}
//@impl src/sndlink.rs SenderLink
//@method close_with_error cellmut rettype="Either<Ready<AmqpProtocolError>,AsyncBlk>" dropgeneric=E $E=Error callas=into:same_
    ensures snd_closed(old(self).inner, final(self).inner, Some(error))
//@end
//@impl src/rcvlink.rs ReceiverLink
//@method new
    ensures r.inner == inner
//@method handle
    ensures r == self.inner.handle
//@method confirm_receiver_link cellmut
    ensures rcv_confirmed(*old(self), *final(self), response)
//@method set_link_credit cellmut
    ensures credit_set(old(self).inner, final(self).inner, credit)
//@method close_with_error cellmut rettype=AsyncBlk dropgeneric=E $E=Error callas=into:same_
    ensures rcv_closed(old(self).inner, final(self).inner, Some(error))
//@method has_deliveries
//@method get_delivery cellmut
    ensures rcv_taken(old(self).inner, final(self).inner, r)
//@method poll_recv cellmut "$Context<'_>=Context"
    ensures match r {
            Poll::Ready(Some(Ok(d))) => rcv_taken(old(self).inner, final(self).inner, Some(d)),
            Poll::Ready(Some(Err(e))) => !rcv_ready(old(self).inner) && old(self).inner.closed && old(self).inner.error is Some && e == AmqpProtocolError::LinkDetached(old(self).inner.error)
                && final(self).inner == (ReceiverLinkInner { error: None, ..old(self).inner }),
            Poll::Ready(None) => !rcv_ready(old(self).inner) && old(self).inner.closed && old(self).inner.error is None && final(self).inner == old(self).inner,
            Poll::Pending => !rcv_ready(old(self).inner) && !old(self).inner.closed && final(self).inner.reader_task.reg@ && final(self).inner == (ReceiverLinkInner { reader_task: final(self).inner.reader_task, ..old(self).inner }),
        }
//@method remote_detached cellmut
    ensures old(self).inner.reader_task.woken(), final(self).inner == (ReceiverLinkInner { closed: true, error, reader_task: final(self).inner.reader_task, ..old(self).inner })
//@end
//@impl src/rcvlink.rs ReceiverLinkInner
//@method new
    ensures rcv_fresh(r, handle, remote_handle, *frame.0), r.session.inner == session, r.max_message_size == 262_144
//@method wake cellmut
    ensures *final(self) == (ReceiverLinkInner { reader_task: final(self).reader_task, ..*old(self) }), old(self).reader_task.woken()
//@method id
    ensures r == self.handle
//@method name
    ensures *r == self.name
//@method attached
    ensures *final(self) == (ReceiverLinkInner { remote_handle: frame.0.handle, delivery_count: if frame.0.initial_delivery_count is Some { frame.0.initial_delivery_count->0 } else { old(self).delivery_count }, ..*old(self) })
//@method detached
    ensures final(self).closed, final(self).queue@.len() == 0, *final(self) == (ReceiverLinkInner { closed: true, queue: final(self).queue, ..*old(self) })
//@method close rettype="AsyncBlk"
    ensures rcv_closed(*old(self), *final(self), error)
//@method close asyncbody=0 sig="fn close_fut_(rx: Receiver<Result<(), AmqpProtocolError>>) -> Result<(), AmqpProtocolError>"
    ensures promised(rx, r)
//@method set_link_credit
    ensures credit_set(*old(self), *final(self), credit)
//@method handle_transfer
    ensures rcv_transfer(*old(self), *final(self), *transfer.0, r, *inner), rcv_whole(*old(self)) ==> rcv_whole(*final(self))
//@end
/// Delivery::is_set, Delivery::set_flag as functions of the field they use (callers see their contracts only)
pub fn is_set_f_(flags: &StdCell<DFlags>, flag: DFlags) -> (r: bool)
    ensures r == ((flag.sender ==> flags.v.sender) && (flag.ls ==> flags.v.ls) && (flag.rs ==> flags.v.rs)) { flags.get().contains(flag) }
pub fn set_flag_f_(flags: &mut StdCell<DFlags>, flag: DFlags)
    ensures final(flags).v == (DFlags { sender: old(flags).v.sender || flag.sender, ls: old(flags).v.ls || flag.ls, rs: old(flags).v.rs || flag.rs }) { let mut f = flags.get(); f.insert(flag); flags.set(f); }
