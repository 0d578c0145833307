// ===================================================================================
// session.rs
// ===================================================================================
impl Flags {
    pub const LOCAL: Flags = Flags { local: true, ended: false, ending: false };
    pub const ENDED: Flags = Flags { local: false, ended: true, ending: false };
    pub const ENDING: Flags = Flags { local: false, ended: false, ending: true };
    pub fn empty() -> (r: Flags) ensures r == (Flags { local: false, ended: false, ending: false }) { Flags { local: false, ended: false, ending: false } }
    pub fn contains(&self, o: Flags) -> (r: bool) ensures r == ((o.local ==> self.local) && (o.ended ==> self.ended) && (o.ending ==> self.ending)) {
        (!o.local || self.local) && (!o.ended || self.ended) && (!o.ending || self.ending)
    }
    pub fn insert(&mut self, o: Flags) ensures *final(self) == (Flags { local: old(self).local || o.local, ended: old(self).ended || o.ended, ending: old(self).ending || o.ending }) {
        self.local = self.local || o.local; self.ended = self.ended || o.ended; self.ending = self.ending || o.ending;
    }
}
pub const INITIAL_NEXT_OUTGOING_ID: TransferNumber = 1;
pub open spec fn one_settled(a: Map<DeliveryNumber, DeliveryInner>, b: Map<DeliveryNumber, DeliveryInner>, k: DeliveryNumber, d: DispositionInner) -> bool {
    if disp_hits(d, k) { dlv_disp(a[k], b[k], d) } else { b[k] == a[k] }
}
/// a disposition settles exactly the deliveries it addresses
pub open spec fn settled_by(a: Map<DeliveryNumber, DeliveryInner>, b: Map<DeliveryNumber, DeliveryInner>, d: DispositionInner) -> bool {
    &&& forall|k: DeliveryNumber| #[trigger] a.contains_key(k) <==> b.contains_key(k)
    &&& forall|k: DeliveryNumber| #[trigger] a.contains_key(k) ==> one_settled(a, b, k, d)
}
/// everything that waits in a session is told that it failed
pub open spec fn ses_failed(s: SessionInner, e: AmqpProtocolError) -> bool {
    &&& all_pending(s.pending_transfers@, failed(e))
    &&& all_notified(s.unsettled_snd_deliveries@) && all_notified(s.unsettled_rcv_deliveries@)
    &&& forall|k: usize| #[trigger] s.links@.contains_key(k) ==> link_failed(s.links@[k], e)
    &&& s.closed.released()
}

// ------------------------------------------------------------------ frames the session sends
pub open spec fn attach_of(f: AmqpFrame) -> AttachInner { *(f.1->Attach_0).0 }
pub open spec fn detach_of(f: AmqpFrame) -> DetachInner { *(f.1->Detach_0).0 }
pub open spec fn flow_of(f: AmqpFrame) -> FlowInner { *(f.1->Flow_0).0 }
pub open spec fn disp_of(f: AmqpFrame) -> DispositionInner { *(f.1->Disposition_0).0 }
pub open spec fn tr_of(f: AmqpFrame) -> TransferInner { *(f.1->Transfer_0).0 }
/// frames sent between two states of the session
pub open spec fn sent(a: SessionInner, b: SessionInner) -> Seq<AmqpFrame> { b.sink.out().skip(a.sink.out().len() as int) }
pub open spec fn grew(a: SessionInner, b: SessionInner, n: int) -> bool {
    &&& a.sink.out().is_prefix_of(b.sink.out()) && b.sink.out().len() == a.sink.out().len() + (if quiet(a) { 0 } else { n })
    &&& sink_kept(a, b)
}
/// the same, without regard to the session's flags
pub open spec fn grew_by(a: SessionInner, b: SessionInner, n: int) -> bool {
    &&& a.sink.out().is_prefix_of(b.sink.out()) && b.sink.out().len() == a.sink.out().len() + n
    &&& sink_kept(a, b)
}
pub open spec fn sink_kept(a: SessionInner, b: SessionInner) -> bool { a.sink.0.max_frame_size == b.sink.0.max_frame_size && a.sink.0.channel_max == b.sink.0.channel_max }
pub open spec fn is_detach(f: AmqpFrame, s: SessionInner, h: Handle, closed: bool, error: Option<Error>) -> bool {
    quiet(s) || detach_frame(f, s, h, closed, error)
}
pub open spec fn detach_frame(f: AmqpFrame, s: SessionInner, h: Handle, closed: bool, error: Option<Error>) -> bool {
    f.0 == s.id as u16 && f.1 is Detach && detach_of(f) == (DetachInner { handle: h, closed, error })
}
/// nothing but the connection's output changes, and exactly this detach is sent
pub open spec fn names_without(a: Map<ByteString, usize>, b: Map<ByteString, usize>, t: usize) -> bool {
    &&& forall|k: ByteString| #[trigger] b.contains_key(k) <==> (a.contains_key(k) && a[k] != t)
    &&& forall|k: ByteString| #[trigger] b.contains_key(k) ==> b[k] == a[k]
}
pub type LinkState = Either<SenderLinkState, ReceiverLinkState>;
/// a credit for a link the application has not confirmed yet is kept for it
pub open spec fn links_after_flow(a: SessionInner, f: Flow) -> Map<usize, LinkState> {
    if f.0.handle is Some && f.0.link_credit is Some && a.remote_handles@.contains_key(f.0.handle->0) {
        let t = a.remote_handles@[f.0.handle->0];
        if a.links@.contains_key(t) && a.links@[t] is Left && a.links@[t]->Left_0 is OpeningRemote { a.links@.insert(t, Either::Left(SenderLinkState::OpeningRemote(Some(f)))) } else { a.links@ }
    } else { a.links@ }
}
pub type DetachTx = Sender<Result<(), AmqpProtocolError>>;
/// local detach of sender link `id`
pub open spec fn snd_detach(a: SessionInner, b: SessionInner, id: Handle, closed: bool, error: Option<Error>, tx: DetachTx) -> bool {
    let t = id as usize;
    if !(a.links@.contains_key(t) && a.links@[t] is Left) || a.links@[t]->Left_0 is OpeningRemote || a.links@[t]->Left_0 is DetachedRemote || a.links@[t]->Left_0 is Closing {
        tx.resolved() == Some(Ok::<(), AmqpProtocolError>(())) && b == a
    } else {
        &&& b.links@ == a.links@.insert(t, Either::Left(SenderLinkState::Closing(Some(tx))))
        &&& grew(a, b, 1) && is_detach(b.sink.out().last(), a, id, closed, error)
        &&& b == (SessionInner { links: b.links, links_by_name: b.links_by_name, pending_transfers: b.pending_transfers, sink: b.sink, ..a })
        &&& a.links@[t]->Left_0 is Opening ==> b.links_by_name == a.links_by_name && b.pending_transfers == a.pending_transfers && b.sink.0.control_queue == a.sink.0.control_queue
        &&& a.links@[t]->Left_0 is Established ==> {
            &&& names_without(a.links_by_name@, b.links_by_name@, t)
            &&& pend_failed(a.pending_transfers@, b.pending_transfers@, id, AmqpProtocolError::LinkDetached(None))
            &&& b.sink.0.control_queue.log@.len() == a.sink.0.control_queue.log@.len() + 1 && a.sink.0.control_queue.log@.is_prefix_of(b.sink.0.control_queue.log@)
            &&& b.sink.0.control_queue.log@.last().0.kind is LocalDetachSender
        }
    }
}
/// local detach of receiver link `id`
pub open spec fn rcv_detach(a: SessionInner, b: SessionInner, id: Handle, closed: bool, error: Option<Error>, tx: DetachTx) -> bool {
    let t = id as usize;
    if !(a.links@.contains_key(t) && a.links@[t] is Right) || a.links@[t]->Right_0 is Closing {
        tx.resolved() == Some(Ok::<(), AmqpProtocolError>(())) && b == a
    } else if a.links@[t]->Right_0 is Opening {
        let o = *a.links@[t]->Right_0->Opening_0;
        &&& tx.resolved() == Some(Ok::<(), AmqpProtocolError>(()))
        &&& b.links@ == a.links@.insert(t, Either::Right(ReceiverLinkState::Closing(None)))
        &&& grew(a, b, if o is Some { 2 } else { 1 }) && is_detach(b.sink.out().last(), a, id, closed, error)
        &&& b == (SessionInner { links: b.links, sink: b.sink, ..a })
        &&& o is Some && !quiet(a) ==> {
            let f = sent(a, b)[0];
            f.0 == a.id as u16 && f.1 is Attach && attach_of(f).handle == id && attach_of(f).role == Role::Receiver && attach_of(f).name == o->0 .0.name && attach_of(f).target is None
        }
    } else {
        &&& b.links@ == a.links@.insert(t, Either::Right(ReceiverLinkState::Closing(Some(tx))))
        &&& grew(a, b, 1) && is_detach(b.sink.out().last(), a, id, closed, error)
        &&& b == (SessionInner { links: b.links, links_by_name: b.links_by_name, sink: b.sink, ..a })
        &&& a.links@[t]->Right_0 is Established ==> names_without(a.links_by_name@, b.links_by_name@, t)
            && b.sink.0.control_queue.log@.len() == a.sink.0.control_queue.log@.len() + 1 && b.sink.0.control_queue.log@.last().0.kind is LocalDetachReceiver
        &&& a.links@[t]->Right_0 is OpeningLocal ==> b.links_by_name == a.links_by_name && b.sink.0.control_queue == a.sink.0.control_queue
    }
}
/// body bytes of a run of transfers
pub open spec fn bodies(fs: Seq<AmqpFrame>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { Seq::<u8>::empty() } else { bodies(fs.drop_last()) + tr_of(fs.last()).body->0.bytes() }
}
/// one delivery as a run of transfer frames on channel `ch`: all frames belong to the link, the first one carries delivery id, tag, format and settlement,
/// all but the last one have `more`, bodies concatenate to the message, and each leaves room for the frame header and the transfer performative
pub open spec fn part_ok(f: AmqpFrame, ch: u16, h: Handle, last: bool, m: u32) -> bool {
    let t = tr_of(f);
    &&& f.0 == ch && f.1 is Transfer && t.handle == h && t.more == !last && t.body is Some && !t.aborted && !t.resume
    &&& m >= 512 ==> t.body->0.bytes().len() + 256 <= m
}
pub open spec fn first_ok(f: AmqpFrame, id: DeliveryNumber, tag: Seq<u8>, settled: bool, format: Option<u32>) -> bool {
    let t = tr_of(f);
    &&& t.delivery_id == Some(id) && t.delivery_tag is Some && t.delivery_tag->0@ == tag && t.message_format == format
    &&& t.settled == (if settled { Some(true) } else { None })
    &&& t.state == (if settled { Some(DeliveryState::Accepted(Accepted {})) } else { None })
}
pub open spec fn next_ok(f: AmqpFrame) -> bool { tr_of(f).delivery_id is None && tr_of(f).settled is None && tr_of(f).state is None }
pub open spec fn run_ok(fs: Seq<AmqpFrame>, ch: u16, h: Handle, m: u32, complete: bool) -> bool {
    forall|i: int| 0 <= i < fs.len() ==> part_ok(#[trigger] fs[i], ch, h, complete && i == fs.len() - 1, m) && (i > 0 ==> next_ok(fs[i]))
}
/// the same for the frames after the first `k`
pub open spec fn run_from(fs: Seq<AmqpFrame>, k: int, ch: u16, h: Handle, m: u32, complete: bool) -> bool {
    forall|i: int| k <= i < fs.len() ==> part_ok(#[trigger] fs[i], ch, h, complete && i == fs.len() - 1, m) && (i > 0 ==> next_ok(fs[i]))
}
/// the message format a delivery is sent with
pub open spec fn format_of(body: TransferBody, format: Option<u32>) -> Option<u32> {
    if format is Some { format } else { match body { TransferBody::Data(_) => None, TransferBody::Message(m) => m.0.message_format } }
}
/// a delivery is sent over link `h`: state before and after
pub open spec fn delivered(a: SessionInner, b: SessionInner, h: Handle, tag: Seq<u8>, body: TransferBody, settled: bool, format: Option<u32>, id: DeliveryNumber) -> bool {
    &&& a.error is None && !a.flags.ending && est_snd(a, h as usize)
    &&& a.remote_incoming_window > 0 && b.remote_incoming_window == a.remote_incoming_window - 1
    &&& id == a.next_outgoing_id && b.next_outgoing_id == (if a.next_outgoing_id == u32::MAX { 0 } else { (a.next_outgoing_id + 1) as u32 })
    &&& b.unsettled_snd_deliveries@ == (if settled { a.unsettled_snd_deliveries@ } else { a.unsettled_snd_deliveries@.insert(id, DeliveryInner { handle: h, settled: false, state: None, error: None, tx: None }) })
    &&& b == (SessionInner { remote_incoming_window: b.remote_incoming_window, next_outgoing_id: b.next_outgoing_id, unsettled_snd_deliveries: b.unsettled_snd_deliveries, sink: b.sink, ..a })
    &&& conn_kept(a.sink.0, b.sink.0) && a.sink.out().is_prefix_of(b.sink.out())
    &&& !a.flags.ended ==> sent(a, b).len() > 0 && run_ok(sent(a, b), a.id as u16, h, a.sink.0.max_frame_size, true) && first_ok(sent(a, b)[0], id, tag, settled, format_of(body, format))
    &&& !a.flags.ended ==> bodies(sent(a, b)) == body.bytes()
    &&& a.flags.ended ==> b.sink.out() == a.sink.out()
}
/// flow frame that tells the peer the current state of the session (2.7.4): window and next outgoing id as they are after the event
pub open spec fn flow_answer0(f: AmqpFrame, s: SessionInner, handle: Option<u32>, count: Option<u32>, credit: Option<u32>) -> bool {
    quiet(s) || {
    &&& f.0 == s.id as u16 && f.1 is Flow
    &&& flow_of(f).next_incoming_id == Some(s.next_incoming_id) && flow_of(f).next_outgoing_id == s.next_outgoing_id && flow_of(f).outgoing_window == s.remote_incoming_window && flow_of(f).incoming_window == u32::MAX
    &&& flow_of(f).handle == handle && flow_of(f).delivery_count == count && flow_of(f).link_credit == credit && !flow_of(f).echo && !flow_of(f).drain
    }
}
pub open spec fn flow_answer(f: AmqpFrame, s: SessionInner) -> bool { flow_answer0(f, s, None, None, None) }
/// a flow frame sets the credit of a link
pub open spec fn flow_applied(a: SenderLinkInner, b: SenderLinkInner, f: FlowInner) -> bool {
    match f.link_credit {
        None => b == a,
        Some(c) => {
            &&& b.link_credit == left_of(c, a.delivery_count, (if f.delivery_count is Some { f.delivery_count->0 } else { 0 }))
            &&& all_credit(a.pending_transfers@, Some(Ok(()))) && b.pending_transfers@.len() == 0
            &&& b == (SenderLinkInner { link_credit: b.link_credit, pending_transfers: b.pending_transfers, on_credit: b.on_credit, ..a })
            &&& b.on_credit.n@ == a.on_credit.n@ + (if b.link_credit > 0 { 1int } else { 0 }) && b.on_credit.id == a.on_credit.id
        }
    }
}
/// what a flow frame does to the session: its windows and ids are taken over, whoever waits for the window tries again, an echo is answered
pub open spec fn ses_flowed(a: SessionInner, b: SessionInner, f: FlowInner) -> bool {
    &&& b.next_incoming_id == f.next_outgoing_id && b.remote_outgoing_window == f.outgoing_window
    &&& b.remote_incoming_window == left_of(f.incoming_window, a.next_outgoing_id, (if f.next_incoming_id is Some { f.next_incoming_id->0 } else { 1 }))
    &&& all_pending(a.pending_transfers@, Some(Ok(()))) && b.pending_transfers@.len() == 0
    &&& b == (SessionInner { next_incoming_id: b.next_incoming_id, remote_outgoing_window: b.remote_outgoing_window, remote_incoming_window: b.remote_incoming_window, pending_transfers: b.pending_transfers, sink: b.sink, ..a })
    &&& !f.echo ==> b.sink == a.sink
    &&& f.echo ==> grew(a, b, 1) && flow_answer(b.sink.out().last(), b)
}
pub open spec fn ses_disposed(a: SessionInner, b: SessionInner, d: DispositionInner) -> bool {
    &&& b == (SessionInner { unsettled_snd_deliveries: b.unsettled_snd_deliveries, unsettled_rcv_deliveries: b.unsettled_rcv_deliveries, ..a })
    &&& d.role == Role::Receiver ==> settled_by(a.unsettled_snd_deliveries@, b.unsettled_snd_deliveries@, d) && b.unsettled_rcv_deliveries == a.unsettled_rcv_deliveries
    &&& d.role == Role::Sender ==> settled_by(a.unsettled_rcv_deliveries@, b.unsettled_rcv_deliveries@, d) && b.unsettled_snd_deliveries == a.unsettled_snd_deliveries
}
/// a transfer frame of the peer reaches the receiver link attached to the handle, and no other
pub open spec fn ses_transfer(a: SessionInner, b: SessionInner, f: Transfer, r: Result<Action, AmqpProtocolError>) -> bool {
    let h = f.0.handle;
    let next = (if a.next_incoming_id == u32::MAX { 0 } else { (a.next_incoming_id + 1) as u32 });
    if a.remote_handles@.contains_key(h) && est_rcv(a, a.remote_handles@[h]) {
        let t = a.remote_handles@[h];
        let l = a.links@[t]->Right_0->Established_0.inner;
        &&& est_rcv(b, t) && r is Ok && rcv_transfer(l, b.links@[t]->Right_0->Established_0.inner, *f.0, r->Ok_0, l)
        &&& b.links@ == a.links@.insert(t, b.links@[t]) && b == (SessionInner { next_incoming_id: next, links: b.links, ..a })
    } else {
        &&& b == (SessionInner { next_incoming_id: next, links: b.links, ..a }) && b.links@ =~= a.links@
        &&& if a.remote_handles@.contains_key(h) && a.links@.contains_key(a.remote_handles@[h]) && a.links@[a.remote_handles@[h]] is Right && a.links@[a.remote_handles@[h]]->Right_0 is Closing { r is Ok && r->Ok_0 is None } else { r is Err }
    }
}
/// an attach of the peer that answers (or clashes with) a link of this session
pub open spec fn ses_attach(a: SessionInner, b: SessionInner, f: AttachInner, cell: SessionInner, r: bool) -> bool {
    if !a.links_by_name@.contains_key(f.name) { !r && b == a }
    else {
        let t = a.links_by_name@[f.name];
        if !a.links@.contains_key(t) { r && b == a }
        else { match a.links@[t] {
            Either::Left(SenderLinkState::Established(_)) => !r && b.links@ =~= a.links@ && b == (SessionInner { links: b.links, ..a }),
            Either::Right(ReceiverLinkState::Established(_)) => !r && b.links@ =~= a.links@ && b == (SessionInner { links: b.links, ..a }),
            Either::Left(SenderLinkState::Closing(_)) => r && b.links@ =~= a.links@ && b.remote_handles@ == a.remote_handles@.insert(f.handle, t) && b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a }),
            Either::Right(ReceiverLinkState::Closing(_)) => r && b.links@ =~= a.links@ && b.remote_handles@ == a.remote_handles@.insert(f.handle, t) && b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a }),
            Either::Left(SenderLinkState::Opening(tx)) => {
                &&& r && est_snd(b, t) && b.links@ == a.links@.insert(t, b.links@[t]) && b.remote_handles@ == a.remote_handles@.insert(f.handle, t) && b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a })
                &&& snd_fresh(b.links@[t]->Left_0->Established_0.inner, t, f.name, f.handle, (if f.initial_delivery_count is Some { f.initial_delivery_count->0 } else { 0 }), cell, (match f.max_message_size { Some(v) => Some(if v <= u32::MAX { v as u32 } else { u32::MAX }), None => None }))
                &&& tx is Some ==> tx->0.resolved() == Some(Ok::<Cell<SenderLinkInner>, AmqpProtocolError>(b.links@[t]->Left_0->Established_0.inner))
            },
            Either::Right(ReceiverLinkState::OpeningLocal(Some(x))) => {
                &&& r && est_rcv(b, t) && b.links@ == a.links@.insert(t, b.links@[t]) && b.remote_handles@ == a.remote_handles@.insert(f.handle, t) && b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a })
                &&& b.links@[t]->Right_0->Established_0.inner == (ReceiverLinkInner { remote_handle: f.handle, delivery_count: if f.initial_delivery_count is Some { f.initial_delivery_count->0 } else { x.0.delivery_count }, ..x.0 })
                &&& x.1.resolved() == Some(Ok::<ReceiverLink, AmqpProtocolError>(ReceiverLink { inner: b.links@[t]->Right_0->Established_0.inner }))
            },
            _ => r && b.links@ =~= a.links@ && b == (SessionInner { links: b.links, ..a }),
        } }
    }
}
/// a receiver link as it is created
pub open spec fn rcv_fresh(l: ReceiverLinkInner, h: Handle, rh: Handle, a: AttachInner) -> bool {
    &&& l.handle == h && l.remote_handle == rh && l.name == a.name && !l.closed && l.credit == 0 && l.queue@.len() == 0 && l.error is None && l.partial_body is None
    &&& l.delivery_count == (if a.initial_delivery_count is Some { a.initial_delivery_count->0 } else { 0 })
}
pub open spec fn one_failed(a: Map<DeliveryNumber, DeliveryInner>, b: Map<DeliveryNumber, DeliveryInner>, k: DeliveryNumber, h: Handle, e: AmqpProtocolError) -> bool {
    if a[k].handle == h { dlv_err(a[k], b[k], e) } else { b[k] == a[k] }
}
/// link that a detach frame addresses: by the handle of the remote endpoint, or the local attach that is refused
pub open spec fn addressed(s: SessionInner, h: Handle) -> Option<usize> {
    if s.remote_handles@.contains_key(h) { Some(s.remote_handles@[h]) }
    else if s.links@.contains_key(h as usize) && (match s.links@[h as usize] { Either::Left(l) => l is Opening, Either::Right(l) => l is OpeningLocal }) { Some(h as usize) }
    else { None }
}
pub open spec fn confirmed(tx: Option<DetachTx>, e: Option<Error>) -> bool {
    tx is Some ==> tx->0.resolved() == (match e { Some(x) => failed(AmqpProtocolError::LinkDetached(Some(x))), None => Some(Ok(())) })
}
/// a detach frame of the peer
pub open spec fn detached_by(a: SessionInner, b: SessionInner, f: DetachInner, r: Action) -> bool {
    match addressed(a, f.handle) {
        None => b == a && r is None,
        Some(t) => if !a.links@.contains_key(t) || a.links@[t] is Left && a.links@[t]->Left_0 is DetachedRemote { b.links@ == a.links@ && b == (SessionInner { links: b.links, ..a }) && r is None }
        else if a.links@[t] is Left && a.links@[t]->Left_0 is OpeningRemote {
            // answered when the application has made up its mind about the link
            b.links@ == a.links@.insert(t, Either::Left(SenderLinkState::DetachedRemote)) && b.remote_handles@ == a.remote_handles@.remove(f.handle) && b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a }) && r is None
        } else {
            let err = AmqpProtocolError::LinkDetached(f.error);
            &&& b.links@ =~= a.links@.remove(t) && b.remote_handles@ == a.remote_handles@.remove(f.handle) && names_without(a.links_by_name@, b.links_by_name@, t)
            &&& b == (SessionInner { links: b.links, remote_handles: b.remote_handles, links_by_name: b.links_by_name, pending_transfers: b.pending_transfers,
                    unsettled_snd_deliveries: b.unsettled_snd_deliveries, unsettled_rcv_deliveries: b.unsettled_rcv_deliveries, sink: b.sink, ..a })
            &&& !(a.links@[t] is Left && a.links@[t]->Left_0 is Established) ==> b.pending_transfers == a.pending_transfers
            &&& !(a.links@[t] is Left && (a.links@[t]->Left_0 is Established || a.links@[t]->Left_0 is Closing)) ==> b.unsettled_snd_deliveries == a.unsettled_snd_deliveries
            &&& !(a.links@[t] is Right && (a.links@[t]->Right_0 is Established || a.links@[t]->Right_0 is Closing)) ==> b.unsettled_rcv_deliveries == a.unsettled_rcv_deliveries
            &&& match a.links@[t] {
                Either::Left(SenderLinkState::Established(l)) => {
                    &&& pend_failed(a.pending_transfers@, b.pending_transfers@, l.inner.id as u32, err)
                    &&& dlv_failed(a.unsettled_snd_deliveries@, b.unsettled_snd_deliveries@, l.inner.id as u32, err)
                    &&& snd_failed(l.inner, err)
                    &&& grew_by(a, b, 1) && detach_frame(b.sink.out().last(), a, l.inner.id as u32, true, f.error)
                    &&& r is DetachSender && r->DetachSender_0.inner.closed && r->DetachSender_0.inner.error == Some(err) && r->DetachSender_0.inner.id == l.inner.id
                }
                Either::Left(SenderLinkState::Opening(tx)) => r is None && b.sink == a.sink && (tx is Some ==> tx->0.resolved() == Some(Err::<Cell<SenderLinkInner>, AmqpProtocolError>(err))),
                Either::Left(SenderLinkState::OpeningRemote(_)) | Either::Left(SenderLinkState::DetachedRemote) => true,
                Either::Left(SenderLinkState::Closing(tx)) => r is None && b.sink == a.sink && confirmed(tx, f.error) && dlv_failed(a.unsettled_snd_deliveries@, b.unsettled_snd_deliveries@, t as u32, err),
                Either::Right(ReceiverLinkState::OpeningLocal(x)) => r is None && b.sink == a.sink && (x is Some ==> (x->0).1.resolved() == Some(Err::<ReceiverLink, AmqpProtocolError>(err))),
                Either::Right(ReceiverLinkState::Established(l)) => {
                    &&& dlv_failed(a.unsettled_rcv_deliveries@, b.unsettled_rcv_deliveries@, l.inner.handle, err)
                    &&& l.inner.reader_task.woken()
                    &&& grew_by(a, b, 1) && detach_frame(b.sink.out().last(), a, l.inner.handle, true, None)
                    &&& r is DetachReceiver && r->DetachReceiver_0.inner.closed && r->DetachReceiver_0.inner.error == f.error && r->DetachReceiver_0.inner.handle == l.inner.handle
                }
                Either::Right(ReceiverLinkState::Closing(tx)) => r is None && b.sink == a.sink && confirmed(tx, f.error) && dlv_failed(a.unsettled_rcv_deliveries@, b.unsettled_rcv_deliveries@, t as u32, err),
                Either::Right(ReceiverLinkState::Opening(o)) => {
                    &&& r is None
                    &&& *o is None ==> b.sink == a.sink
                    // the link is attached and detached again
                    &&& *o is Some ==> {
                        let s = sent(a, b);
                        &&& (*o)->0 .0.reader_task.woken()
                        &&& grew_by(a, b, 2) && detach_frame(s[1], a, (*o)->0 .0.handle, true, None)
                        &&& s[0].0 == a.id as u16 && s[0].1 is Attach && attach_of(s[0]).handle == (*o)->0 .0.handle && attach_of(s[0]).role == Role::Receiver && attach_of(s[0]).name == (*o)->0 .0.name && attach_of(s[0]).target is None
                    }
                }
            }
        }
    }
}
/// what a session does with a frame other than attach and end
pub open spec fn ses_framed(a: SessionInner, b: SessionInner, frame: Frame, r: Result<Action, AmqpProtocolError>) -> bool {
    &&& (a.error is Some ==> r is Ok && r->Ok_0 is None && b == a)
    &&& (a.error is None ==> match frame {
            Frame::Flow(f) => if f.0.handle is Some && a.remote_handles@.contains_key(f.0.handle->0) && est_snd(a, a.remote_handles@[f.0.handle->0]) {
                    r == Ok::<Action, AmqpProtocolError>(Action::Flow(a.links@[a.remote_handles@[f.0.handle->0]]->Left_0->Established_0, f)) && b.links@ =~= a.links@ && b == (SessionInner { links: b.links, ..a })
                } else {
                    r is Ok && r->Ok_0 is None && exists|s: SessionInner| #[trigger] ses_flowed(s, b, *f.0) && s == (SessionInner { links: s.links, ..a }) && s.links@ =~= links_after_flow(a, f)
                },
            Frame::Disposition(d) => r is Ok && r->Ok_0 is None && ses_disposed(a, b, *d.0),
            Frame::Transfer(t) => ses_transfer(a, b, t, r),
            Frame::Detach(d) => r is Ok && detached_by(a, b, *d.0, r->Ok_0),
            _ => r is Ok && r->Ok_0 is None && b == a,
        })
}
/// the peer opens a link this endpoint sends on: a fresh local handle is reserved, the response is prepared
pub open spec fn new_snd(a: SessionInner, b: SessionInner, attach: AttachInner, t: usize, resp: AttachInner) -> bool {
    &&& !a.links@.contains_key(t) && b.links@ == a.links@.insert(t, Either::Left(SenderLinkState::OpeningRemote(None)))
    &&& b.remote_handles@ == a.remote_handles@.insert(attach.handle, t)
    &&& b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a })
    &&& resp.handle == t as u32 && resp.role == Role::Sender && resp.name == attach.name && resp.source == attach.source && resp.target == attach.target
    &&& resp.snd_settle_mode == attach.snd_settle_mode && resp.rcv_settle_mode == attach.rcv_settle_mode && resp.initial_delivery_count == Some(if attach.initial_delivery_count is Some { attach.initial_delivery_count->0 } else { 0 })
}
/// the peer opens a link this endpoint receives on
pub open spec fn new_rcv(a: SessionInner, b: SessionInner, attach: AttachInner, resp: AttachInner, l: ReceiverLinkInner) -> bool {
    let t = a.links.next();
    &&& !a.links@.contains_key(t)
    &&& b.links@ == a.links@.insert(t, b.links@[t]) && b.links@[t] is Right && b.links@[t]->Right_0 is Opening
    &&& (*b.links@[t]->Right_0->Opening_0) is Some && (*b.links@[t]->Right_0->Opening_0)->0 .0 == l
    &&& rcv_fresh(l, t as u32, attach.handle, attach)
    &&& b.remote_handles@ == a.remote_handles@.insert(attach.handle, t)
    &&& b == (SessionInner { links: b.links, remote_handles: b.remote_handles, ..a })
    &&& resp.handle == t as u32 && resp.role == Role::Receiver && resp.name == attach.name && resp.source == attach.source && resp.target == attach.target
}
/// a session as it is when it becomes established
pub open spec fn ses_new(r: SessionInner, id: usize, local: bool, sink: ConnectionRef, ch: u16, begin: Begin) -> bool {
    &&& r.id == id && r.sink == sink && r.remote_channel_id == ch && r.begin == begin && r.flags == (Flags { local, ended: false, ending: false })
    &&& r.next_outgoing_id == 1 && r.next_incoming_id == begin.0.next_outgoing_id && r.remote_incoming_window == begin.0.incoming_window && r.remote_outgoing_window == begin.0.outgoing_window
    &&& r.links@ == Map::<usize, LinkState>::empty() && r.links_by_name@ == Map::<ByteString, usize>::empty() && r.remote_handles@ == Map::<Handle, usize>::empty() && r.pending_transfers@.len() == 0
    &&& r.unsettled_snd_deliveries@ == Map::<DeliveryNumber, DeliveryInner>::empty() && r.unsettled_rcv_deliveries@ == Map::<DeliveryNumber, DeliveryInner>::empty() && r.error is None
}
pub enum Ready<E> { Ok(()), Err(E) }

//@impl src/session.rs Session
//@method new
    ensures r.inner == inner
//@method connection
    ensures *r == self.inner.sink
//@method local_channel_id
//@method remote_channel_id
    ensures r == self.inner.remote_channel_id
//@method remote_window_size
    ensures r == self.inner.remote_incoming_window
//@end
//@impl src/session.rs SenderLinkState
//@method is_opening
    ensures r == (self is Opening)
//@end
//@impl src/session.rs ReceiverLinkState
//@method is_opening
    ensures r == (self is OpeningLocal)
//@end
/// what is reported as the links of a session: exactly the established ones
pub open spec fn listed(st: LinkState) -> bool { (st is Left && st->Left_0 is Established) || (st is Right && st->Right_0 is Established) }
pub open spec fn lists(st: LinkState, e: Either<SenderLink, ReceiverLink>) -> bool {
    (st is Left && st->Left_0 is Established && e == Either::<SenderLink, ReceiverLink>::Left(st->Left_0->Established_0))
        || (st is Right && st->Right_0 is Established && e == Either::<SenderLink, ReceiverLink>::Right(st->Right_0->Established_0))
}
pub open spec fn all_listed(m: Map<usize, LinkState>, r: Seq<Either<SenderLink, ReceiverLink>>) -> bool {
    forall|k: usize| #[trigger] m.contains_key(k) && listed(m[k]) ==> exists|i: int| 0 <= i < r.len() && lists(m[k], #[trigger] r[i])
}
/// a link opened by the peer is accepted by the application
pub open spec fn snd_accepted(a: SessionInner, b: SessionInner, attach: Attach, response: Attach, link: SenderLinkInner, r: SenderLink) -> bool {
            let t = link.id;
            let f = b.sink.out().last();
            if a.links@.contains_key(t) && a.links@[t] is Left && a.links@[t]->Left_0 is OpeningRemote {
                &&& est_snd(b, t) && b.links@ == a.links@.insert(t, b.links@[t]) && b.links@[t]->Left_0->Established_0.inner == link
                &&& match a.links@[t]->Left_0->OpeningRemote_0 { Some(flow) => flow_applied(link, r.inner, *flow.0), None => r.inner == link }
                &&& b.remote_handles@ == a.remote_handles@.insert(attach.0.handle, t)
                &&& b == (SessionInner { links: b.links, remote_handles: b.remote_handles, links_by_name: b.links_by_name, sink: b.sink, ..a })
                &&& grew(a, b, 1) && (quiet(a) || f.0 == a.id as u16 && f.1 is Attach && attach_of(f) == (AttachInner { handle: t as u32, max_message_size: attach_of(f).max_message_size, ..*response.0 }))
                &&& quiet(a) || attach_of(f).max_message_size == (match link.max_message_size { Some(x) => Some(x as u64), None => None })
            } else if a.links@.contains_key(t) && a.links@[t] is Left && a.links@[t]->Left_0 is DetachedRemote {
                // the peer has detached the link in the meantime
                let s = sent(a, b);
                &&& b.links@ == a.links@.remove(t) && b == (SessionInner { links: b.links, sink: b.sink, ..a })
                &&& r.inner.closed && r.inner.error is Some && snd_failed(link, r.inner.error->0)
                &&& grew(a, b, 2) && is_detach(s[1], a, t as u32, true, None)
                &&& quiet(a) || s[0].0 == a.id as u16 && s[0].1 is Attach && attach_of(s[0]) == (AttachInner { handle: t as u32, ..*response.0 })
            } else {
                b == a && r.inner.closed && r.inner.error is Some && snd_failed(link, r.inner.error->0) && (a.error is Some ==> r.inner.error == a.error)
            }
}
pub open spec fn snd_accepted_any(a: SessionInner, b: SessionInner, attach: Attach, response: Attach, link: SenderLinkInner) -> bool { exists|x: SenderLink| #[trigger] snd_accepted(a, b, attach, response, link, x) }
/// it is refused
pub open spec fn snd_refused(a: SessionInner, b: SessionInner, attach: Attach, link: SenderLinkInner, error: Option<Error>) -> bool {
            let t = link.id;
            let f = sent(a, b);
            &&& b.links@ =~= (if a.links@.contains_key(t) && a.links@[t] is Left && a.links@[t]->Left_0 is DetachedRemote { a.links@.remove(t) } else if a.links@.contains_key(t) { a.links@.insert(t, Either::Left(SenderLinkState::Closing(None))) } else { a.links@ })
            &&& b == (SessionInner { links: b.links, sink: b.sink, ..a })
            &&& grew(a, b, 2) && is_detach(f[1], a, t as u32, true, error)
            &&& quiet(a) || f[0].0 == a.id as u16 && f[0].1 is Attach && attach_of(f[0]).handle == t as u32 && attach_of(f[0]).name == attach.0.name && attach_of(f[0]).source is None && attach_of(f[0]).target is None
                && attach_of(f[0]).role == Role::Sender && attach_of(f[0]).initial_delivery_count == Some(match attach.0.initial_delivery_count { Some(c) => c, None => 0u32 })
}
//@impl src/session.rs SessionInner
//@method new
    ensures ses_new(r, id, local, sink, remote_channel_id, begin)
//@method id
    ensures r == self.id as u16
//@method max_frame_size
    ensures r == self.sink.0.max_frame_size
//@method unsettled_deliveries
    ensures *r == (if sender { old(self).unsettled_snd_deliveries } else { old(self).unsettled_rcv_deliveries }),
        *final(self) == (if sender { SessionInner { unsettled_snd_deliveries: *final(r), ..*old(self) } } else { SessionInner { unsettled_rcv_deliveries: *final(r), ..*old(self) } })
//@method post_frame
    ensures posted(*old(self), *final(self), frame)
//@method set_error
    ensures
        final(self).error == Some(err), final(self).flags == (Flags { ended: true, ..old(self).flags }), final(self).closed.released(),
        final(self).pending_transfers@.len() == 0, final(self).unsettled_snd_deliveries@ == Map::<DeliveryNumber, DeliveryInner>::empty(),
        final(self).unsettled_rcv_deliveries@ == Map::<DeliveryNumber, DeliveryInner>::empty(),
        final(self).links@ == Map::<usize, Either<SenderLinkState, ReceiverLinkState>>::empty(), final(self).links_by_name@ == Map::<ByteString, usize>::empty(),
        *final(self) == (SessionInner { error: final(self).error, flags: final(self).flags, pending_transfers: final(self).pending_transfers,
            unsettled_snd_deliveries: final(self).unsettled_snd_deliveries, unsettled_rcv_deliveries: final(self).unsettled_rcv_deliveries, links: final(self).links, links_by_name: final(self).links_by_name, ..*old(self) }),
        ses_failed(*old(self), err),
//@preloop 0
    let ghost __s0 = *self;
    let ghost __a0 = __it0.all();
//@loop 0
    invariant __it0.all() == __a0, __it0.pos() == __k0, __k0 <= __end0, __end0 == __it0.all().len(), *self == __s0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] __a0[i]).tx.resolved() == failed(err),
    decreases __end0 - __k0
//@preloop 1
    let ghost __s1 = *self;
    let ghost __a1 = __it1.all();
//@loop 1
    invariant __it1.all() == __a1, __it1.pos() == __k1, __k1 <= __end1, __end1 == __it1.all().len(), *self == __s1,
        forall|i: int| 0 <= i < __k1 ==> dlv_notified((#[trigger] __a1[i]).1),
    decreases __end1 - __k1
//@preloop 2
    let ghost __s2 = *self;
    let ghost __a2 = __it2.all();
//@loop 2
    invariant __it2.all() == __a2, __it2.pos() == __k2, __k2 <= __end2, __end2 == __it2.all().len(), *self == __s2,
        forall|i: int| 0 <= i < __k2 ==> dlv_notified((#[trigger] __a2[i]).1),
    decreases __end2 - __k2
//@preloop 3
    let ghost __s3 = *self;
//@loop 3
    invariant __k3 <= __it3@.len(), __it3@.no_duplicates(),
        forall|k: usize| #[trigger] __s3.links@.contains_key(k) <==> __it3@.contains(k),
        forall|k: usize| #[trigger] __s3.links@.contains_key(k) <==> self.links@.contains_key(k),
        forall|i: int| __k3 <= i < __it3@.len() ==> self.links@[#[trigger] __it3@[i]] == __s3.links@[__it3@[i]],
        forall|i: int| 0 <= i < __k3 ==> link_failed(__s3.links@[#[trigger] __it3@[i]], err),
        *self == (SessionInner { links: self.links, ..__s3 }),
    decreases __it3@.len() - __k3
//@loopstart 3
    proof { assert(__s3.links@.contains_key(__it3@[__k3 as int])); }
//@method end
    ensures r is SessionEnded, all_listed(old(self).links@, r->SessionEnded_0@), ses_failed(*old(self), err), final(self).error == Some(err), final(self).flags.ended, final(self).sink == old(self).sink, final(self).links@ == Map::<usize, LinkState>::empty(), final(self).pending_transfers@.len() == 0
//@method get_all_links
    ensures all_listed(self.links@, r@)
//@loop 0
    invariant __k0 <= __it0@.len(), __it0.map() == self.links@, __it0@.no_duplicates(), forall|k: usize| #[trigger] self.links@.contains_key(k) <==> __it0@.contains(k),
        forall|i: int| 0 <= i < __k0 && listed(self.links@[#[trigger] __it0@[i]]) ==> exists|j: int| 0 <= j < __v@.len() && lists(self.links@[__it0@[i]], #[trigger] __v@[j]),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { assert(self.links@.contains_key(__it0@[__k0 as int])); }
    let ghost __w = __v@;
//@loopend 0
    proof {
        assert forall|i: int| 0 <= i < __k0 && listed(self.links@[#[trigger] __it0@[i]]) implies exists|j: int| 0 <= j < __v@.len() && lists(self.links@[__it0@[i]], #[trigger] __v@[j]) by {
            if i < __k0 - 1 {
                let j = choose|j: int| 0 <= j < __w.len() && lists(self.links@[__it0@[i]], #[trigger] __w[j]);
                assert(lists(self.links@[__it0@[i]], __v@[j]));
            } else { assert(lists(self.links@[__it0@[i]], __v@[__v@.len() - 1])); }
        }
    }
//@method new_remote_sender
    ensures new_snd(*old(self), *final(self), *attach.0, r.0, *r.1.0)
//@method attach_local_sender_link
    ensures old(self).error is Some ==> *final(self) == *old(self) && r.of().resolved() is Some && r.of().resolved()->0 is Err,
        old(self).error is None ==> ({
            let t = old(self).links.next();
            let f = final(self).sink.out().last();
            &&& !old(self).links@.contains_key(t)
            &&& final(self).links@ == old(self).links@.insert(t, Either::Left(SenderLinkState::Opening(Some(r.of()))))
            &&& final(self).links_by_name@ == old(self).links_by_name@.insert(frame.0.name, t)
            &&& *final(self) == (SessionInner { links: final(self).links, links_by_name: final(self).links_by_name, sink: final(self).sink, ..*old(self) })
            &&& grew(*old(self), *final(self), 1) && (quiet(*old(self)) || f.0 == old(self).id as u16 && f.1 is Attach && attach_of(f) == (AttachInner { handle: t as u32, ..*frame.0 }))
        }),
//@method attach_remote_sender_link
    ensures snd_accepted(*old(self), *final(self), *attach, response, link, r), snd_accepted_any(*old(self), *final(self), *attach, response, link),
//@method detach_sender_link
    ensures snd_detach(*old(self), *final(self), id, closed, error, tx)
//@preloop 0
    let ghost __p0 = self.pending_transfers@;
    let ghost __s0 = *self;
    let ghost __pn = other_link(id);
//@loop 0
    invariant idx <= self.pending_transfers@.len(), self.pending_transfers@.filter(__pn) == __p0.filter(__pn), __pn == other_link(id),
        forall|j: int| 0 <= j < idx ==> (#[trigger] self.pending_transfers@[j]).link_handle != id,
        forall|i: int| 0 <= i < __p0.len() && (#[trigger] __p0[i]).link_handle == id ==> __p0[i].tx.resolved() == failed(AmqpProtocolError::LinkDetached(None)) || self.pending_transfers@.contains(__p0[i]),
        *self == (SessionInner { pending_transfers: self.pending_transfers, ..__s0 }),
    decreases self.pending_transfers@.len() - idx
//@loopstart 0
    let ghost __c = self.pending_transfers@;
//@loopend 0
    proof {
        if self.pending_transfers@.len() != __c.len() {
            lemma_filter_remove(__c, idx as int, __pn);
            assert forall|i: int| 0 <= i < __p0.len() && (#[trigger] __p0[i]).link_handle == id implies __p0[i].tx.resolved() == failed(AmqpProtocolError::LinkDetached(None)) || self.pending_transfers@.contains(__p0[i]) by {
                if __c.contains(__p0[i]) {
                    let j = choose|j: int| 0 <= j < __c.len() && __c[j] == __p0[i];
                    if j != idx { assert(self.pending_transfers@[if j < idx { j } else { j - 1 }] == __c[j]); }
                }
            }
        }
    }
//@postloop 0
    proof {
        lemma_filter_all(self.pending_transfers@, __pn);
    }
//@method detach_unconfirmed_sender_link
    ensures snd_refused(*old(self), *final(self), *attach, *link, error),
//@method get_sender_link_by_local_handle
    ensures match r { Some(l) => est_snd(*self, hnd as usize) && *l == self.links@[hnd as usize]->Left_0->Established_0, None => !est_snd(*self, hnd as usize) }
//@method get_sender_link_by_remote_handle
    ensures match r { Some(l) => self.remote_handles@.contains_key(hnd) && est_snd(*self, self.remote_handles@[hnd]) && *l == self.links@[self.remote_handles@[hnd]]->Left_0->Established_0,
            None => !(self.remote_handles@.contains_key(hnd) && est_snd(*self, self.remote_handles@[hnd])) }
//@method attach_remote_receiver_link
    ensures new_rcv(*old(self), *final(self), *attach.0, *r.0.0, r.1.inner)
//@method attach_local_receiver_link
    ensures old(self).error is Some ==> *final(self) == *old(self) && r.of().resolved() is Some && r.of().resolved()->0 is Err,
        old(self).error is None ==> ({
            let t = old(self).links.next();
            let f = final(self).sink.out().last();
            &&& !old(self).links@.contains_key(t)
            &&& final(self).links@ == old(self).links@.insert(t, final(self).links@[t]) && final(self).links@[t] is Right && final(self).links@[t]->Right_0 is OpeningLocal
            &&& final(self).links@[t]->Right_0->OpeningLocal_0 is Some && final(self).links@[t]->Right_0->OpeningLocal_0->0 .1 == r.of() && final(self).links@[t]->Right_0->OpeningLocal_0->0 .0.handle == t as u32
            &&& rcv_fresh(final(self).links@[t]->Right_0->OpeningLocal_0->0 .0, t as u32, t as u32, *frame.0)
            &&& final(self).links_by_name@ == old(self).links_by_name@.insert(frame.0.name, t)
            &&& *final(self) == (SessionInner { links: final(self).links, links_by_name: final(self).links_by_name, sink: final(self).sink, ..*old(self) })
            &&& grew(*old(self), *final(self), 1) && (quiet(*old(self)) || f.0 == old(self).id as u16 && f.1 is Attach && attach_of(f) == (AttachInner { handle: t as u32, ..*frame.0 }))
        }),
//@method confirm_receiver_link
    ensures ({
            let t = token as usize;
            let f = final(self).sink.out().last();
            if old(self).links@.contains_key(t) && old(self).links@[t] is Right && old(self).links@[t]->Right_0 is Opening && (*old(self).links@[t]->Right_0->Opening_0) is Some {
                &&& est_rcv(*final(self), t) && final(self).links@ == old(self).links@.insert(t, final(self).links@[t]) && final(self).links@[t]->Right_0->Established_0.inner == (*old(self).links@[t]->Right_0->Opening_0)->0 .0
                &&& *final(self) == (SessionInner { links: final(self).links, sink: final(self).sink, ..*old(self) })
                &&& grew(*old(self), *final(self), 1) && (quiet(*old(self)) || f.0 == old(self).id as u16 && f.1 is Attach && attach_of(f) == (AttachInner { max_message_size, ..*response.0 }))
            } else {
                final(self).links@ == old(self).links@ && *final(self) == (SessionInner { links: final(self).links, ..*old(self) })
            }
        }),
//@method detach_receiver_link
    ensures rcv_detach(*old(self), *final(self), id, closed, error, tx)
//@method get_receiver_link_by_local_handle
    ensures match r { Some(l) => est_rcv(*self, hnd as usize) && *l == self.links@[hnd as usize]->Right_0->Established_0, None => !est_rcv(*self, hnd as usize) }
//@method get_receiver_link_by_remote_handle
    ensures match r { Some(l) => self.remote_handles@.contains_key(hnd) && est_rcv(*self, self.remote_handles@[hnd]) && *l == self.links@[self.remote_handles@[hnd]]->Right_0->Established_0,
            None => !(self.remote_handles@.contains_key(hnd) && est_rcv(*self, self.remote_handles@[hnd])) }
//@method handle_frame
    ensures ses_framed(*old(self), *final(self), frame, r)
//@method handle_attach mutbind=link
    ensures ses_attach(*old(self), *final(self), *attach.0, cell, r)
//@method handle_detach mutbind=inner
    ensures detached_by(*old(self), *final(self), *frame.0, r),
//@attrs
#[verifier::rlimit(80)]
#[verifier::spinoff_prover]
//@preloop 0
    let ghost __q0 = SessionInner { links: old(self).links, id: self.id, sink: self.sink, next_outgoing_id: self.next_outgoing_id, flags: self.flags, begin: self.begin, remote_channel_id: self.remote_channel_id, next_incoming_id: self.next_incoming_id, remote_outgoing_window: self.remote_outgoing_window, remote_incoming_window: self.remote_incoming_window, links_by_name: self.links_by_name, remote_handles: self.remote_handles, error: self.error, closed: self.closed, unsettled_snd_deliveries: self.unsettled_snd_deliveries, unsettled_rcv_deliveries: self.unsettled_rcv_deliveries, pending_transfers: self.pending_transfers, pool_notify: self.pool_notify, pool_credit: self.pool_credit };
    let ghost __p0 = self.pending_transfers@;
    let ghost __hd = handle;
    let ghost __er = err;
    let ghost __pn = other_link(__hd);
//@loop 0
    invariant idx <= self.pending_transfers@.len(), self.pending_transfers@.filter(__pn) == __p0.filter(__pn), __pn == other_link(__hd), handle == __hd, err == __er,
        forall|j: int| 0 <= j < idx ==> (#[trigger] self.pending_transfers@[j]).link_handle != __hd,
        forall|i: int| 0 <= i < __p0.len() && (#[trigger] __p0[i]).link_handle == __hd ==> __p0[i].tx.resolved() == failed(__er) || self.pending_transfers@.contains(__p0[i]),
        self.id == __q0.id, self.sink == __q0.sink, self.next_outgoing_id == __q0.next_outgoing_id, self.flags == __q0.flags, self.begin == __q0.begin, self.remote_channel_id == __q0.remote_channel_id, self.next_incoming_id == __q0.next_incoming_id, self.remote_outgoing_window == __q0.remote_outgoing_window, self.remote_incoming_window == __q0.remote_incoming_window, self.links_by_name == __q0.links_by_name, self.remote_handles == __q0.remote_handles, self.error == __q0.error, self.closed == __q0.closed, self.unsettled_snd_deliveries == __q0.unsettled_snd_deliveries, self.unsettled_rcv_deliveries == __q0.unsettled_rcv_deliveries, self.pool_notify == __q0.pool_notify, self.pool_credit == __q0.pool_credit,
    decreases self.pending_transfers@.len() - idx
//@loopstart 0
    let ghost __c = self.pending_transfers@;
//@loopend 0
    proof {
        if self.pending_transfers@.len() != __c.len() {
            lemma_filter_remove(__c, idx as int, __pn);
            assert forall|i: int| 0 <= i < __p0.len() && (#[trigger] __p0[i]).link_handle == __hd implies __p0[i].tx.resolved() == failed(__er) || self.pending_transfers@.contains(__p0[i]) by {
                if __c.contains(__p0[i]) {
                    let j = choose|j: int| 0 <= j < __c.len() && __c[j] == __p0[i];
                    if j != idx { assert(self.pending_transfers@[if j < idx { j } else { j - 1 }] == __c[j]); }
                }
            }
        }
    }
//@postloop 0
    proof { lemma_filter_all(self.pending_transfers@, __pn); }
//@loop 1
    invariant __k0 <= __it0@.len(), __it0@.no_duplicates(), handle == __h1,
        forall|k: DeliveryNumber| #[trigger] __d1.contains_key(k) <==> __it0@.contains(k),
        forall|k: DeliveryNumber| #[trigger] __d1.contains_key(k) <==> self.unsettled_snd_deliveries@.contains_key(k),
        forall|i: int| __k0 <= i < __it0@.len() ==> self.unsettled_snd_deliveries@[#[trigger] __it0@[i]] == __d1[__it0@[i]],
        forall|i: int| 0 <= i < __k0 ==> #[trigger] one_failed(__d1, self.unsettled_snd_deliveries@, __it0@[i], __h1, err),
        self.id == __q1.id, self.sink == __q1.sink, self.next_outgoing_id == __q1.next_outgoing_id, self.flags == __q1.flags, self.begin == __q1.begin, self.remote_channel_id == __q1.remote_channel_id, self.next_incoming_id == __q1.next_incoming_id, self.remote_outgoing_window == __q1.remote_outgoing_window, self.remote_incoming_window == __q1.remote_incoming_window, self.links_by_name == __q1.links_by_name, self.remote_handles == __q1.remote_handles, self.error == __q1.error, self.closed == __q1.closed, self.unsettled_rcv_deliveries == __q1.unsettled_rcv_deliveries, self.pending_transfers == __q1.pending_transfers, self.pool_notify == __q1.pool_notify, self.pool_credit == __q1.pool_credit,
    decreases __it0@.len() - __k0
//@preloop 1
    let ghost __q1 = SessionInner { links: old(self).links, id: self.id, sink: self.sink, next_outgoing_id: self.next_outgoing_id, flags: self.flags, begin: self.begin, remote_channel_id: self.remote_channel_id, next_incoming_id: self.next_incoming_id, remote_outgoing_window: self.remote_outgoing_window, remote_incoming_window: self.remote_incoming_window, links_by_name: self.links_by_name, remote_handles: self.remote_handles, error: self.error, closed: self.closed, unsettled_snd_deliveries: self.unsettled_snd_deliveries, unsettled_rcv_deliveries: self.unsettled_rcv_deliveries, pending_transfers: self.pending_transfers, pool_notify: self.pool_notify, pool_credit: self.pool_credit };
    let ghost __d1 = self.unsettled_snd_deliveries@;
    let ghost __h1 = handle;
//@loopstart 1
    let ghost __pre = self.unsettled_snd_deliveries@;
    proof { assert(__d1.contains_key(__it0@[__k0 as int])); }
//@loopend 1
    proof { assert forall|i: int| 0 <= i < __k0 implies #[trigger] one_failed(__d1, self.unsettled_snd_deliveries@, __it0@[i], __h1, err) by { if i < __k0 - 1 { assert(__it0@[i] != __it0@[__k0 - 1]); assert(__d1.contains_key(__it0@[i])); assert(one_failed(__d1, __pre, __it0@[i], __h1, err)); } } }
//@postloop 1
    proof { assert forall|k: DeliveryNumber| #[trigger] __d1.contains_key(k) implies one_failed(__d1, self.unsettled_snd_deliveries@, k, __h1, err) by { let i = choose|i: int| 0 <= i < __it0@.len() && __it0@[i] == k; assert(one_failed(__d1, self.unsettled_snd_deliveries@, __it0@[i], __h1, err)); } assert(dlv_failed(__d1, self.unsettled_snd_deliveries@, __h1, err)); }
//@loop 2
    invariant __k1 <= __it1@.len(), __it1@.no_duplicates(), idx as u32 == __h2,
        forall|k: DeliveryNumber| #[trigger] __d2.contains_key(k) <==> __it1@.contains(k),
        forall|k: DeliveryNumber| #[trigger] __d2.contains_key(k) <==> self.unsettled_snd_deliveries@.contains_key(k),
        forall|i: int| __k1 <= i < __it1@.len() ==> self.unsettled_snd_deliveries@[#[trigger] __it1@[i]] == __d2[__it1@[i]],
        forall|i: int| 0 <= i < __k1 ==> #[trigger] one_failed(__d2, self.unsettled_snd_deliveries@, __it1@[i], __h2, err),
        self.id == __q2.id, self.sink == __q2.sink, self.next_outgoing_id == __q2.next_outgoing_id, self.flags == __q2.flags, self.begin == __q2.begin, self.remote_channel_id == __q2.remote_channel_id, self.next_incoming_id == __q2.next_incoming_id, self.remote_outgoing_window == __q2.remote_outgoing_window, self.remote_incoming_window == __q2.remote_incoming_window, self.links_by_name == __q2.links_by_name, self.remote_handles == __q2.remote_handles, self.error == __q2.error, self.closed == __q2.closed, self.unsettled_rcv_deliveries == __q2.unsettled_rcv_deliveries, self.pending_transfers == __q2.pending_transfers, self.pool_notify == __q2.pool_notify, self.pool_credit == __q2.pool_credit,
    decreases __it1@.len() - __k1
//@preloop 2
    let ghost __q2 = SessionInner { links: old(self).links, id: self.id, sink: self.sink, next_outgoing_id: self.next_outgoing_id, flags: self.flags, begin: self.begin, remote_channel_id: self.remote_channel_id, next_incoming_id: self.next_incoming_id, remote_outgoing_window: self.remote_outgoing_window, remote_incoming_window: self.remote_incoming_window, links_by_name: self.links_by_name, remote_handles: self.remote_handles, error: self.error, closed: self.closed, unsettled_snd_deliveries: self.unsettled_snd_deliveries, unsettled_rcv_deliveries: self.unsettled_rcv_deliveries, pending_transfers: self.pending_transfers, pool_notify: self.pool_notify, pool_credit: self.pool_credit };
    let ghost __d2 = self.unsettled_snd_deliveries@;
    let ghost __h2 = idx as u32;
//@loopstart 2
    let ghost __pre = self.unsettled_snd_deliveries@;
    proof { assert(__d2.contains_key(__it1@[__k1 as int])); }
//@loopend 2
    proof { assert forall|i: int| 0 <= i < __k1 implies #[trigger] one_failed(__d2, self.unsettled_snd_deliveries@, __it1@[i], __h2, err) by { if i < __k1 - 1 { assert(__it1@[i] != __it1@[__k1 - 1]); assert(__d2.contains_key(__it1@[i])); assert(one_failed(__d2, __pre, __it1@[i], __h2, err)); } } }
//@postloop 2
    proof { assert forall|k: DeliveryNumber| #[trigger] __d2.contains_key(k) implies one_failed(__d2, self.unsettled_snd_deliveries@, k, __h2, err) by { let i = choose|i: int| 0 <= i < __it1@.len() && __it1@[i] == k; assert(one_failed(__d2, self.unsettled_snd_deliveries@, __it1@[i], __h2, err)); } assert(dlv_failed(__d2, self.unsettled_snd_deliveries@, __h2, err)); }
//@loop 3
    invariant __k2 <= __it2@.len(), __it2@.no_duplicates(), handle == __h3,
        forall|k: DeliveryNumber| #[trigger] __d3.contains_key(k) <==> __it2@.contains(k),
        forall|k: DeliveryNumber| #[trigger] __d3.contains_key(k) <==> self.unsettled_rcv_deliveries@.contains_key(k),
        forall|i: int| __k2 <= i < __it2@.len() ==> self.unsettled_rcv_deliveries@[#[trigger] __it2@[i]] == __d3[__it2@[i]],
        forall|i: int| 0 <= i < __k2 ==> #[trigger] one_failed(__d3, self.unsettled_rcv_deliveries@, __it2@[i], __h3, err),
        self.id == __q3.id, self.sink == __q3.sink, self.next_outgoing_id == __q3.next_outgoing_id, self.flags == __q3.flags, self.begin == __q3.begin, self.remote_channel_id == __q3.remote_channel_id, self.next_incoming_id == __q3.next_incoming_id, self.remote_outgoing_window == __q3.remote_outgoing_window, self.remote_incoming_window == __q3.remote_incoming_window, self.links_by_name == __q3.links_by_name, self.remote_handles == __q3.remote_handles, self.error == __q3.error, self.closed == __q3.closed, self.unsettled_snd_deliveries == __q3.unsettled_snd_deliveries, self.pending_transfers == __q3.pending_transfers, self.pool_notify == __q3.pool_notify, self.pool_credit == __q3.pool_credit,
    decreases __it2@.len() - __k2
//@preloop 3
    let ghost __q3 = SessionInner { links: old(self).links, id: self.id, sink: self.sink, next_outgoing_id: self.next_outgoing_id, flags: self.flags, begin: self.begin, remote_channel_id: self.remote_channel_id, next_incoming_id: self.next_incoming_id, remote_outgoing_window: self.remote_outgoing_window, remote_incoming_window: self.remote_incoming_window, links_by_name: self.links_by_name, remote_handles: self.remote_handles, error: self.error, closed: self.closed, unsettled_snd_deliveries: self.unsettled_snd_deliveries, unsettled_rcv_deliveries: self.unsettled_rcv_deliveries, pending_transfers: self.pending_transfers, pool_notify: self.pool_notify, pool_credit: self.pool_credit };
    let ghost __d3 = self.unsettled_rcv_deliveries@;
    let ghost __h3 = handle;
//@loopstart 3
    let ghost __pre = self.unsettled_rcv_deliveries@;
    proof { assert(__d3.contains_key(__it2@[__k2 as int])); }
//@loopend 3
    proof { assert forall|i: int| 0 <= i < __k2 implies #[trigger] one_failed(__d3, self.unsettled_rcv_deliveries@, __it2@[i], __h3, err) by { if i < __k2 - 1 { assert(__it2@[i] != __it2@[__k2 - 1]); assert(__d3.contains_key(__it2@[i])); assert(one_failed(__d3, __pre, __it2@[i], __h3, err)); } } }
//@postloop 3
    proof { assert forall|k: DeliveryNumber| #[trigger] __d3.contains_key(k) implies one_failed(__d3, self.unsettled_rcv_deliveries@, k, __h3, err) by { let i = choose|i: int| 0 <= i < __it2@.len() && __it2@[i] == k; assert(one_failed(__d3, self.unsettled_rcv_deliveries@, __it2@[i], __h3, err)); } assert(dlv_failed(__d3, self.unsettled_rcv_deliveries@, __h3, err)); }
//@loop 4
    invariant __k3 <= __it3@.len(), __it3@.no_duplicates(), idx as u32 == __h4,
        forall|k: DeliveryNumber| #[trigger] __d4.contains_key(k) <==> __it3@.contains(k),
        forall|k: DeliveryNumber| #[trigger] __d4.contains_key(k) <==> self.unsettled_rcv_deliveries@.contains_key(k),
        forall|i: int| __k3 <= i < __it3@.len() ==> self.unsettled_rcv_deliveries@[#[trigger] __it3@[i]] == __d4[__it3@[i]],
        forall|i: int| 0 <= i < __k3 ==> #[trigger] one_failed(__d4, self.unsettled_rcv_deliveries@, __it3@[i], __h4, err),
        self.id == __q4.id, self.sink == __q4.sink, self.next_outgoing_id == __q4.next_outgoing_id, self.flags == __q4.flags, self.begin == __q4.begin, self.remote_channel_id == __q4.remote_channel_id, self.next_incoming_id == __q4.next_incoming_id, self.remote_outgoing_window == __q4.remote_outgoing_window, self.remote_incoming_window == __q4.remote_incoming_window, self.links_by_name == __q4.links_by_name, self.remote_handles == __q4.remote_handles, self.error == __q4.error, self.closed == __q4.closed, self.unsettled_snd_deliveries == __q4.unsettled_snd_deliveries, self.pending_transfers == __q4.pending_transfers, self.pool_notify == __q4.pool_notify, self.pool_credit == __q4.pool_credit,
    decreases __it3@.len() - __k3
//@preloop 4
    let ghost __q4 = SessionInner { links: old(self).links, id: self.id, sink: self.sink, next_outgoing_id: self.next_outgoing_id, flags: self.flags, begin: self.begin, remote_channel_id: self.remote_channel_id, next_incoming_id: self.next_incoming_id, remote_outgoing_window: self.remote_outgoing_window, remote_incoming_window: self.remote_incoming_window, links_by_name: self.links_by_name, remote_handles: self.remote_handles, error: self.error, closed: self.closed, unsettled_snd_deliveries: self.unsettled_snd_deliveries, unsettled_rcv_deliveries: self.unsettled_rcv_deliveries, pending_transfers: self.pending_transfers, pool_notify: self.pool_notify, pool_credit: self.pool_credit };
    let ghost __d4 = self.unsettled_rcv_deliveries@;
    let ghost __h4 = idx as u32;
//@loopstart 4
    let ghost __pre = self.unsettled_rcv_deliveries@;
    proof { assert(__d4.contains_key(__it3@[__k3 as int])); }
//@loopend 4
    proof { assert forall|i: int| 0 <= i < __k3 implies #[trigger] one_failed(__d4, self.unsettled_rcv_deliveries@, __it3@[i], __h4, err) by { if i < __k3 - 1 { assert(__it3@[i] != __it3@[__k3 - 1]); assert(__d4.contains_key(__it3@[i])); assert(one_failed(__d4, __pre, __it3@[i], __h4, err)); } } }
//@postloop 4
    proof { assert forall|k: DeliveryNumber| #[trigger] __d4.contains_key(k) implies one_failed(__d4, self.unsettled_rcv_deliveries@, k, __h4, err) by { let i = choose|i: int| 0 <= i < __it3@.len() && __it3@[i] == k; assert(one_failed(__d4, self.unsettled_rcv_deliveries@, __it3@[i], __h4, err)); } assert(dlv_failed(__d4, self.unsettled_rcv_deliveries@, __h4, err)); }
//@method settle_deliveries
    ensures ses_disposed(*old(self), *final(self), *disp.0)
//@before let __it0
    let ghost __m0 = deliveries@;
//@loop 0
    invariant __k0 <= __it0@.len(), __it0@.no_duplicates(), count == dist(from, to), count <= i32::MAX, from == disp.0.first, disp.0.last == Some(to),
        forall|k: DeliveryNumber| #[trigger] __m0.contains_key(k) <==> __it0@.contains(k),
        forall|k: DeliveryNumber| #[trigger] __m0.contains_key(k) <==> deliveries@.contains_key(k),
        forall|i: int| __k0 <= i < __it0@.len() ==> deliveries@[#[trigger] __it0@[i]] == __m0[__it0@[i]],
        forall|i: int| 0 <= i < __k0 ==> #[trigger] one_settled(__m0, deliveries@, __it0@[i], *disp.0),
    decreases __it0@.len() - __k0
//@loopstart 0
    let ghost __pre = deliveries@;
    proof { assert(__m0.contains_key(__it0@[__k0 as int])); }
//@loopend 0
    proof { assert forall|i: int| 0 <= i < __k0 implies #[trigger] one_settled(__m0, deliveries@, __it0@[i], *disp.0) by { if i < __k0 - 1 { assert(__it0@[i] != __it0@[__k0 - 1]); assert(__m0.contains_key(__it0@[i])); assert(one_settled(__m0, __pre, __it0@[i], *disp.0)); } } }
//@postloop 0
    proof { assert forall|k: DeliveryNumber| #[trigger] __m0.contains_key(k) implies one_settled(__m0, deliveries@, k, *disp.0) by { let i = choose|i: int| 0 <= i < __it0@.len() && __it0@[i] == k; assert(one_settled(__m0, deliveries@, __it0@[i], *disp.0)); } }
//@method handle_flow $Option<&SenderLink>="Option<&mut SenderLink>"
    ensures ses_flowed(*old(self), *final(self), *flow.0),
        link is Some ==> flow_applied(link->0.inner, final(link->0).inner, *flow.0),
//@preloop 0
    let ghost __s0 = *self;
    let ghost __a0 = __it0.all();
//@loop 0
    invariant __it0.all() == __a0, __it0.pos() == __k0, __k0 <= __end0, __end0 == __it0.all().len(), *self == __s0,
        forall|i: int| 0 <= i < __k0 ==> (#[trigger] __a0[i]).tx.resolved() == Some(Ok::<(), AmqpProtocolError>(())),
    decreases __end0 - __k0
//@method rcv_link_flow
    ensures posted(*old(self), *final(self), final(self).sink.out().last().1), quiet(*old(self)) || final(self).sink.out().last().1 is Flow,
        flow_answer0(final(self).sink.out().last(), *final(self), Some(handle), Some(delivery_count), Some(credit)), quiet(*old(self)) || flow_of(final(self).sink.out().last()).next_incoming_id == Some(old(self).next_incoming_id)
//@method wait_window
    ensures match r {
        Some(rx) => old(self).remote_incoming_window == 0 && est_snd(*old(self), link_handle as usize) && rx.in_session(*final(self))
            && *final(self) == (SessionInner { pending_transfers: final(self).pending_transfers, ..*old(self) })
            && final(self).pending_transfers@ =~= old(self).pending_transfers@.push(PendingTransfer { tx: rx.of(), link_handle }),
        None => (old(self).remote_incoming_window > 0 || !est_snd(*old(self), link_handle as usize)) && *final(self) == *old(self),
    }
//@after self.pending_transfers.push_back
    proof { assert(self.pending_transfers@.last().tx == rx.of()); }
//@method send_transfer awaitself
    ensures
        old(self).error is Some ==> r == Err::<DeliveryNumber, AmqpProtocolError>(old(self).error->0) && *final(self) == *old(self),
        old(self).error is None && (old(self).flags.ending || !est_snd(*old(self), link_handle as usize)) ==> r is Err && *final(self) == *old(self),
        r is Ok ==> exists|s: SessionInner| awaited(*old(self), s) && #[trigger] delivered(s, *final(self), link_handle, tag@, body, settled, format, r->Ok_0),
        r is Ok && old(self).remote_incoming_window > 0 ==> delivered(*old(self), *final(self), link_handle, tag@, body, settled, format, r->Ok_0),
        r is Err ==> awaited(*old(self), *final(self)),
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant awaited(*old(self), *self), *self == *old(self) || old(self).remote_incoming_window == 0,
        old(self).error is None && !old(self).flags.ending && est_snd(*old(self), link_handle as usize) || *self == *old(self),
    ensures awaited(*old(self), *self), self.error is None, !self.flags.ending, est_snd(*self, link_handle as usize), self.remote_incoming_window > 0, *self == *old(self) || old(self).remote_incoming_window == 0,
//@postloop 0
    let ghost __s = *self;
    let ghost __body = body;
    let ghost __fmt = format_of(body, format);
    let ghost __tag = tag@;
    let ghost __o = self.sink.out();
    let ghost __m = self.sink.0.max_frame_size;
    proof { assert(bodies(Seq::<AmqpFrame>::empty()) =~= Seq::<u8>::empty()); }
//@preloop 1
    let ghost __u = *self;
    proof { if !quiet(__s) {
        let f1 = sent(__s, *self);
        assert(f1 =~= seq![self.sink.out().last()]);
        assert(f1.drop_last() =~= Seq::<AmqpFrame>::empty());
        assert(bodies(f1) =~= tr_of(f1[0]).body->0.bytes());
        let _m = (bodies(f1) + body@ =~= __body.bytes());
    } }
    let ghost __t0 = bodies(sent(__s, *self)) + body@;
    let ghost __f1 = sent(__s, *self);
    let ghost __b1 = body@;
//@loop 1
    invariant awaited(*old(self), __s), __o == __s.sink.out(), __m == __s.sink.0.max_frame_size, __m == self.sink.0.max_frame_size,
        max_frame_size > 0, __m >= 512 ==> max_frame_size + 256 <= __m, conn_kept(__s.sink.0, self.sink.0), __o.is_prefix_of(self.sink.out()),
        !__s.flags.ending, __s.flags.ended ==> self.sink.out() == __o,
        !quiet(__s) ==> __f1.is_prefix_of(sent(__s, *self)) && run_from(sent(__s, *self), __f1.len() as int, __s.id as u16, link_handle, __m, body@.len() == 0)
            && bodies(sent(__s, *self)) + body@ == __t0 && (sent(__s, *self).len() == __f1.len() ==> body@ == __b1),
        *self == (SessionInner { sink: self.sink, ..__u }), quiet(__u) == quiet(__s), __u.id == __s.id,
    ensures body@.len() == 0,
    decreases body@.len()
//@loopstart 1
    let ghost __b0 = body@;
    let ghost __f0 = sent(__s, *self);
    let ghost __p0 = self.sink.out();
//@loopend 1
    proof { if !quiet(__s) {
        let f1 = sent(__s, *self);
        assert(f1 =~= __f0.push(self.sink.out().last()));
        assert(f1.drop_last() =~= __f0);
        assert(bodies(f1) + body@ =~= bodies(__f0) + __b0);
    } }
//@postloop 1
    proof { assert(bodies(sent(__s, *self)) + body@ =~= bodies(sent(__s, *self))); }
//@finish
    proof {
        let f1 = sent(__s, *self);
        if f1.len() == 1 && !quiet(__s) {
            assert(f1 =~= seq![self.sink.out().last()]);
            assert(f1.drop_last() =~= Seq::<AmqpFrame>::empty());
            assert(bodies(f1) =~= tr_of(f1[0]).body->0.bytes());
        }
        // (terms for the solver; what they say is decided by the postcondition)
        let _m = awaited(*old(self), __s);
        let _m = delivered(__s, *final(self), link_handle, __tag, __body, settled, format, __r->Ok_0);
    }
//@end
