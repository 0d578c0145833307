//! One scenario: an endpoint of the crate (client or server) on one side of an in-memory connection, a scripted peer with a reference
//! model on the other side. Every frame of the endpoint and every result of an operation is compared with the model.
use crate::{rng::Rng, Ctx};
use ntex_amqp::codec::{protocol::*, types::Symbol, AmqpCodec, AmqpFrame, Encode, Message, ProtocolIdCodec};
use ntex_amqp::error::{AmqpProtocolError as Err_, LinkError as LErr};
use ntex_amqp::{client::Connector, server, types, AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use ntex_io::{testing::IoTest, Io, IoBoxed};
use ntex_service::{cfg::SharedCfg, fn_service, ServiceFactory};
use std::{cell::{Cell, RefCell}, collections::VecDeque, future::{poll_fn, Future}, rc::Rc, task::{Poll, Waker}};

pub type Op<T> = Rc<RefCell<Option<T>>>;
fn op<T: 'static>(f: impl Future<Output = T> + 'static) -> Op<T> {
    let o: Op<T> = Rc::default(); let p = o.clone();
    ntex::rt::spawn(async move { let v = f.await; *p.borrow_mut() = Some(v); });
    o
}
pub async fn yields(n: usize) { for _ in 0..n { let mut d = false; poll_fn(|cx| if d { Poll::Ready(()) } else { d = true; cx.waker().wake_by_ref(); Poll::Pending }).await } }

#[derive(Default)]
struct Shared { con: RefCell<Option<ConnectionRef>>, ev: RefCell<Vec<Ev>>, closed: Cell<bool>, wakers: RefCell<Vec<Waker>>, done: Cell<bool>, fail: RefCell<Option<String>> }
enum Ev { Snd(SenderLink), Rcv(ReceiverLink) }
async fn gate(sh: &Shared) { poll_fn(|cx| if sh.closed.get() { sh.wakers.borrow_mut().push(cx.waker().clone()); Poll::Pending } else { Poll::Ready(()) }).await }
async fn control(sh: Rc<Shared>, f: ControlFrame) -> Result<(), LErr> {
    let mut rej = false;
    match f.kind() {
        ControlFrameKind::AttachSender(a, _, l) => { sh.ev.borrow_mut().push(Ev::Snd(l.clone())); rej = a.name().starts_with("rej"); }
        ControlFrameKind::AttachReceiver(a, _, l) => { if a.name().starts_with("rej") { rej = true } else { sh.ev.borrow_mut().push(Ev::Rcv(l.clone())); } }
        _ => {}
    }
    gate(&sh).await;
    if rej { Err(LErr::force_detach()) } else { Ok(()) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { LocSnd, RemSnd, LocRcv, RemRcv }
impl K { fn snd(self) -> bool { matches!(self, K::LocSnd | K::RemSnd) } }
/// link: attach sent by one side only / attach and detach sent by the peer / attach sent by both / detach sent by the endpoint / by the peer / by both
#[derive(Clone, Copy, PartialEq, Debug)]
enum L { SutOpening, PeerOpening, PeerGone, Live, SutDet, PeerDet, Dead }
#[derive(Clone, Copy, PartialEq, Debug)]
enum S { SutOpening, PeerOpening, Live, SutEnded, PeerEnded, Dead }
struct Send_ { exp: Vec<u8>, tag: Option<Bytes>, settled: bool, fmt: Option<u32>, op: Op<Result<Delivery, Err_>>, st: u8, id: u32, got_tag: Bytes, too_large: bool }
#[derive(Debug)]
struct In { id: u32, tag: Bytes, settled: bool, fmt: Option<u32>, body: Vec<u8> }
#[derive(Default, Clone, Debug)]
struct Ent { settled: bool, state: Option<DeliveryState>, err: bool }
type WaitR = (Delivery, Result<Option<DeliveryState>, Err_>);
struct Del { id: u32, snd: bool, del: Option<Delivery>, ls: bool, rs: bool, map: Option<Ent>, wait: Option<Op<WaitR>>, link: usize }
struct Lnk {
    kind: K, name: String, sh: Option<u32>, ph: Option<u32>, st: L, snd: Option<SenderLink>, rcv: Option<ReceiverLink>,
    aop_s: Option<Op<Result<SenderLink, Err_>>>, aop_r: Option<Op<Result<ReceiverLink, Err_>>>, close_ops: Vec<Op<Result<(), Err_>>>, ready_ops: Vec<Op<bool>>,
    may_detach: bool, cond: Option<LinkError>, rej: bool,
    base: u32, sent: u64, lim: u64, lmax: u64, maxmsg: Option<u64>, sends: Vec<Send_>, part: Option<(usize, Vec<u8>)>, tags: Vec<Bytes>,
    rq: VecDeque<In>, partial: Option<In>, icredit: u64, adv: u64, rcvd: u64, recv_op: Option<Op<Option<Result<(Delivery, Transfer), Err_>>>>, closed: bool, rerr: bool, flows: VecDeque<(u32, u32)>, maxsz: usize,
}
struct Ses {
    peer_ch: u16, ch: Option<u16>, st: S, api: Option<Session>, open: Option<Op<Result<Session, Err_>>>, end_ops: Vec<Op<Result<(), Err_>>>, end_err: bool,
    sent: u64, wlim: u64, wmax: u64, nout: u32, nout_lo: u32, rid: u32, links: Vec<Lnk>, dels: Vec<Del>, disp: VecDeque<(Role, u32, bool, DeliveryState)>, echo: usize,
}
pub struct W<'a> {
    c: &'a mut Ctx, prop: String, r: Rng, n: u64, io: IoTest, rbuf: BytesMut, codec: AmqpCodec<AmqpFrame>, sh: Rc<Shared>, trace: String, bad: bool,
    mfs: u32, chmax: u16, ses: Vec<Ses>, opens: Vec<Op<Result<Session, Err_>>>, out: BytesMut, dirty: bool, down: bool, close_seen: bool, may_close: bool, serial: u32,
}

pub fn err_frame() -> Error { Error(Box::new(ErrorInner { condition: LinkError::DetachForced.into(), description: None, info: None })) }

/// reads what is there and decodes whole frames
fn take_frames(io: &IoTest, buf: &mut BytesMut, codec: &AmqpCodec<AmqpFrame>) -> Vec<(u16, Frame, usize)> {
    let b = io.read_any(); buf.extend_from_slice(&b);
    let mut v = vec![];
    while buf.len() >= 8 {
        let n = u32::from_be_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;
        if n < 8 { v.push((0, Frame::Empty, usize::MAX)); buf.clear(); break; }
        if buf.len() < n { break; }
        let mut one = BytesMut::new(); one.extend_from_slice(&buf.split_to(n));
        match codec.decode(&mut one) { Ok(Some(f)) => { let (ch, f) = f.into_parts(); v.push((ch, f, n)); } _ => v.push((0, Frame::Empty, usize::MAX)) }
    }
    v
}

pub async fn run(c: &mut Ctx, prop: &str, seed: u64, n: u64) -> String {
    let mut r = Rng::new(seed);
    if prop == "S10" { return crate::nego::run(c, r, n).await; }
    let mfs = *r.pick(&[512u32, 600, 1000, 2048, 2049, 2300, 4096, 65535, u32::MAX]);
    let (lmax, pmax) = (r.below(6) as u16 + if prop == "S09" { 0 } else { 4 }, r.below(6) as u16 + if prop == "S09" { 0 } else { 4 });
    let server_side = r.bool();
    let (io, remote) = IoTest::create();
    io.remote_buffer_cap(usize::MAX);
    let sh: Rc<Shared> = Rc::default();
    let cfg: SharedCfg = SharedCfg::new("HS").add(AmqpServiceConfig::new().set_channel_max(lmax).set_idle_timeout(0)).into();
    let sut = Io::new(remote, cfg.clone());
    start(sut, cfg, server_side, sh.clone()).await;
    let mut w = W { c, prop: prop.into(), r, n, io, rbuf: BytesMut::new(), codec: AmqpCodec::new(), sh, trace: String::new(), bad: false, mfs, chmax: lmax.min(pmax), ses: vec![], opens: vec![],
        out: BytesMut::new(), dirty: false, down: false, close_seen: false, may_close: false, serial: 0 };
    w.c.cur(&format!("case {n} {prop} seed {seed}"));
    let mut b = BytesMut::new();
    ProtocolIdCodec.encode(ProtocolId::Amqp, &mut b).unwrap();
    let open = Open(Box::new(OpenInner { container_id: "peer".into(), hostname: None, max_frame_size: mfs, channel_max: pmax, idle_time_out: None, outgoing_locales: None, incoming_locales: None, offered_capabilities: None, desired_capabilities: None, properties: None }));
    w.codec.encode(AmqpFrame::new(0, Frame::Open(open)), &mut b).unwrap();
    w.io.write(&b);
    let mut ok = false;
    for _ in 0..400 {
        yields(8).await;
        let x = w.io.read_any(); w.rbuf.extend_from_slice(&x);
        if w.rbuf.len() >= 12 && w.sh.con.borrow().is_some() {
            let n = u32::from_be_bytes([w.rbuf[8], w.rbuf[9], w.rbuf[10], w.rbuf[11]]) as usize;
            if w.rbuf.len() >= 8 + n { let _ = w.rbuf.split_to(8 + n); ok = true; break; }
        }
    }
    if !ok { w.viol("S10,S09", "negotiation does not complete", ""); return w.trace; }
    w.go().await;
    let W { trace, .. } = w;
    trace
}
async fn start(sut: Io, cfg: SharedCfg, server_side: bool, sh: Rc<Shared>) {
    if server_side {
        let (s1, s2, s3) = (sh.clone(), sh.clone(), sh);
        let srv = server::Server::build(move |h: server::Handshake| { let sh = s1.clone(); async move {
            match h { server::Handshake::Amqp(h) => { let o = h.open().await.map_err(|_| ())?; *sh.con.borrow_mut() = Some(o.sink().get_ref()); Ok(o.ack(())) } _ => Err(()) }
        } }).control(move |f: ControlFrame| control(s2.clone(), f)).finish(|_: types::Message| async { Ok::<(), LErr>(()) });
        let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.ok().unwrap();
        ntex::rt::spawn(async move { let r = svc.call(IoBoxed::from(sut)).await; if let Err(e) = r { *s3.fail.borrow_mut() = Some(format!("{e:?}")); } s3.done.set(true); });
    } else {
        ntex::rt::spawn(async move {
            let con: ntex_service::Pipeline<ntex_amqp::client::ConnectorService<ntex::http::Uri, _>> = ServiceFactory::<ntex_amqp::client::Connect<ntex::http::Uri>, SharedCfg>::pipeline(&Connector::<ntex::http::Uri>::new(), cfg).await.ok().unwrap();
            match con.get_ref().negotiate(IoBoxed::from(sut), None).await {
                Ok(cl) => { *sh.con.borrow_mut() = Some(cl.sink()); let s = sh.clone(); let _ = cl.start(fn_service(move |f: ControlFrame| control(s.clone(), f))).await; }
                Err(e) => *sh.fail.borrow_mut() = Some(format!("{e:?}")),
            }
            sh.done.set(true);
        });
    }
}

fn state_of(r: &mut Rng) -> DeliveryState {
    match r.below(4) { 0 => DeliveryState::Accepted(Accepted {}), 1 => DeliveryState::Released(Released {}), 2 => DeliveryState::Rejected(Rejected { error: if r.bool() { Some(err_frame()) } else { None } }),
        _ => DeliveryState::Modified(Modified { delivery_failed: Some(r.bool()), undeliverable_here: None, message_annotations: None }) }
}
fn dropped_state() -> DeliveryState { DeliveryState::Rejected(Rejected { error: Some(Error::build().condition(ErrorCondition::Custom(Symbol::from_static("Internal error"))).finish()) }) }
fn dbg(f: &Frame) -> String { let s: String = format!("{f:?}"); if s.len() > 300 { s.chars().take(300).collect() } else { s } }

impl W<'_> {
    fn t(&mut self, s: &str) { self.trace.push_str(s); self.trace.push_str("; "); if std::env::var("HS_V").is_ok() { eprintln!("{s}"); } }
    fn viol(&mut self, props: &str, what: &str, detail: &str) {
        if self.bad { return; }
        self.bad = true;
        if std::env::var("HS_V").is_ok() { eprintln!("VIOL {props} {what} {detail}"); }
        if props.split(',').any(|p| p == self.prop) || self.prop == "ALL" {
            let tr: String = self.trace.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect();
            let what = &if self.prop == "ALL" { format!("[{props}] {what}") } else { what.to_string() };
            self.c.fail(what, format!("scenario {} (max-frame-size of the peer {}): {detail} -- history: {tr}", self.n, self.mfs));
        }
    }
    async fn settle(&mut self) {
        let mut idle = 0;
        let mut total = 0;
        while idle < 12 && total < 3000 {
            yields(4).await; total += 1;
            let fs = take_frames(&self.io, &mut self.rbuf, &self.codec);
            if fs.is_empty() { idle += 1 } else { idle = 0 }
            for (ch, f, n) in fs { self.on_frame(ch, f, n); }
        }
        let evs: Vec<Ev> = self.sh.ev.borrow_mut().drain(..).collect();
        for e in evs { match e {
            Ev::Snd(l) => { let h = l.id(); let rh = l.remote_handle(); self.assign(K::RemSnd, h, rh, Some(l), None) }
            Ev::Rcv(l) => { let (h, rh) = (l.handle(), l.remote_handle()); self.assign(K::RemRcv, h, rh, None, Some(l)) }
        } }
        self.dirty = false;
        self.check();
        for s in &mut self.ses { s.wmax = s.wlim; s.nout_lo = s.nout; for l in &mut s.links { l.lmax = l.lim; } }
    }
    fn assign(&mut self, k: K, _h: u32, rh: u32, snd: Option<SenderLink>, rcv: Option<ReceiverLink>) {
        let ch = if let Some(l) = &snd { l.session().local_channel_id() } else { rcv.as_ref().unwrap().session().local_channel_id() };
        for s in self.ses.iter_mut().filter(|s| s.ch == Some(ch) && s.st != S::Dead) {
            if let Some(l) = s.links.iter_mut().rev().find(|l| l.kind == k && l.ph == Some(rh) && l.st != L::Dead) { l.snd = snd; l.rcv = rcv; return; }
        }
    }
    /// pending operations got their turn, now everything that must have completed has
    async fn flush(&mut self) {
        if !self.out.is_empty() {
            let b = std::mem::take(&mut self.out);
            if self.r.chance(1, 4) && b.len() > 2 {
                let k = 1 + self.r.below(b.len() - 1);
                self.io.write(&b[..k]); yields(6).await;
                self.io.write(&b[k..]);
            } else { self.io.write(&b); }
        }
        self.settle().await;
    }
    fn put(&mut self, ch: u16, f: Frame) { let s = format!("peer->{ch} {}", dbg(&f)); self.t(&s); self.codec.encode(AmqpFrame::new(ch, f), &mut self.out).unwrap(); }

    fn on_frame(&mut self, ch: u16, f: Frame, size: usize) {
        if self.bad { return; }
        let s = format!("sut->{ch} {}", dbg(&f)); self.t(&s);
        if size == usize::MAX { return self.viol("S01,S02,S03,S04,S05,S06,S07,S08,S09", "endpoint sends bytes that are no frame", ""); }
        match f {
            Frame::Empty => {}
            Frame::Close(_) => { if self.close_seen { self.viol("S09", "close sent twice", ""); } self.close_seen = true; if !self.may_close { self.viol("S04,S07,S08,S09", "endpoint closes a connection that is in order", ""); } }
            Frame::Begin(b) => {
                if self.ses.iter().any(|s| s.ch == Some(ch) && s.st != S::Dead) { return self.viol("S09", "begin on a channel in use", ""); }
                match b.remote_channel() {
                    None => {
                        if ch > self.chmax { { let e_: String = format!("channel {ch} of {}", self.chmax); return self.viol("S09", "session on a channel above the negotiated channel-max", &e_) }; }
                        if self.opens.is_empty() { return self.viol("S09", "begin that nobody asked for", ""); }
                        let o = self.opens.remove(0);
                        let pc = self.free_ch();
                        let mut s = ses(pc, S::SutOpening); s.ch = Some(ch); s.open = Some(o);
                        if b.next_outgoing_id() != 1 { return self.viol("S02,S09", "begin does not announce the first transfer id", ""); }
                        self.ses.push(s);
                    }
                    Some(pc) => match self.ses.iter().position(|s| s.peer_ch == pc && s.st == S::PeerOpening) {
                        Some(i) => { if b.next_outgoing_id() != 1 { return self.viol("S02,S09", "begin does not announce the first transfer id", ""); } let api = self.con().get_session_by_local_id(ch); let s = &mut self.ses[i]; s.ch = Some(ch); s.st = S::Live;
                            if api.is_none() { return self.viol("S09", "session opened by the peer is not found by its channel", ""); } self.ses[i].api = api; }
                        None => { let e_: String = format!("remote channel {pc}"); self.viol("S09", "begin that answers no begin", &e_) },
                    },
                }
            }
            Frame::Open(_) => self.viol("S09", "second open", ""),
            f => {
                let Some(i) = self.ses.iter().position(|s| s.ch == Some(ch) && s.st != S::Dead) else {
                    if self.down { return; }
                    { let e_: String = dbg(&f); return self.viol("S09", "frame on a channel without a session", &e_) }; };
                if self.ses[i].st == S::SutEnded { { let e_: String = dbg(&f); return self.viol("S09", "frame on a channel after its end", &e_) }; }
                if matches!(self.ses[i].st, S::SutOpening | S::PeerOpening) { { let e_: String = dbg(&f); return self.viol("S09", "frame before the session is open", &e_) }; }
                match f {
                    Frame::End(_) => match self.ses[i].st {
                        S::PeerEnded => self.ses_dead(i),
                        S::Live if !self.ses[i].end_ops.is_empty() => self.ses[i].st = S::SutEnded,
                        _ if self.down => self.ses_dead(i),
                        _ => self.viol("S09", "end that nobody asked for", ""),
                    },
                    Frame::Attach(a) => self.on_attach(i, &a),
                    Frame::Detach(d) => self.on_detach(i, &d),
                    Frame::Transfer(t) => self.on_transfer(i, &t, size),
                    Frame::Flow(f) => self.on_flow(i, &f),
                    Frame::Disposition(d) => {
                        let Some((role, id, settled, state)) = self.ses[i].disp.pop_front() else { { let e_: String = format!("{d:?}"); return self.viol("S06", "disposition that nothing asks for", &e_) }; };
                        if d.role() != role || d.first() != id || d.last().is_some_and(|l| l != id) || d.settled() != settled || d.state() != Some(&state) { { let e_: String = format!("{d:?}, expected {role:?} {id} {settled} {state:?}"); self.viol("S06", "disposition does not say what was asked for", &e_) }; }
                    }
                    _ => {}
                }
            }
        }
    }
    fn free_ch(&mut self) -> u16 { loop { let x = self.r.below(12) as u16 + if self.r.bool() { 0 } else { 300 }; if !self.ses.iter().any(|s| s.peer_ch == x && s.st != S::Dead) { return x; } } }
    fn con(&self) -> ConnectionRef { self.sh.con.borrow().as_ref().unwrap().clone() }
    fn ses_dead(&mut self, i: usize) {
        let s = &mut self.ses[i]; s.st = S::Dead; s.disp.clear();
        for l in &mut s.links { if l.st != L::Dead { l.st = L::Dead; l.closed = true; } }
        for d in &mut s.dels { d.map = None; }
    }
    fn on_attach(&mut self, i: usize, a: &Attach) {
        let s = &mut self.ses[i];
        if s.links.iter().any(|l| l.sh == Some(a.handle()) && l.st != L::Dead) { { let e_: String = format!("handle {}", a.handle()); return self.viol("S07", "attach on a handle that is in use", &e_) }; }
        if let Some(l) = s.links.iter_mut().find(|l| matches!(l.st, L::PeerOpening | L::PeerGone) && l.name == a.name().as_str() && l.kind.snd() == (a.role() == Role::Sender)) {
            l.sh = Some(a.handle());
            if l.st == L::PeerGone { l.st = L::PeerDet; return; }
            l.st = L::Live;
            if l.rej { l.may_detach = true; }
            if l.kind == K::RemSnd && !l.rej && a.initial_delivery_count() != Some(l.base) { { let e_: String = format!("{a:?}"); return self.viol("S01,S07", "response announces a wrong initial delivery count", &e_) }; }
            if l.kind == K::RemRcv && !l.rej { l.icredit = 50; l.flows.push_back((l.base, 50)); }
        } else if let Some(l) = s.links.iter_mut().find(|l| l.st == L::SutOpening && l.sh.is_none() && l.name == a.name().as_str()) {
            if (a.role() == Role::Sender) != l.kind.snd() { return self.viol("S07", "attach with the wrong role", ""); }
            l.sh = Some(a.handle());
        } else { { let e_: String = format!("{a:?}"); self.viol("S07", "attach that nobody asked for", &e_) }; }
    }
    fn on_detach(&mut self, i: usize, d: &Detach) {
        let s = &mut self.ses[i];
        let Some(k) = s.links.iter().position(|l| l.sh == Some(d.handle()) && matches!(l.st, L::SutOpening | L::Live | L::PeerDet | L::SutDet)) else { { let e_: String = format!("handle {}", d.handle()); return self.viol("S07", "detach of a handle that is not attached", &e_) } };
        let l = &mut s.links[k];
        match l.st {
            L::PeerDet => l.st = L::Dead,
            L::SutDet => { let e_: String = l.name.clone(); return self.viol("S07", "link detached twice", &e_) },
            _ => {
                if !l.may_detach { { let e_: String = format!("{} {d:?}", self.ses[i].links[k].name); return self.viol("S01,S04,S05,S07", "link detached without a reason", &e_) }; }
                if let Some(c) = &l.cond { if d.error().map(|e| e.condition().clone()) != Some(c.clone().into()) { { let e_: String = format!("{d:?}, expected {c:?}"); return self.viol("S04", "link is closed with the wrong error", &e_) }; } }
                let l = &mut self.ses[i].links[k]; l.st = L::SutDet; l.closed = true;
            }
        }
    }
    fn on_flow(&mut self, i: usize, f: &Flow) {
        let s = &mut self.ses[i];
        if f.next_outgoing_id() != 1u32.wrapping_add(s.sent as u32) { { let e_: String = format!("{f:?}"); return self.viol("S02", "flow reports a wrong next-outgoing-id", &e_) }; }
        let span = s.nout.wrapping_sub(s.nout_lo);
        match f.next_incoming_id() { Some(x) if x.wrapping_sub(s.nout_lo) <= span => {} _ => { let e = format!("{f:?} expected {}", s.nout); return self.viol("S02", "flow reports a wrong next-incoming-id", &e) } }
        match f.handle() {
            None => if s.echo > 0 { s.echo -= 1 } else if f.link_credit().is_some() { { let e_: String = format!("{f:?}"); self.viol("S04", "credit without a link", &e_) } },
            Some(h) => {
                let Some(l) = s.links.iter_mut().find(|l| l.sh == Some(h) && l.st != L::Dead && !l.kind.snd()) else { { let e_: String = format!("{f:?}"); return self.viol("S04,S07", "flow for a handle that is not attached", &e_) } };
                if l.st == L::SutDet || l.st == L::SutOpening { { let e_: String = format!("{f:?}"); return self.viol("S07", "flow for a detached handle", &e_) }; }
                match l.flows.pop_front() {
                    Some((dc, cr)) => { if f.delivery_count() != Some(dc) || f.link_credit() != Some(cr) { { let e_: String = format!("{f:?}, expected {dc} {cr}"); return self.viol("S04", "flow reports wrong credit or delivery count", &e_) }; } l.adv = l.rcvd + cr as u64; }
                    None => { let e_: String = format!("{f:?}"); self.viol("S04", "credit that was not granted by the application", &e_) },
                }
            }
        }
    }
    fn on_transfer(&mut self, i: usize, t: &Transfer, size: usize) {
        if size > self.mfs as usize { { let e_: String = format!("{size} > {}", self.mfs); return self.viol("S03", "transfer larger than the peer's max-frame-size", &e_) }; }
        let (ssent, wmax) = (self.ses[i].sent, self.ses[i].wmax.max(self.ses[i].wlim));
        let s = &mut self.ses[i];
        let Some(k) = s.links.iter().position(|l| l.sh == Some(t.handle()) && l.st != L::Dead && l.kind.snd()) else { { let e_: String = dbg(&Frame::Transfer(t.clone())); return self.viol("S07", "transfer on a handle that is not attached", &e_) } };
        let l = &mut s.links[k];
        if !matches!(l.st, L::Live | L::PeerDet) { { let e_: String = l.name.clone(); return self.viol("S07", "transfer on a link that is not attached (any more)", &e_) }; }
        let body: Vec<u8> = match t.body() { Some(TransferBody::Data(d)) => d.to_vec(), _ => vec![] };
        if l.part.is_some() {
            // known: the window is used per delivery, a delivery of several frames goes beyond it (2.5.6 counts transfer frames)
            if ssent >= wmax && self.prop == "S02" && self.c.known.is_empty() { self.c.known.push("multi-frame-window: frames of a delivery are sent although the session window is used up".into()); }
            let (ix, mut have) = l.part.take().unwrap();
            let sd = &mut l.sends[ix];
            have.extend_from_slice(&body);
            if t.delivery_id().is_some_and(|x| x != sd.id) || t.delivery_tag().is_some_and(|x| *x != sd.got_tag) { return self.viol("S03", "deliveries interleave on a link", ""); }
            if t.more() { if have.len() >= sd.exp.len() && !sd.exp.is_empty() && have != sd.exp { return self.viol("S03", "message is sent with wrong bytes", ""); } l.part = Some((ix, have)); }
            else if have != sd.exp { { let e_: String = format!("{} bytes of {}", have.len(), sd.exp.len()); return self.viol("S03", "frames of a delivery do not add up to the message", &e_) }; }
            else { sd.st = 2; }
            return;
        }
        let Some(id) = t.delivery_id() else { return self.viol("S03", "first transfer of a delivery has no delivery id", "") };
        if l.sent + 1 > l.lmax.max(l.lim) { let d = format!("delivery {} of {}, limit {}", l.sent + 1, l.name, l.lmax); return self.viol("S01", "delivery sent beyond the link credit", &d); }
        if ssent + 1 > wmax { { let e_: String = format!("transfer {}, limit {wmax}", ssent + 1); return self.viol("S02", "transfer sent beyond the session window", &e_) }; }
        if id != 1u32.wrapping_add(ssent as u32) { { let e_: String = format!("{id} after {ssent} deliveries"); return self.viol("S02", "delivery ids are not sequential", &e_) }; }
        let Some(ix) = l.sends.iter().position(|x| x.st == 0 && if t.more() { x.exp.starts_with(&body) && !body.is_empty() } else { x.exp == body }) else { { let e_: String = format!("{} bytes on {}", body.len(), l.name.clone()); return self.viol("S03", "transfer does not carry a message that was sent", &e_) } };
        let sd = &mut l.sends[ix];
        let tag = t.delivery_tag().cloned().unwrap_or_default();
        if sd.tag.as_ref().is_some_and(|x| *x != tag) || (sd.tag.is_none() && (tag.is_empty() || l.tags.contains(&tag))) { { let e_: String = format!("{tag:?}"); return self.viol("S03", "wrong delivery tag", &e_) }; }
        if sd.tag.is_none() { l.tags.push(tag.clone()); }
        if t.settled().unwrap_or(false) != sd.settled { return self.viol("S03,S06", "transfer has the wrong settlement", ""); }
        if t.message_format() != sd.fmt { let d = format!("{:?} expected {:?}", t.message_format(), sd.fmt); return self.viol("S03", "wrong message format", &d); }
        if t.aborted() || t.resume() { return self.viol("S03", "transfer is aborted or resumed", ""); }
        if sd.too_large { return self.viol("S03", "message above max-message-size is sent", ""); }
        sd.id = id; sd.got_tag = tag;
        let settled = sd.settled;
        if t.more() { sd.st = 1; l.part = Some((ix, body)); } else { sd.st = 2; }
        l.sent += 1;
        self.ses[i].sent += 1;
        self.ses[i].dels.push(Del { id, snd: true, del: None, ls: settled, rs: false, map: if settled { None } else { Some(Ent::default()) }, wait: None, link: k });
    }

    // ------------------------------------------------------------------ results of operations
    fn check(&mut self) {
        if self.bad { return; }
        let gate_open = !self.sh.closed.get();
        if self.down && !self.opens.is_empty() {
            for k in 0..self.opens.len() { let r = self.opens[k].borrow_mut().take(); match r { None => return self.viol("S08", "opening a session waits for ever after the connection is gone", ""), Some(Ok(_)) => return self.viol("S08,S09", "session opens on a dead connection", ""), _ => {} } }
            self.opens.clear();
        }
        // refused for lack of channels
        let mut k = 0;
        while k < self.opens.len() {
            let r = self.opens[k].borrow_mut().take();
            match r { Some(Err(Err_::TooManyChannels)) => { let n = self.ses.iter().filter(|s| s.st != S::Dead).count(); if n <= self.chmax as usize { { let e_: String = format!("{n} of {}", self.chmax); return self.viol("S09", "session refused although channels are free", &e_) }; } self.opens.remove(k); }
                Some(r) => { let e_: String = format!("{r:?}"); return self.viol("S09", "opening a session completes without a begin", &e_) }, None => return self.viol("S08,S09", "opening a session neither sends begin nor fails", "") }
            #[allow(unreachable_code)] { k += 0; }
        }
        for i in 0..self.ses.len() {
            if let Some(e) = self.check_ses(i, gate_open) { return self.viol(e.0, e.1, &e.2); }
        }
    }
    fn check_ses(&mut self, i: usize, gate_open: bool) -> Option<(&'static str, &'static str, String)> {
        let down = self.down;
        let s = &mut self.ses[i];
        let dead = s.st == S::Dead || down;
        if let Some(o) = s.open.clone() {
            let r = o.borrow_mut().take();
            match r { Some(Ok(x)) => { if s.st == S::SutOpening { return Some(("S09", "session opens before the peer's begin", String::new())); } if Some(x.local_channel_id()) != s.ch || x.remote_channel_id() != s.peer_ch { return Some(("S09", "session is opened on a wrong channel", format!("{} {}", x.local_channel_id(), x.remote_channel_id()))); } s.api = Some(x); s.open = None; }
                Some(Err(e)) => { if !dead { return Some(("S08,S09", "opening a session fails", format!("{e:?}"))); } s.open = None; }
                None => if s.st != S::SutOpening || down { return Some((if dead { "S08" } else { "S08,S09" }, "opening a session does not complete", format!("{:?}", s.st))); } }
        }
        let mut rest = vec![];
        for o in s.end_ops.drain(..) { let r = o.borrow_mut().take(); match r {
            Some(r) => { if !dead { return Some(("S09", "ending a session completes before the peer's end", String::new())); } if !down && s.end_err != r.is_err() { return Some(("S09", "result of ending a session", format!("{r:?}"))); } }
            None => { if dead { return Some(("S08", "ending a session waits for ever", String::new())); } rest.push(o) } } }
        s.end_ops = rest;
        if !dead && s.st == S::Live && s.echo > 0 && gate_open { return Some(("S02", "echo of the peer is not answered", String::new())); }
        if !dead && s.st == S::Live && !s.disp.is_empty() { return Some(("S06", "disposition is not sent", format!("{:?}", s.disp))); }
        for k in 0..s.links.len() {
            let window = s.sent < s.wlim;
            let l = &mut s.links[k];
            let ldead = dead || !matches!(l.st, L::Live | L::SutOpening | L::PeerOpening);
            // attach
            if let Some(o) = l.aop_s.clone() { let r = o.borrow_mut().take(); match r {
                Some(Ok(x)) => { if l.st == L::SutOpening { return Some(("S07", "attach completes before the peer's attach", l.name.clone())); } if Some(x.id()) != l.sh || Some(x.remote_handle()) != l.ph { return Some(("S07", "link attached with wrong handles", l.name.clone())); } l.snd = Some(x); l.aop_s = None; }
                Some(Err(e)) => { if !ldead { return Some(("S07,S08", "attach fails", format!("{} {e:?}", l.name))); } l.aop_s = None; }
                None => if l.st != L::SutOpening || dead { return Some(("S08", "attach waits for ever", format!("{} {:?}", l.name, l.st))); } } }
            if let Some(o) = l.aop_r.clone() { let r = o.borrow_mut().take(); match r {
                Some(Ok(x)) => { if l.st == L::SutOpening { return Some(("S07", "attach completes before the peer's attach", l.name.clone())); } if Some(x.handle()) != l.sh || Some(x.remote_handle()) != l.ph { return Some(("S07", "link attached with wrong handles", l.name.clone())); } l.rcv = Some(x); l.aop_r = None; }
                Some(Err(e)) => { if !ldead { return Some(("S07,S08", "attach fails", format!("{} {e:?}", l.name))); } l.aop_r = None; }
                None => if l.st != L::SutOpening || dead { return Some(("S08", "attach waits for ever", format!("{} {:?}", l.name, l.st))); } } }
            if gate_open && !dead && l.st == L::PeerOpening { return Some(("S07", "attach of the peer is not answered", l.name.clone())); }
            if !dead && s.st == S::Live && l.st == L::PeerGone && (gate_open || !l.kind.snd()) { return Some(("S07", "attach and detach of the peer are not answered", l.name.clone())); }
            if gate_open && !dead && l.st == L::PeerDet && s.st == S::Live { return Some(("S07", "detach of the peer is not answered", l.name.clone())); }
            if !dead && s.st == S::Live && l.may_detach && gate_open && l.st == L::Live { return Some((if l.cond.is_some() { "S04" } else { "S07,S08" }, "link is not detached", format!("{} {:?}", l.name, l.cond))); }
            let mut rest = vec![];
            for o in l.close_ops.drain(..) { let r = o.borrow_mut().take(); match r { Some(_) => {} None => { if dead || l.st == L::Dead { return Some(("S08", "closing a link waits for ever", l.name.clone())); } rest.push(o) } } }
            l.close_ops = rest;
            // credit and sends
            let avail = l.sent < l.lim;
            let mut rest = vec![];
            for o in l.ready_ops.drain(..) { let r = o.borrow_mut().take(); match r {
                Some(true) => if ldead { } else if l.lmax.max(l.lim) == 0 { return Some(("S01", "link is ready without credit", l.name.clone())); },
                Some(false) => if !ldead { return Some(("S01,S08", "link is reported closed", l.name.clone())); },
                None => { if ldead { return Some(("S08", "waiting for credit never ends on a closed link", l.name.clone())); } if avail && gate_open && l.st == L::Live && s.st == S::Live { return Some(("S01", "waiting for credit is not notified", l.name.clone())); } rest.push(o) } } }
            l.ready_ops = rest;
            for sd in l.sends.iter_mut().filter(|x| x.st < 3) {
                let r = sd.op.borrow_mut().take();
                match r {
                    Some(Ok(d)) => {
                        if sd.st != 2 { return Some(("S03,S08", "send completes but the message is not sent", l.name.clone())); }
                        if d.id() != sd.id || *d.tag() != sd.got_tag { return Some(("S03,S05", "delivery has the wrong id or tag", l.name.clone())); }
                        sd.st = 3;
                        let (id, ls) = (sd.id, sd.settled);
                        if let Some(e) = s.dels.iter_mut().find(|x| x.snd && x.id == id && x.del.is_none()) { e.del = Some(d); e.ls = ls; }
                    }
                    Some(Err(e)) => {
                        if sd.too_large { if !matches!(e, Err_::BodyTooLarge) && !ldead { return Some(("S03", "message above max-message-size", format!("{e:?}"))); } }
                        else if !ldead && s.st == S::Live { return Some((if matches!(e, Err_::BodyTooLarge) { "S03" } else { "S01,S02,S08" }, "send fails on a link that is in order", format!("{} {e:?}", l.name))); }
                        sd.st = 3;
                    }
                    None => {
                        if sd.too_large { return Some(("S03", "message above max-message-size is not refused", l.name.clone())); }
                        if ldead { return Some(("S08", "send waits for ever on a closed link", l.name.clone())); }
                        if sd.st == 2 { return Some(("S08", "send does not complete", l.name.clone())); }
                        if avail && window && gate_open && l.st == L::Live && s.st == S::Live { return Some(("S01,S02", "message waits although credit and window are available", format!("{} sent {} limit {} window {}/{}", l.name, l.sent, l.lim, s.sent, s.wlim))); }
                    }
                }
            }
            if l.part.is_some() && !ldead && s.st == S::Live { return Some(("S03", "message is not sent completely", l.name.clone())); }
            // receive
            if !l.flows.is_empty() && !ldead && s.st == S::Live && gate_open { return Some(("S04", "granted credit is not sent to the peer", l.name.clone())); }
            if let Some(o) = l.recv_op.clone() { let r = o.borrow_mut().take(); match r {
                Some(Some(Ok((d, t)))) => { l.recv_op = None; if let Some(e) = took(s, k, d, t) { return Some(e); } }
                Some(Some(Err(_))) => { l.recv_op = None; if !l.closed && !ldead || !l.rerr || !l.rq.is_empty() { return Some(("S04,S08", "receive fails", l.name.clone())); } l.rerr = false; }
                Some(None) => { l.recv_op = None; if !l.closed && !ldead || l.rerr || !l.rq.is_empty() { return Some(("S04,S08", "receive ends early", format!("{} {:?}", l.name, l.rq.front()))); } }
                None => { if !l.rq.is_empty() { return Some(("S04", "delivery does not reach the application", l.name.clone())); } if l.closed || ldead { return Some(("S08", "receive waits for ever on a closed link", l.name.clone())); } } } }
        }
        for k in 0..s.dels.len() {
            let d = &mut s.dels[k];
            if let Some(o) = d.wait.clone() { let r = o.borrow_mut().take();
                let exp: Option<Result<Option<DeliveryState>, ()>> = match &d.map { None => Some(Err(())), Some(e) if e.state.is_some() => Some(Ok(e.state.clone())), Some(e) if e.err => Some(Err(())), Some(e) if e.settled => Some(Ok(None)), _ => None };
                match (r, exp) {
                    (None, None) => if down { return Some(("S08", "waiting for the outcome of a delivery never ends", d.id.to_string())); },
                    (None, Some(x)) => return Some((if dead || x.is_err() { "S08,S05" } else { "S05" }, "outcome of a delivery is not reported", format!("delivery {} {x:?}", d.id))),
                    (Some((dl, r)), exp) => {
                        d.wait = None; d.del = Some(dl);
                        // a disposition without outcome wakes the task too
                        let exp = exp.unwrap_or(Ok(None));
                        if down || (exp.is_err() && r.is_err()) { }
                        else if r.is_err() != exp.is_err() || (exp.is_ok() && r.as_ref().ok() != exp.as_ref().ok()) { return Some(("S05", "wrong outcome of a delivery", format!("delivery {} {r:?}, expected {exp:?}", d.id))); }
                        if let Some(e) = &mut d.map { if e.settled { d.rs = true; } if matches!(e.state, Some(DeliveryState::Modified(_))) { e.state = None; } }
                    }
                }
            } else if let Some(x) = &d.del {
                if !down {
                    let exp = d.rs || d.map.as_ref().is_some_and(|e| e.settled);
                    if x.is_remote_settled() != exp { return Some(("S05", "settlement by the peer", format!("delivery {} sender {} expected {exp}", d.id, d.snd))); }
                    let st = d.map.as_ref().and_then(|e| e.state.clone());
                    if x.remote_state() != st { return Some(("S05", "state set by the peer", format!("delivery {} sender {} {:?} expected {st:?}", d.id, d.snd, x.remote_state()))); }
                }
            }
        }
        None
    }

    // ------------------------------------------------------------------ the scenario
    async fn go(&mut self) {
        let p: usize = self.prop.trim_start_matches('S').parse().unwrap_or(0);
        if matches!(p, 1..=8) && self.r.chance(4, 5) {
            // the scenario starts with a session and links in place
            let a: &[usize] = match p { 1 | 2 | 3 => &[1, 5, 5, 7, 6], 4 => &[1, 5, 5, 10, 10, 11], 7 => &[1, 3, 4, 5, 3, 4, 5], _ => &[1, 5, 5, 5, 7, 7, 6, 10, 11] };
            for a in a { if self.bad { return; } self.act(p, *a).await; }
        }
        let steps = 12 + self.r.below(if matches!(p, 5 | 6) { 160 } else { 100 });
        for _ in 0..steps {
            if self.bad { return; }
            self.step().await;
        }
        if !self.bad { self.finale().await; }
    }
    async fn api(&mut self) { if !self.out.is_empty() { self.flush().await; } self.dirty = true; }
    async fn peer(&mut self) { if self.dirty { self.settle().await; } }
    async fn open_gate(&mut self) { self.flush().await; if self.sh.closed.get() { self.t("control service continues"); self.sh.closed.set(false); for w in self.sh.wakers.borrow_mut().drain(..) { w.wake(); } self.settle().await; } }
    fn live(&mut self) -> Option<usize> { let v: Vec<usize> = (0..self.ses.len()).filter(|i| self.ses[*i].st == S::Live && self.ses[*i].api.is_some()).collect(); if v.is_empty() { None } else { Some(*self.r.pick(&v)) } }
    fn link(&mut self, i: usize, f: impl Fn(&Lnk) -> bool) -> Option<usize> { let v: Vec<usize> = (0..self.ses[i].links.len()).filter(|k| f(&self.ses[i].links[*k])).collect(); if v.is_empty() { None } else { Some(*self.r.pick(&v)) } }
    fn free_ph(&mut self, i: usize) -> u32 { loop { let x = match self.r.below(4) { 0 => self.r.below(4) as u32, 1 => u32::MAX - self.r.below(3) as u32, _ => self.r.below(40) as u32 }; if !self.ses[i].links.iter().any(|l| l.ph == Some(x) && l.st != L::Dead) { return x; } } }
    async fn step(&mut self) {
        let p: usize = self.prop.trim_start_matches('S').parse().unwrap_or(0);
        // open session / begin / answers / attach / answers / peer attach / send / flow / disposition / app delivery / peer transfer / app recv+credit / close / peer detach / end / gate / batch
        let wts: [usize; 16] = match p {
            1 => [2, 2, 8, 3, 8, 4, 22, 22, 2, 3, 1, 1, 1, 1, 1, 3],
            2 => [2, 2, 8, 3, 8, 4, 22, 24, 2, 3, 4, 2, 1, 1, 1, 2],
            3 => [2, 2, 8, 4, 8, 4, 30, 20, 2, 3, 1, 1, 2, 1, 1, 1],
            4 => [2, 2, 8, 4, 8, 5, 1, 2, 1, 4, 34, 22, 1, 1, 1, 1],
            5 => [2, 2, 8, 3, 8, 4, 14, 14, 24, 18, 10, 8, 2, 2, 1, 1],
            6 => [2, 2, 8, 3, 8, 4, 12, 12, 14, 28, 14, 12, 2, 2, 1, 1],
            7 => [2, 2, 8, 14, 14, 14, 6, 8, 1, 1, 4, 2, 12, 12, 2, 4],
            8 => [4, 3, 8, 8, 8, 8, 14, 10, 2, 10, 4, 8, 6, 6, 4, 2],
            9 => [18, 14, 18, 4, 6, 4, 4, 4, 1, 1, 2, 1, 1, 1, 14, 1],
            _ => [4, 4, 8, 6, 8, 6, 12, 12, 8, 8, 8, 8, 3, 3, 3, 2],
        };
        let tot: usize = wts.iter().sum();
        let mut x = self.r.below(tot); let mut a = 0; while x >= wts[a] { x -= wts[a]; a += 1; }
        let alive = self.ses.iter().filter(|s| s.st != S::Dead).count();
        if alive == 0 && !matches!(a, 0 | 1) { a = self.r.below(2); }
        self.act(p, a).await;
    }
    async fn act(&mut self, p: usize, a: usize) {
        let alive = self.ses.iter().filter(|s| s.st != S::Dead).count();
        match a {
            0 => { if p != 9 && alive >= 3 { return; } self.api().await; self.t("app: open session"); let o = op(self.con().open_session().attach()); self.opens.push(o); self.settle().await; }
            1 => {
                if alive > self.chmax as usize || (p != 9 && alive >= 3) { return; }
                self.open_gate().await; self.peer().await;
                let ch = self.free_ch(); let mut s = ses(ch, S::PeerOpening);
                let b = self.begin(&mut s, None); self.ses.push(s);
                self.put(ch, Frame::Begin(b)); self.flush().await;
                let n = self.ses.len() - 1; if !self.bad && self.ses[n].st == S::PeerOpening { self.viol("S09", "begin of the peer is not answered", ""); }
            }
            2 => {
                let v: Vec<usize> = (0..self.ses.len()).filter(|i| matches!(self.ses[*i].st, S::SutOpening | S::SutEnded)).collect();
                if v.is_empty() { return; }
                let i = *self.r.pick(&v);
                self.open_gate().await; self.peer().await;
                let ch = self.ses[i].peer_ch;
                if self.ses[i].st == S::SutOpening {
                    let c = self.ses[i].ch; let mut s = self.ses.remove(i); let b = self.begin(&mut s, c); s.st = S::Live; self.ses.insert(i, s);
                    self.put(ch, Frame::Begin(b)); self.flush().await;
                } else {
                    let e = if self.r.chance(1, 4) { Some(err_frame()) } else { None };
                    self.ses[i].end_err = e.is_some(); self.put(ch, Frame::End(End { error: e })); self.ses_dead(i); self.flush().await;
                }
            }
            3 => { // the application attaches a link
                let Some(i) = self.live() else { return }; if self.ses[i].links.iter().filter(|l| l.st != L::Dead).count() > 5 { return; }
                self.api().await; self.serial += 1;
                // names of links that are gone can be used again
                let dead = self.link(i, |l| l.st == L::Dead);
                let name = match dead { Some(k) if self.r.bool() && !self.ses[i].links[k].rej && !{ let n = self.ses[i].links[k].name.clone(); self.ses[i].links.iter().any(|l| l.st != L::Dead && l.name == n) } => self.ses[i].links[k].name.clone(), _ => format!("l{}", self.serial) };
                let snd = match p { 1 | 2 | 3 => true, 4 => false, _ => self.r.bool() };
                let mut l = lnk(if snd { K::LocSnd } else { K::LocRcv }, &name, L::SutOpening);
                let api = self.ses[i].api.clone().unwrap(); let addr = format!("a{}", self.serial);
                self.t(&format!("app: attach {} {name}", if snd { "sender" } else { "receiver" }));
                if snd { l.aop_s = Some(op(api.build_sender_link(name, addr).attach())); } else { l.aop_r = Some(op(api.build_receiver_link(name, addr).attach())); }
                self.ses[i].links.push(l);
                self.settle().await;
                let n = self.ses[i].links.len() - 1;
                if !self.bad && self.ses[i].links[n].sh.is_none() { self.viol("S07", "attach is not sent", ""); }
            }
            4 => { // the peer answers an attach or a detach
                let Some(i) = self.live() else { return };
                let Some(k) = self.link(i, |l| matches!(l.st, L::SutOpening | L::SutDet)) else { return };
                self.open_gate().await; self.peer().await;
                if self.bad || self.ses[i].st != S::Live { return; }
                let ch = self.ses[i].peer_ch;
                if self.ses[i].links[k].st == L::SutOpening {
                    let h = self.ses[i].links[k].sh.unwrap();
                    let refuse = self.r.chance(1, 6);
                    if refuse && self.r.bool() && !self.ses[i].links.iter().any(|l| l.ph == Some(h) && l.st != L::Dead) {
                        self.ses[i].links[k].st = L::Dead;
                        self.put(ch, Frame::Detach(Detach(Box::new(DetachInner { handle: h, closed: true, error: Some(err_frame()) })))); self.flush().await; return;
                    }
                    let ph = self.free_ph(i);
                    let kind = self.ses[i].links[k].kind;
                    let idc = if kind.snd() { None } else { Some(*self.r.pick(&[0u32, 0, 7, u32::MAX - 1])) };
                    let mm = if kind.snd() && self.r.chance(1, 3) { Some(*self.r.pick(&[0u64, 10, 100, 3000, (1 << 32) + 20])) } else { None };
                    let at = attach(&self.ses[i].links[k].name, ph, if kind.snd() { Role::Receiver } else { Role::Sender }, idc, mm, "x");
                    let l = &mut self.ses[i].links[k]; l.ph = Some(ph); l.st = L::Live; l.maxmsg = mm; l.base = idc.unwrap_or(0);
                    self.put(ch, Frame::Attach(at));
                    if refuse { self.flush().await; if self.bad { return; } let l = &mut self.ses[i].links[k]; l.st = L::PeerDet; l.closed = true; l.rerr = true; self.put(ch, Frame::Detach(Detach(Box::new(DetachInner { handle: ph, closed: true, error: Some(err_frame()) })))); }
                    self.flush().await;
                } else { self.peer_detach(i, k).await; }
            }
            5 => { // the peer attaches a link
                let Some(i) = self.live() else { return }; if self.ses[i].links.iter().filter(|l| l.st != L::Dead).count() > 5 { return; }
                self.peer().await; if self.bad { return; } self.serial += 1;
                let snd = match p { 1 | 2 | 3 => true, 4 => false, _ => self.r.bool() };
                let rej = self.r.chance(1, 10);
                let dead = self.link(i, |l| l.st == L::Dead);
                let name = match dead { Some(k) if !rej && self.r.bool() && !self.ses[i].links[k].rej && !{ let n = self.ses[i].links[k].name.clone(); self.ses[i].links.iter().any(|l| l.st != L::Dead && l.name == n) } => self.ses[i].links[k].name.clone(), _ => format!("{}{}", if rej { "rej" } else { "p" }, self.serial) };
                let mut l = lnk(if snd { K::RemSnd } else { K::RemRcv }, &name, L::PeerOpening);
                let ph = self.free_ph(i); l.ph = Some(ph); l.rej = rej;
                let idc = if snd { *self.r.pick(&[None, Some(0), Some(9), Some(u32::MAX), Some(u32::MAX - 2)]) } else { Some(*self.r.pick(&[0u32, 5, u32::MAX, u32::MAX - 3])) };
                let mm = if snd && self.r.chance(1, 3) { Some(*self.r.pick(&[0u64, 10, 100, 3000, (1 << 32) + 20])) } else { None };
                l.base = idc.unwrap_or(0); l.maxmsg = mm;
                let at = attach(&name, ph, if snd { Role::Receiver } else { Role::Sender }, idc, mm, &format!("src{}", self.serial));
                self.ses[i].links.push(l); let ch = self.ses[i].peer_ch;
                self.put(ch, Frame::Attach(at));
                if snd && self.r.chance(1, 3) { let k = self.ses[i].links.len() - 1; self.flow(i, Some(k)).await; }
                self.flush().await;
            }
            6 => { // the application sends
                let Some(i) = self.live() else { return };
                let Some(k) = self.link(i, |l| l.kind.snd() && l.snd.is_some() && l.st == L::Live && !l.may_detach) else { return };
                self.api().await; if self.bad || self.ses[i].links[k].st != L::Live || self.ses[i].st != S::Live { return; }
                for _ in 0..1 + self.r.below(3) { self.send(i, k); }
                if self.r.chance(3, 4) { self.settle().await; }
            }
            7 => {
                let Some(i) = self.live() else { return };
                self.peer().await; if self.bad { return; }
                let gate = self.sh.closed.get();
                let k = self.link(i, |l| l.kind.snd() && matches!(l.st, L::Live | L::PeerOpening) && l.ph.is_some() && (!gate || l.st == L::PeerOpening) && !l.rej);
                if gate && k.is_none() { return; }
                let k = if gate || self.r.chance(4, 5) { k } else { None };
                self.flow(i, k).await;
                if self.r.chance(3, 4) { self.flush().await; }
            }
            8 => { let Some(i) = self.live() else { return }; self.disposition(i).await; }
            9 => { let Some(i) = self.live() else { return }; self.app_delivery(i).await; }
            10 => { let Some(i) = self.live() else { return }; for _ in 0..if self.r.chance(1, 25) { 40 } else { 1 } { if self.bad || self.ses[i].st != S::Live { return; } self.peer_transfer(i).await; } }
            11 => {
                let Some(i) = self.live() else { return };
                let Some(k) = self.link(i, |l| l.rcv.is_some() && l.sh.is_some() && l.st != L::PeerOpening && !l.rej) else { return };
                self.api().await; if self.bad { return; }
                let l = &mut self.ses[i].links[k]; let rc = l.rcv.clone().unwrap();
                match self.r.below(5) {
                    0 => {
                        let n = *self.r.pick(&[1u32, 2, 3, 10, 100, u32::MAX]);
                        // a detached link gets no credit
                        if l.st != L::Live { self.t(&format!("app: credit {n}")); rc.set_link_credit(n); return self.settle().await; }
                        let dc = l.base.wrapping_add(l.rcvd as u32); l.icredit = (l.icredit + n as u64).min(u32::MAX as u64); l.flows.push_back((dc, n));
                        self.t(&format!("app: credit {n}")); rc.set_link_credit(n);
                    }
                    1 if l.st == L::Live => { let n = *self.r.pick(&[64usize, 300, 2000, 262_144]); if l.partial.is_none() { l.maxsz = n; self.t(&format!("app: max size {n}")); rc.set_max_message_size(n as u64); } }
                    2 => {
                        self.settle().await; if self.bad { return; }
                        if self.ses[i].links[k].recv_op.is_some() { return; }
                        self.t("app: get delivery");
                        if rc.has_deliveries() == self.ses[i].links[k].rq.is_empty() { return self.viol("S04", "has_deliveries is wrong", ""); }
                        match rc.get_delivery() {
                            None => if !self.ses[i].links[k].rq.is_empty() { self.viol("S04", "delivery does not reach the application", ""); },
                            Some((d, t)) => if let Some(e) = took(&mut self.ses[i], k, d, t) { self.viol(e.0, e.1, &e.2) },
                        }
                    }
                    _ => if l.recv_op.is_none() { let r2 = rc.clone(); l.recv_op = Some(op(async move { r2.recv().await })); self.t("app: receive"); },
                }
                self.settle().await;
            }
            12 => {
                let Some(i) = self.live() else { return };
                self.open_gate().await; self.api().await; if self.bad { return; } self.settle().await; if self.bad || self.ses[i].st != S::Live { return; }
                let Some(k) = self.link(i, |l| l.st == L::Live && (l.snd.is_some() || l.rcv.is_some()) && !l.may_detach) else { return };
                self.t(&format!("app: close {}", self.ses[i].links[k].name.clone()));
                let e = self.r.below(3);
                let api = self.ses[i].api.clone().unwrap();
                let l = &mut self.ses[i].links[k]; l.may_detach = true; l.flows.clear();
                let o = match (&l.snd, &l.rcv) {
                    (Some(x), _) => match e { 0 => { let x = x.clone(); op(async move { x.close().await }) }, 1 => { let x = x.clone(); op(async move { x.close_with_error(LErr::force_detach()).await }) }, _ => { let h = x.id(); op(async move { api.detach_sender_link(h, Some(err_frame())).await }) } },
                    (_, Some(x)) => match e { 0 => { let x = x.clone(); op(async move { x.close().await }) }, 1 => { let x = x.clone(); op(async move { x.close_with_error(LErr::force_detach()).await }) }, _ => { let h = x.handle(); op(async move { api.detach_receiver_link(h, None).await }) } },
                    _ => unreachable!(),
                };
                l.close_ops.push(o);
                self.settle().await;
            }
            13 => {
                let Some(i) = self.live() else { return };
                if self.r.chance(3, 4) || !self.ses[i].links.iter().any(|l| l.st == L::PeerOpening) { self.open_gate().await; }
                self.peer().await; if self.bad || self.ses[i].st != S::Live { return; }
                let gate = self.sh.closed.get();
                let Some(k) = self.link(i, |l| if gate { l.st == L::PeerOpening } else { matches!(l.st, L::Live | L::SutDet) } && l.ph.is_some()) else { return };
                self.peer_detach(i, k).await;
            }
            14 => { if p != 9 && p != 8 && self.r.bool() { return; } let Some(i) = self.live() else { return }; self.open_gate().await; self.end(i).await; }
            _ => { self.flush().await; if self.sh.closed.get() { self.open_gate().await } else if self.live().is_some() { self.t("control service waits"); self.sh.closed.set(true); } }
        }
    }
    fn begin(&mut self, s: &mut Ses, rc: Option<u16>) -> Begin {
        let w = *self.r.pick(&[0u32, 1, 2, 5, 100, u32::MAX, u32::MAX]);
        s.wlim = w as u64; s.wmax = s.wlim; s.nout = *self.r.pick(&[0u32, 1, 77, u32::MAX, u32::MAX - 1]); s.nout_lo = s.nout;
        s.rid = *self.r.pick(&[0u32, 1, 50, u32::MAX, u32::MAX - 2, 0x7fff_ffff]);
        Begin(Box::new(BeginInner { remote_channel: rc, next_outgoing_id: s.nout, incoming_window: w, outgoing_window: 1000, handle_max: u32::MAX, offered_capabilities: None, desired_capabilities: None, properties: None }))
    }
    fn send(&mut self, i: usize, k: usize) {
        self.serial += 1;
        let l = &mut self.ses[i].links[k]; let r = &mut self.r;
        let chunk = if self.mfs > 2048 { self.mfs as usize - 2048 } else { self.mfs as usize / 2 };
        let len = match r.below(6) { 0 => 4, 1 => 4 + r.below(20), 2 => (chunk.min(3000) + r.below(5)).saturating_sub(2).max(4), 3 => (chunk.min(1500) * (2 + r.below(2)) + r.below(3)).saturating_sub(1).max(4), _ => 4 + r.below(300) };
        let len = if chunk < 10 { len.min(60) } else { len };
        let empty = r.chance(1, 40) && l.sends.iter().all(|x| !x.exp.is_empty());
        let mut data = self.serial.to_le_bytes().to_vec(); while data.len() < len { data.push(r.u64() as u8); } data.truncate(if empty { 0 } else { len.max(4) });
        let (body, exp, bfmt): (TransferBody, Vec<u8>, Option<u32>) = if chunk < 40 || empty || r.chance(2, 3) { (TransferBody::Data(Bytes::from(data.clone())), data, None) } else {
            let mut m = Message::with_body(Bytes::from(data)); if r.bool() { m.set_format(77); }
            let b = TransferBody::Message(m); let f = b.message_format(); let mut o = BytesMut::new(); b.encode(&mut o); (b, o.to_vec(), f) };
        let (tag, settled, fmt) = (if r.bool() { Some(Bytes::from(format!("tag-{}", self.serial).into_bytes())) } else { None }, r.chance(1, 4), if r.chance(1, 4) { Some(5u32) } else { None });
        let mut b = l.snd.as_ref().unwrap().transfer(body);
        if let Some(t) = &tag { b = b.tag(t.clone()); } if settled { b = b.settled(); } if let Some(f) = fmt { b = b.format(f); }
        let too_large = l.maxmsg.is_some_and(|m| m != 0 && exp.len() as u64 > m);
        let s = format!("app: send {} bytes on {} settled {settled}", exp.len(), l.name);
        l.sends.push(Send_ { exp, tag, settled, fmt: fmt.or(bfmt), op: op(b.send()), st: 0, id: 0, got_tag: Bytes::new(), too_large });
        if r.chance(1, 6) { let x = l.snd.clone().unwrap(); l.ready_ops.push(op(async move { x.ready().await })); }
        self.t(&s);
    }
    /// the peer sends a flow; what it has seen so far may lag behind what was sent
    async fn flow(&mut self, i: usize, k: Option<usize>) {
        let s = &mut self.ses[i]; let r = &mut self.r;
        let lag = if r.chance(1, 3) { r.below(4) as u64 } else { 0 };
        let seen = s.sent.saturating_sub(lag);
        let w = *r.pick(&[0u32, 1, 2, 3, 50, 1000, u32::MAX, u32::MAX]);
        s.wlim = (seen + w as u64).max(if seen < s.sent { 0 } else { s.sent }); s.wmax = s.wmax.max(s.wlim);
        if s.wlim < s.sent { s.wlim = s.sent; }
        let echo = r.chance(1, 5); if echo { s.echo += 1; }
        let nid = if seen == 0 && r.bool() { None } else { Some(1u32.wrapping_add(seen as u32)) };
        let (mut h, mut dc, mut cr) = (None, None, None);
        if let Some(k) = k {
            let l = &mut s.links[k]; h = l.ph;
            let lag = if r.chance(1, 3) { r.below(4) as u64 } else { 0 };
            let seen = l.sent.saturating_sub(lag);
            dc = Some(l.base.wrapping_add(seen as u32)); if l.base == 0 && seen == 0 && r.bool() { dc = None; }
            let opening = l.st == L::PeerOpening;
            if r.chance(9, 10) { let c = *r.pick(&[0u32, 1, 1, 2, 3, 7, 50, 1000, u32::MAX]); cr = Some(c); l.lim = (seen + c as u64).max(l.sent); l.lmax = l.lmax.max(l.lim); }
            if opening && cr.is_none() { h = None; dc = None; }
        }
        let f = Flow(Box::new(FlowInner { next_incoming_id: nid, incoming_window: w, next_outgoing_id: s.nout, outgoing_window: 1000, handle: h, delivery_count: dc, link_credit: cr, available: None, drain: false, echo, properties: None }));
        let ch = s.peer_ch; self.put(ch, Frame::Flow(f));
    }
    async fn disposition(&mut self, i: usize) {
        self.flush().await; if self.bad || self.ses[i].dels.is_empty() || self.sh.closed.get() { return; }
        let s = &mut self.ses[i]; let r = &mut self.r;
        let pick = r.below(s.dels.len()); let d = &s.dels[pick];
        let snd = if r.chance(1, 8) { !d.snd } else { d.snd };
        let first = match r.below(6) { 0 => d.id.wrapping_sub(r.below(3) as u32), 1 => r.u64() as u32, _ => d.id };
        let last = match r.below(6) { 0 | 1 => None, 2 => Some(first), 3 => Some(first.wrapping_add(r.below(4) as u32)), 4 => Some(first.wrapping_add(i32::MAX as u32 - r.below(2) as u32)), _ => Some(first.wrapping_sub(1 + r.below(3) as u32)) };
        let settled = r.chance(2, 3); let state = if r.chance(3, 4) { Some(state_of(r)) } else { None };
        for d in s.dels.iter_mut().filter(|d| d.snd == snd) {
            let hit = match last { None => d.id == first, Some(l) => { let n = l.wrapping_sub(first); n <= i32::MAX as u32 && d.id.wrapping_sub(first) <= n } };
            if hit { if let Some(e) = &mut d.map { if settled { e.settled = true; } if state.is_some() { e.state = state.clone(); } } }
        }
        let ch = s.peer_ch;
        self.put(ch, Frame::Disposition(Disposition(Box::new(DispositionInner { role: if snd { Role::Receiver } else { Role::Sender }, first, last, settled, state, batchable: false }))));
        self.flush().await;
    }
    async fn app_delivery(&mut self, i: usize) {
        self.flush().await; if self.bad || !matches!(self.ses[i].st, S::Live | S::SutEnded | S::Dead) { return; }
        self.dirty = true;
        // nothing is sent over a session that is ended
        let live = self.ses[i].st == S::Live && !self.down;
        let s = &mut self.ses[i]; let r = &mut self.r;
        let v: Vec<usize> = (0..s.dels.len()).filter(|k| s.dels[*k].del.is_some() && s.dels[*k].wait.is_none()).collect();
        if v.is_empty() { return; }
        let k = *r.pick(&v); let d = &mut s.dels[k];
        let role = if d.snd { Role::Sender } else { Role::Receiver };
        let rs = d.rs || d.map.as_ref().is_some_and(|e| e.settled);
        let what;
        match r.below(7) {
            0 | 1 => { let st = state_of(r); if !rs && !d.ls { if live { s.disp.push_back((role, d.id, true, st.clone())); } d.ls = true; } what = "settle"; d.del.as_mut().unwrap().settle(st); }
            2 => { let st = state_of(r); if live && !rs && !d.ls { s.disp.push_back((role, d.id, false, st.clone())); } what = "update"; d.del.as_mut().unwrap().update_state(st); }
            3 => { if live && d.map.is_some() && !rs && !d.ls { s.disp.push_back((role, d.id, true, dropped_state())); } what = "drop"; drop(d.del.take()); d.map = None; }
            _ => { if d.ls { let dl = d.del.take().unwrap(); let o = op(async move { let r = dl.wait().await; (dl, r) }); d.del = None; what = "wait (settled)"; yields(6).await;
                    let x = o.borrow_mut().take();
                    match x { Some((dl, Ok(None))) => self.ses[i].dels[k].del = Some(dl), x => { let e = format!("{x:?}"); return self.viol("S06,S05", "waiting for a delivery that is settled locally", &e) } } }
                else { let dl = d.del.take().unwrap(); d.wait = Some(op(async move { let r = dl.wait().await; (dl, r) })); what = "wait"; } }
        }
        let id = self.ses[i].dels[k].id; self.t(&format!("app: {what} delivery {id} {role:?}"));
        self.settle().await;
    }
    async fn peer_transfer(&mut self, i: usize) {
        self.peer().await; if self.bad || self.ses[i].st != S::Live || self.sh.closed.get() { return; }
        let Some(k) = self.link(i, |l| !l.kind.snd() && l.st == L::Live && l.rcv.is_some() && !l.may_detach && !l.rej) else { return };
        let s = &mut self.ses[i]; let r = &mut self.r; let ch = s.peer_ch;
        let l = &mut s.links[k];
        let mut t = TransferInner { handle: l.ph.unwrap(), delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false, body: None };
        let mut kill = None;
        if l.icredit == 0 {
            if l.partial.is_some() { return; }
            // no credit at all
            if !r.chance(1, 3) { return; }
            t.delivery_id = Some(s.rid); s.rid = s.rid.wrapping_add(1); t.delivery_tag = Some(Bytes::from_static(b"x")); t.body = Some(TransferBody::Data(Bytes::from_static(b"over"))); kill = Some(LinkError::TransferLimitExceeded);
        } else if l.partial.is_none() {
            if l.rcvd >= l.adv { return; }
            self.serial += 1;
            let id = s.rid; s.rid = s.rid.wrapping_add(1);
            let tag = Bytes::from(format!("{}", self.serial).into_bytes());
            let n = r.below(60).min(l.maxsz); let body: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            let settled = r.chance(1, 3);
            t.delivery_id = Some(id); t.delivery_tag = Some(tag.clone()); t.message_format = if r.bool() { Some(3) } else { None }; t.settled = if settled { Some(true) } else if r.bool() { Some(false) } else { None };
            t.more = r.chance(1, 3); if n > 0 || r.bool() { t.body = Some(TransferBody::Data(Bytes::from(body.clone()))); }
            if r.chance(1, 25) { t.delivery_id = None; kill = Some(LinkError::DetachForced); }
            else {
                let x = In { id, tag, settled, fmt: t.message_format, body };
                s.dels.push(Del { id, snd: false, del: None, ls: settled, rs: false, map: if settled { None } else { Some(Ent::default()) }, wait: None, link: k });
                if t.more { l.partial = Some(x) } else { l.rq.push_back(x); l.rcvd += 1; l.icredit -= 1; }
            }
        } else {
            let p = l.partial.as_mut().unwrap();
            let n = r.below(60); let body: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            t.more = r.chance(1, 3); if n > 0 { t.body = Some(TransferBody::Data(Bytes::from(body.clone()))); }
            if r.chance(1, 3) { t.delivery_id = Some(p.id); }
            if r.chance(1, 25) { t.delivery_id = Some(p.id.wrapping_add(1)); kill = Some(LinkError::DetachForced); }
            else if n > 0 && p.body.len() + n > l.maxsz { kill = Some(LinkError::MessageSizeExceeded); }
            else { p.body.extend_from_slice(&body); if !t.more { let x = l.partial.take().unwrap(); l.rq.push_back(x); l.rcvd += 1; l.icredit -= 1; } }
        }
        s.nout = s.nout.wrapping_add(1);
        if let Some(c) = kill { l.may_detach = true; l.cond = Some(c); l.flows.clear(); }
        self.put(ch, Frame::Transfer(Transfer(Box::new(t))));
        if kill_some(&self.ses[i].links[k]) || self.r.chance(2, 3) { self.flush().await; }
    }
    /// the peer detaches a link, or confirms a detach
    async fn peer_detach(&mut self, i: usize, k: usize) {
        self.flush().await; if self.bad { return; }
        let ch = self.ses[i].peer_ch; let s = &mut self.ses[i];
        let l = &mut s.links[k];
        if !matches!(l.st, L::Live | L::SutDet | L::PeerOpening) { return; }
        // a link whose attach was never answered is answered first
        if l.ph.is_none() { return; }
        let e = if self.r.bool() { Some(err_frame()) } else { None };
        let was = l.st; let snd = l.kind.snd();
        if was != L::SutDet { l.st = if was == L::Live { L::PeerDet } else { L::PeerGone }; if !l.closed { l.rerr = e.is_some(); } l.closed = true; } else { l.st = L::Dead; }
        for d in s.dels.iter_mut().filter(|d| d.link == k && d.snd == snd) { if let Some(e) = &mut d.map { e.err = true; } }
        let h = s.links[k].ph.unwrap();
        self.put(ch, Frame::Detach(Detach(Box::new(DetachInner { handle: h, closed: true, error: e })))); self.flush().await;
    }
    async fn end(&mut self, i: usize) {
        self.flush().await; if self.bad || self.ses[i].st != S::Live { return; }
        let ch = self.ses[i].peer_ch;
        if self.r.bool() {
            self.t("app: end session"); let api = self.ses[i].api.clone().unwrap(); self.dirty = true;
            let o = { let api = api.clone(); op(async move { api.end().await }) }; self.ses[i].end_ops.push(o);
            self.settle().await; if self.bad { return; }
            if self.ses[i].st != S::SutEnded { return self.viol("S09", "end is not sent", ""); }
            if self.r.bool() { let o = { let api = api.clone(); op(async move { api.end().await }) }; self.ses[i].end_ops.push(o); self.settle().await; if self.bad { return; } }
            for _ in 0..self.r.below(4) { self.after_end(i).await; if self.bad { return; } }
            if self.r.chance(1, 3) { // frames that cross the end are ignored
                let s = &self.ses[i]; let f = Flow(Box::new(FlowInner { next_incoming_id: Some(1), incoming_window: 10, next_outgoing_id: s.nout, outgoing_window: 1, handle: None, delivery_count: None, link_credit: None, available: None, drain: false, echo: true, properties: None }));
                self.put(ch, Frame::Flow(f)); self.flush().await;
            }
        } else {
            let e = if self.r.chance(1, 3) { Some(err_frame()) } else { None };
            self.ses[i].st = S::PeerEnded; self.put(ch, Frame::End(End { error: e })); self.flush().await; if self.bad { return; }
            if self.ses[i].st != S::Dead { return self.viol("S09", "end of the peer is not answered", ""); }
            self.settle().await; if self.bad { return; }
            self.after_death(i).await;
        }
    }
    /// the session is ended, the peer has not answered: operations send nothing, and end with the session at the latest
    async fn after_end(&mut self, i: usize) {
        self.dirty = true;
        match self.r.below(5) {
            0 => if let Some(k) = self.link(i, |l| l.kind.snd() && l.snd.is_some() && l.st == L::Live) { self.t("app: late send"); self.send(i, k); },
            1 | 2 => self.app_delivery(i).await,
            3 => if let Some(k) = self.link(i, |l| l.rcv.is_some() && l.sh.is_some() && !l.rej) { self.t("app: late credit"); self.ses[i].links[k].rcv.clone().unwrap().set_link_credit(3); },
            _ => {
                let api = self.ses[i].api.clone().unwrap(); self.serial += 1; let name = format!("l{}", self.serial); self.t("app: late attach");
                let snd = self.r.bool(); let mut l = lnk(if snd { K::LocSnd } else { K::LocRcv }, &name, L::SutOpening);
                if snd { l.aop_s = Some(op(api.build_sender_link(name, "a").attach())); } else { l.aop_r = Some(op(api.build_receiver_link(name, "a").attach())); }
                self.ses[i].links.push(l);
            }
        }
        self.settle().await;
    }
    /// operations on a session that is gone fail at once
    async fn after_death(&mut self, i: usize) {
        let Some(api) = self.ses[i].api.clone() else { return };
        self.t("app: operations on a dead session");
        self.dirty = true;
        let mut v: Vec<(&'static str, Op<bool>)> = vec![];
        if let Some(k) = self.link(i, |l| l.snd.is_some()) { let x = self.ses[i].links[k].snd.clone().unwrap(); let y = x.clone(); let z = x.clone();
            v.push(("send", op(async move { x.transfer(Bytes::from_static(b"late")).send().await.is_err() }))); v.push(("ready", op(async move { !y.ready().await }))); v.push(("close", op(async move { let _ = z.close().await; true }))); }
        if let Some(k) = self.link(i, |l| l.rcv.is_some() && l.rq.is_empty() && l.recv_op.is_none() && l.sh.is_some()) { let x = self.ses[i].links[k].rcv.clone().unwrap(); let y = x.clone();
            v.push(("receive", op(async move { !matches!(x.recv().await, Some(Ok(_))) }))); self.ses[i].links[k].rerr = false; v.push(("close", op(async move { let _ = y.close().await; true }))); }
        let (a, b, c) = (api.clone(), api.clone(), api);
        v.push(("attach", op(async move { a.build_sender_link("late", "late").attach().await.is_err() })));
        v.push(("attach", op(async move { b.build_receiver_link("late", "late").attach().await.is_err() })));
        v.push(("end", op(async move { let _ = c.end().await; true })));
        self.settle().await; if self.bad { return; }
        for (n, o) in v { let r = *o.borrow(); match r { None => return self.viol("S08", "operation on a dead session waits for ever", n), Some(false) => return self.viol("S08", "operation on a dead session succeeds", n), _ => {} } }
        for _ in 0..self.r.below(4) { self.app_delivery(i).await; if self.bad { return; } }
    }
    /// the connection goes away: nothing is left waiting
    async fn finale(&mut self) {
        self.open_gate().await; self.flush().await; if self.bad { return; }
        self.may_close = true;
        let mut answer = false;
        match self.r.below(7) {
            0 => { self.t("peer: close"); let e = if self.r.bool() { Some(err_frame()) } else { None }; self.put(0, Frame::Close(Close { error: e })); answer = true; }
            1 => { self.t("peer: disconnect"); self.io.close().await; }
            2 => { self.t("app: close"); let _ = { let c = self.con(); op(async move { c.close().await }) }; }
            3 => { self.t("app: force close"); self.con().force_close(); }
            4 => { // a channel which has no session any more, or never had one
                self.t("peer: unknown channel");
                let v: Vec<u16> = self.ses.iter().filter(|s| s.st == S::Dead && !self.ses.iter().any(|x| x.st != S::Dead && x.peer_ch == s.peer_ch)).map(|s| s.peer_ch).collect();
                let ch = if v.is_empty() || self.r.chance(1, 4) { 999 } else { *self.r.pick(&v) };
                let f = if self.r.bool() { Frame::End(End { error: None }) } else { Frame::Flow(Flow(Box::new(FlowInner { next_incoming_id: Some(1), incoming_window: 10, next_outgoing_id: 1, outgoing_window: 1, handle: None, delivery_count: None, link_credit: None, available: None, drain: false, echo: false, properties: None }))) };
                self.put(ch, f); }
            5 => { self.t("peer: garbage"); self.out.extend_from_slice(&[0, 0, 0, 12, 2, 0, 0, 0, 0xff, 0xff, 0xff, 0xff]); }
            _ => { let Some(i) = self.live() else { self.con().force_close(); self.down = true; self.settle().await; return };
                self.t("peer: unknown handle"); let ch = self.ses[i].peer_ch; let mut h = 5000; while self.ses[i].links.iter().any(|l| l.ph == Some(h)) { h += 1; }
                let t = TransferInner { handle: h, delivery_id: Some(1), delivery_tag: Some(Bytes::from_static(b"x")), message_format: None, settled: None, more: false, rcv_settle_mode: None, state: None, resume: false, aborted: false, batchable: false, body: Some(TransferBody::Data(Bytes::from_static(b"x"))) };
                self.put(ch, Frame::Transfer(Transfer(Box::new(t)))); }
        }
        self.down = true;
        for s in &mut self.ses { for d in &mut s.dels { d.map = None; } s.echo = 0; s.disp.clear(); for l in &mut s.links { l.closed = true; } }
        // responses are only due while the connection is up
        let out = std::mem::take(&mut self.out); if !out.is_empty() { self.io.write(&out); }
        for _ in 0..60 { yields(8).await; let fs = take_frames(&self.io, &mut self.rbuf, &self.codec); for (_, f, _) in fs { if matches!(f, Frame::Close(_)) { self.close_seen = true; } } if self.sh.done.get() && !self.con().is_opened() { break; } }
        for _ in 0..200 { if self.sh.done.get() { break; } ntex_util::time::sleep(ntex_util::time::Millis(5)).await; yields(4).await; }
        if answer && !self.close_seen { return self.viol("S09", "close of the peer is not answered", ""); }
        if self.con().is_opened() { return self.viol("S08,S09", "connection is reported open", ""); }
        self.settle().await; if self.bad { return; }
        if !self.sh.done.get() { return self.viol("S08", "connection task does not end", ""); }
        let con = self.con();
        let (a, b) = (op(async move { con.open_session().attach().await.is_err() }), self.con());
        let b = op(async move { b.on_close().await; true });
        yields(12).await;
        let (ra, rb) = (*a.borrow(), *b.borrow());
        if ra != Some(true) || rb != Some(true) { { let e_: String = format!("open session {ra:?} on_close {rb:?}"); return self.viol("S08", "operation on a dead connection does not fail", &e_) }; }
        if let Some(i) = { let v: Vec<usize> = (0..self.ses.len()).filter(|i| self.ses[*i].api.is_some()).collect(); if v.is_empty() { None } else { Some(*self.r.pick(&v)) } } { self.after_death(i).await; }
        // nothing blows up when what is left is dropped
        self.ses.clear(); yields(4).await;
    }
}
fn kill_some(l: &Lnk) -> bool { l.cond.is_some() }
/// the application gets a delivery: it is the next one of the link, with the whole message
fn took(s: &mut Ses, k: usize, d: Delivery, t: Transfer) -> Option<(&'static str, &'static str, String)> {
    let l = &mut s.links[k];
    let Some(x) = l.rq.pop_front() else { return Some(("S04", "delivery that was not sent", format!("{t:?}"))) };
    let body: Vec<u8> = match t.body() { Some(TransferBody::Data(b)) => b.to_vec(), None => vec![], _ => vec![1; 9999] };
    if d.id() != x.id || *d.tag() != x.tag || t.message_format() != x.fmt || t.handle() != l.ph.unwrap() { return Some(("S04", "deliveries arrive out of order or with the wrong id", format!("got {} {:?}, expected {x:?}", d.id(), d.tag()))); }
    if body != x.body { return Some(("S04", "message arrives with wrong bytes", format!("{} bytes, expected {}", body.len(), x.body.len()))); }
    if let Some(e) = s.dels.iter_mut().rev().find(|e| !e.snd && e.id == x.id && e.del.is_none() && e.link == k) { e.del = Some(d); }
    None
}
fn attach(name: &str, h: u32, role: Role, idc: Option<u32>, mm: Option<u64>, addr: &str) -> Attach {
    let src = Source { address: Some(ByteString::from(addr)), durable: TerminusDurability::None, expiry_policy: TerminusExpiryPolicy::SessionEnd, timeout: 0, dynamic: false, dynamic_node_properties: None, distribution_mode: None, filter: None, default_outcome: None, outcomes: None, capabilities: None };
    let tgt = Target { address: Some(ByteString::from("t")), durable: TerminusDurability::None, expiry_policy: TerminusExpiryPolicy::SessionEnd, timeout: 0, dynamic: false, dynamic_node_properties: None, capabilities: None };
    Attach(Box::new(AttachInner { name: ByteString::from(name), handle: h, role, snd_settle_mode: SenderSettleMode::Mixed, rcv_settle_mode: ReceiverSettleMode::First, source: Some(src), target: Some(tgt), unsettled: None, incomplete_unsettled: false,
        initial_delivery_count: idc, max_message_size: mm, offered_capabilities: None, desired_capabilities: None, properties: None }))
}
fn ses(peer_ch: u16, st: S) -> Ses { Ses { peer_ch, ch: None, st, api: None, open: None, end_ops: vec![], end_err: false, sent: 0, wlim: 0, wmax: 0, nout: 0, nout_lo: 0, rid: 0, links: vec![], dels: vec![], disp: VecDeque::new(), echo: 0 } }
fn lnk(kind: K, name: &str, st: L) -> Lnk {
    Lnk { kind, name: name.into(), sh: None, ph: None, st, snd: None, rcv: None, aop_s: None, aop_r: None, close_ops: vec![], ready_ops: vec![], may_detach: false, cond: None, rej: false, base: 0, sent: 0, lim: 0, lmax: 0, maxmsg: None, sends: vec![], part: None, tags: vec![],
        rq: VecDeque::new(), partial: None, icredit: 0, adv: 0, rcvd: 0, recv_op: None, closed: false, rerr: false, flows: VecDeque::new(), maxsz: 262_144 }
}
