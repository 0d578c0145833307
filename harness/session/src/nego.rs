//! S10: connection negotiation, plain and SASL, client and server, against a scripted peer.
use crate::world::{err_frame, yields};
use crate::{rng::Rng, Ctx};
use ntex_amqp::codec::{protocol::*, types::Symbol, AmqpCodec, AmqpFrame, ProtocolIdCodec, SaslFrame};
use ntex_amqp::codec::types::Multiple;
use ntex_amqp::{client::{Connector, SaslAuth}, server, types, AmqpServiceConfig, ControlFrame};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use ntex_io::{testing::IoTest, Io, IoBoxed};
use ntex_service::{cfg::SharedCfg, fn_service, ServiceFactory};
use ntex_util::time::{sleep, Millis, Seconds};
use std::{cell::{Cell, RefCell}, rc::Rc, time::Instant};

#[derive(Default)]
struct Sh { ok: Cell<bool>, err: RefCell<Option<String>>, done: Cell<bool>, open: RefCell<Option<Open>>, sasl: RefCell<Option<(String, Option<Vec<u8>>, Option<String>)>>, resp: RefCell<Option<Vec<u8>>>, rcfg: RefCell<Option<bool>> }

struct P<'a> { io: &'a IoTest, buf: BytesMut, cut: usize, r: Rng }
impl P<'_> {
    async fn write(&mut self, b: &[u8]) {
        if self.cut > 0 { for c in b.chunks(self.cut) { self.io.write(c); yields(6).await; } } else { self.io.write(b); }
    }
    async fn need(&mut self, n: usize, sh: &Sh) -> bool {
        for _ in 0..60 { if self.buf.len() >= n { return true; } yields(6).await; let x = self.io.read_any(); self.buf.extend_from_slice(&x); }
        for _ in 0..400 { if self.buf.len() >= n { return true; } if sh.done.get() { yields(6).await; let x = self.io.read_any(); self.buf.extend_from_slice(&x); return self.buf.len() >= n; } sleep(Millis(5)).await; let x = self.io.read_any(); self.buf.extend_from_slice(&x); }
        self.buf.len() >= n
    }
    async fn id(&mut self, sh: &Sh) -> Option<Vec<u8>> { if self.need(8, sh).await { Some(self.buf.split_to(8).to_vec()) } else { None } }
    async fn raw(&mut self, sh: &Sh) -> Option<BytesMut> {
        if !self.need(4, sh).await { return None; }
        let n = u32::from_be_bytes([self.buf[0], self.buf[1], self.buf[2], self.buf[3]]) as usize;
        if !self.need(n, sh).await { return None; }
        let mut b = BytesMut::new(); b.extend_from_slice(&self.buf.split_to(n)); Some(b)
    }
    async fn frame(&mut self, sh: &Sh) -> Option<(u16, Frame)> { let mut b = self.raw(sh).await?; AmqpCodec::<AmqpFrame>::new().decode(&mut b).ok().flatten().map(|f| f.into_parts()) }
    async fn sasl(&mut self, sh: &Sh) -> Option<SaslFrameBody> { let mut b = self.raw(sh).await?; AmqpCodec::<SaslFrame>::new().decode(&mut b).ok().flatten().map(|f| f.body) }
    async fn put(&mut self, f: Frame) { let mut b = BytesMut::new(); AmqpCodec::<AmqpFrame>::new().encode(AmqpFrame::new(0, f), &mut b).unwrap(); self.write(&b).await; }
    async fn put_sasl(&mut self, f: SaslFrame) { let mut b = BytesMut::new(); AmqpCodec::<SaslFrame>::new().encode(f, &mut b).unwrap(); self.write(&b).await; }
    async fn put_id(&mut self, p: ProtocolId) { let mut b = BytesMut::new(); ProtocolIdCodec.encode(p, &mut b).unwrap(); self.write(&b).await; }
}
fn id(p: ProtocolId) -> Vec<u8> { let mut b = BytesMut::new(); ProtocolIdCodec.encode(p, &mut b).unwrap(); b.to_vec() }

/// what goes wrong in the negotiation
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad { No, Proto, Frame, Eof, Code, Sasl }

pub async fn run(c: &mut Ctx, mut r: Rng, n: u64) -> String {
    let srv = r.bool(); let sasl = r.chance(1, 2);
    let mfs = *r.pick(&[512u32, 1000, 4096, 65535, 70_000, u32::MAX]); let chmax = *r.pick(&[0u16, 1, 7, 1024, u16::MAX]);
    let idle = *r.pick(&[0u16, 1, 60, 120, u16::MAX]); let host = if r.bool() { Some("cfg.host") } else { None }; let chost = if r.bool() { Some(ByteString::from_static("call.host")) } else { None };
    let caps = if r.bool() { Some(Multiple(vec![Symbol::from_static("cap-a"), Symbol::from_static("cap-b")])) } else { None };
    let dcaps = if r.bool() { Some(Multiple(vec![Symbol::from_static("want-a")])) } else { None };
    let mut cfg = AmqpServiceConfig::new().set_max_frame_size(mfs).set_channel_max(chmax).set_idle_timeout(idle).set_handshake_timeout(Seconds(60));
    if let Some(h) = host { cfg = cfg.set_hostname(h); } if let Some(x) = &caps { cfg = cfg.set_offered_capabilities(x.clone()); } if let Some(x) = &dcaps { cfg = cfg.set_desired_capabilities(x.clone()); }
    let bad = if r.chance(1, 2) { Bad::No } else { *r.pick(&[Bad::Proto, Bad::Frame, Bad::Eof, Bad::Code, Bad::Sasl]) };
    let bad = if !sasl && matches!(bad, Bad::Code | Bad::Sasl) || srv && bad == Bad::Code { Bad::No } else { bad };
    let code = if bad == Bad::Code { *r.pick(&[SaslCode::Auth, SaslCode::Sys, SaslCode::SysPerm, SaslCode::SysTemp]) } else { SaslCode::Ok };
    // waiting for a keep-alive takes real time: not in every case
    let ka = if bad == Bad::No && n % 40 == 7 { Some(*r.pick(&[400u32, 800, 1500])) } else { None };
    let open = OpenInner { container_id: "peer".into(), hostname: if r.bool() { Some("peer.host".into()) } else { None }, max_frame_size: *r.pick(&[512u32, 4096, u32::MAX]), channel_max: *r.pick(&[0u16, 5, u16::MAX]), idle_time_out: ka.or(if r.bool() { None } else { Some(*r.pick(&[0u32, 60_000, u32::MAX])) }),
        outgoing_locales: None, incoming_locales: None, offered_capabilities: None, desired_capabilities: None, properties: None };
    let trace = format!("server {srv} sasl {sasl} max-frame-size {mfs} channel-max {chmax} idle {idle} hostname {host:?}/{chost:?} peer: {open:?} fault: {bad:?} {code:?}");
    c.cur(&format!("case {n} S10 {trace}"));
    let (io, remote) = IoTest::create(); io.remote_buffer_cap(usize::MAX);
    let sh: Rc<Sh> = Rc::default();
    let cfg: SharedCfg = SharedCfg::new("HS").add(cfg).into();
    let auth = SaslAuth { authz_id: r.pick(&["", "az"]).to_string().into(), authn_id: r.pick(&["user", "u\u{e9}"]).to_string().into(), password: r.pick(&["", "pw", "p w"]).to_string().into() };
    let challenge = srv && sasl && r.bool();
    let sut = Io::new(remote, cfg.clone());
    let mechs = r.pick(&[vec!["PLAIN"], vec!["ANONYMOUS", "PLAIN"], vec![]]).clone();
    if srv {
        let (s1, s2, m2) = (sh.clone(), sh.clone(), mechs.clone());
        ntex::rt::spawn(async move {
            let s3 = s1.clone();
            let srv = server::Server::build(move |h: server::Handshake| { let sh = s3.clone(); let m = m2.clone(); async move {
                let s4 = sh.clone(); let e = move |e: server::HandshakeError| { *s4.err.borrow_mut() = Some(format!("{e:?}")); }; let e = &e;
                let o = match h {
                    server::Handshake::Amqp(h) => h.open().await.map_err(e)?,
                    server::Handshake::Sasl(mut h) => {
                        for x in m { h = h.mechanism(x); }
                        let i = h.init().await.map_err(e)?;
                        *sh.sasl.borrow_mut() = Some((i.mechanism().to_string(), i.initial_response().map(|x| x.to_vec()), i.hostname().map(|x| x.to_string())));
                        let o = if challenge { let x = i.challenge_with(Bytes::from_static(b"riddle")).await.map_err(e)?; *sh.resp.borrow_mut() = Some(x.response().to_vec()); x.outcome(code).await.map_err(e)? } else { i.outcome(code).await.map_err(e)? };
                        o.open().await.map_err(e)?
                    }
                };
                { let rc = o.remote_config(); let f = o.frame(); *sh.rcfg.borrow_mut() = Some(rc.max_frame_size == f.max_frame_size() && rc.channel_max == f.channel_max() && rc.idle_time_out == f.idle_time_out().unwrap_or(0) && rc.hostname.as_ref() == f.hostname()); }
                *sh.open.borrow_mut() = Some(o.frame().clone()); sh.ok.set(true);
                Ok::<_, ()>(o.ack(()))
            } }).control(|_: ControlFrame| async { Ok::<(), ntex_amqp::error::LinkError>(()) }).finish(|_: types::Message| async { Ok::<(), ntex_amqp::error::LinkError>(()) });
            let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&srv, cfg).await.ok().unwrap();
            if let Err(e) = svc.call(IoBoxed::from(sut)).await { *s2.err.borrow_mut() = Some(format!("{e:?}")); }
            s2.done.set(true);
        });
    } else {
        let (s, h, a) = (sh.clone(), chost.clone(), auth.clone());
        ntex::rt::spawn(async move {
            let con: ntex_service::Pipeline<ntex_amqp::client::ConnectorService<ntex::http::Uri, _>> = ServiceFactory::<ntex_amqp::client::Connect<ntex::http::Uri>, SharedCfg>::pipeline(&Connector::<ntex::http::Uri>::new(), cfg).await.ok().unwrap();
            let res = if sasl { con.get_ref().negotiate_sasl(IoBoxed::from(sut), a, h).await } else { con.get_ref().negotiate(IoBoxed::from(sut), h).await };
            match res { Ok(cl) => { s.ok.set(true); let _ = cl.start(fn_service(|_: ControlFrame| async { Ok::<(), ntex_amqp::error::LinkError>(()) })).await; } Err(e) => *s.err.borrow_mut() = Some(format!("{e:?}")) }
            s.done.set(true);
        });
    }
    let cut = *r.pick(&[0usize, 0, 1, 3, 7]);
    let mut p = P { io: &io, buf: BytesMut::new(), cut, r };
    match talk(&mut p, &sh, srv, sasl, bad, code, challenge, &open, &auth, &mechs, host, &chost).await {
        Err(e) => c.fail("negotiation", format!("case {n}: {e} ({:?}) -- {trace}", sh.err.borrow())),
        Ok(None) => {
            // a negotiation that went wrong does not end in a connection
            for _ in 0..500 { if sh.done.get() { break; } sleep(Millis(5)).await; }
            if sh.ok.get() { c.fail("faulty negotiation succeeds", format!("case {n} -- {trace}")); }
            else if !sh.done.get() { c.fail("faulty negotiation does not end", format!("case {n} -- {trace}")); }
        }
        Ok(Some(o)) => {
            let xh = if srv { host.map(ByteString::from) } else { chost.clone().or(host.map(ByteString::from)) };
            let xi = if idle == 0 { None } else { Some(idle as u32 * 1000) };
            if o.max_frame_size() != mfs || o.channel_max() != chmax || o.idle_time_out() != xi || o.hostname() != xh.as_ref() || o.container_id().is_empty() || o.0.offered_capabilities != caps || o.0.desired_capabilities != dcaps { c.fail("open does not announce what is configured", format!("case {n} {o:?} -- {trace}")); }
            if srv && sh.open.borrow().as_ref().map(|x| (*x.0).clone()) != Some(open.clone()) { c.fail("open of the peer is not what the application sees", format!("case {n} {:?} -- {trace}", sh.open.borrow())); }
            if srv && *sh.rcfg.borrow() != Some(true) { c.fail("remote configuration is not what the peer announced", format!("case {n} -- {trace}")); }
            // the connection works
            let b = BeginInner { remote_channel: None, next_outgoing_id: 5, incoming_window: 1, outgoing_window: 1, handle_max: 1, offered_capabilities: None, desired_capabilities: None, properties: None };
            p.put(Frame::Begin(Begin(Box::new(b)))).await;
            let mut ok = false;
            for _ in 0..20 { match p.frame(&sh).await { Some((_, Frame::Begin(b))) => { ok = b.remote_channel() == Some(0); break; } Some((_, Frame::Empty)) => {} _ => break } }
            if !ok { c.fail("connection does not work after the negotiation", format!("case {n} -- {trace}")); }
            if let Some(t) = ka { if let Some(e) = keep_alive(&mut p, t).await { c.fail("no keep-alive within the idle timeout of the peer", format!("case {n} {e} -- {trace}")); } }
        }
    }
    io.close().await;
    for _ in 0..200 { if sh.done.get() { break; } sleep(Millis(2)).await; }
    trace
}
/// something has to arrive within the idle timeout; three misses in a row with a timer that is on time are a failure
async fn keep_alive(p: &mut P<'_>, t: u32) -> Option<String> {
    let mut last = String::new();
    for _ in 0..3 {
        let st = Instant::now(); let mut lag = 0u128; let mut got = false;
        p.buf.clear(); p.io.read_any();
        while st.elapsed().as_millis() < t as u128 { let a = Instant::now(); sleep(Millis(10)).await; lag = lag.max(a.elapsed().as_millis()); if !p.io.read_any().is_empty() { got = true; break; } }
        if got { return None; }
        last = format!("nothing for {t} ms");
        if lag > 60 { last.clear(); }
    }
    if last.is_empty() { None } else { Some(last) }
}
type Bx = Result<Option<Open>, String>;
#[allow(clippy::too_many_arguments)]
async fn talk(p: &mut P<'_>, sh: &Sh, srv: bool, sasl: bool, bad: Bad, code: SaslCode, challenge: bool, open: &OpenInner, auth: &SaslAuth, mechs: &[&str], host: Option<&str>, _chost: &Option<ByteString>) -> Bx {
    let e = |s: &str| -> Bx { Err(s.into()) };
    let wrong = |r: &mut Rng, right: ProtocolId| { let mut v = vec![id(ProtocolId::Amqp), id(ProtocolId::AmqpSasl), id(ProtocolId::AmqpTls), b"AMQP\x00\x00\x09\x01".to_vec(), b"HTTP/1.1".to_vec(), b"AMQP\x01\x01\x00\x00".to_vec()]; v.retain(|x| *x != id(right)); r.pick(&v).clone() };
    // where the fault happens: before / in the SASL layer or in the AMQP layer
    let late = p.r.bool();
    let eof = if bad == Bad::Eof { p.r.below(3) } else { 9 };
    let ob = Frame::Open(Open(Box::new(open.clone())));
    let other = || Frame::Begin(Begin(Box::new(BeginInner { remote_channel: None, next_outgoing_id: 5, incoming_window: 1, outgoing_window: 1, handle_max: 1, offered_capabilities: None, desired_capabilities: None, properties: None })));
    macro_rules! eof { ($n:expr) => { if eof == $n { p.io.close().await; return Ok(None); } } }
    if srv {
        eof!(0);
        if sasl {
            if bad == Bad::Proto && !late { let w = b"AMQP\x00\x00\x09\x01".to_vec(); p.write(&w).await; return Ok(None); }
            p.put_id(ProtocolId::AmqpSasl).await;
            if p.id(sh).await != Some(id(ProtocolId::AmqpSasl)) { return e("protocol id is not confirmed"); }
            match p.sasl(sh).await { Some(SaslFrameBody::SaslMechanisms(m)) if m.sasl_server_mechanisms.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>() == mechs => {} x => return e(&format!("mechanisms are not announced: {x:?}")) }
            if bad == Bad::Sasl { let f = SaslOutcome { code: SaslCode::Ok, additional_data: None }; p.put_sasl(f.into()).await; return Ok(None); }
            eof!(1);
            let f = SaslInit { mechanism: Symbol::from_static("PLAIN"), initial_response: Some(Bytes::from(auth.password.as_bytes().to_vec())), hostname: Some("sh".into()) };
            p.put_sasl(f.into()).await;
            if challenge {
                match p.sasl(sh).await { Some(SaslFrameBody::SaslChallenge(c)) if &c.challenge[..] == b"riddle" => {} x => return e(&format!("challenge is not sent: {x:?}")) }
                p.put_sasl(SaslResponse { response: Bytes::from_static(b"solved") }.into()).await;
            }
            match p.sasl(sh).await { Some(SaslFrameBody::SaslOutcome(o)) if o.code() == code => {} x => return e(&format!("outcome is not sent: {x:?}")) }
            if *sh.sasl.borrow() != Some(("PLAIN".into(), Some(auth.password.as_bytes().to_vec()), Some("sh".into()))) { return e("sasl init is not what the application sees"); }
            if challenge && sh.resp.borrow().as_deref() != Some(b"solved") { return e("sasl response is not what the application sees"); }
        }
        if bad == Bad::Proto { let w = if sasl { wrong(&mut p.r, ProtocolId::Amqp) } else { b"AMQP\x00\x01\x00\x01".to_vec() }; p.write(&w).await; return Ok(None); }
        p.put_id(ProtocolId::Amqp).await;
        if p.id(sh).await != Some(id(ProtocolId::Amqp)) { return e("protocol id is not confirmed"); }
        eof!(2); if eof < 9 { p.io.close().await; return Ok(None); }
        if bad == Bad::Frame { p.put(other()).await; return Ok(None); }
        p.put(ob).await;
        match p.frame(sh).await { Some((0, Frame::Open(o))) => Ok(Some(o)), x => e(&format!("open is not answered: {x:?}")) }
    } else {
        eof!(0);
        if sasl {
            if p.id(sh).await != Some(id(ProtocolId::AmqpSasl)) { return e("protocol id is not sent"); }
            if bad == Bad::Proto && !late { let w = wrong(&mut p.r, ProtocolId::AmqpSasl); p.write(&w).await; return Ok(None); }
            p.put_id(ProtocolId::AmqpSasl).await;
            if bad == Bad::Sasl && late {
                p.put_sasl(SaslOutcome { code: SaslCode::Ok, additional_data: None }.into()).await;
                return match p.sasl(sh).await { None => Ok(None), x => e(&format!("client goes on without the mechanisms: {x:?}")) };
            }
            p.put_sasl(SaslMechanisms { sasl_server_mechanisms: vec![Symbol::from_static("PLAIN")].into() }.into()).await;
            match p.sasl(sh).await { Some(SaslFrameBody::SaslInit(i)) => {
                let x = format!("{}\0{}\0{}", auth.authz_id, auth.authn_id, auth.password);
                if i.mechanism.as_str() != "PLAIN" || i.initial_response.as_deref() != Some(x.as_bytes()) || i.hostname.as_ref().is_some_and(|h| Some(h.as_str()) != host && h.as_str() != "call.host") { return e(&format!("wrong credentials: {i:?}")); }
            } x => return e(&format!("sasl init is not sent: {x:?}")) }
            eof!(1);
            if bad == Bad::Sasl { p.put_sasl(SaslChallenge { challenge: Bytes::from_static(b"x") }.into()).await; return Ok(None); }
            p.put_sasl(SaslOutcome { code, additional_data: None }.into()).await;
            if code != SaslCode::Ok { for _ in 0..40 { yields(8).await; } if !p.io.read_any().is_empty() { return e("client goes on after a negative outcome"); } return Ok(None); }
        }
        if p.id(sh).await != Some(id(ProtocolId::Amqp)) { return e("protocol id is not sent"); }
        if bad == Bad::Proto { let w = wrong(&mut p.r, ProtocolId::Amqp); p.write(&w).await; return Ok(None); }
        p.put_id(ProtocolId::Amqp).await;
        let o = match p.frame(sh).await { Some((0, Frame::Open(o))) => o, x => return e(&format!("open is not sent: {x:?}")) };
        if eof < 9 { p.io.close().await; return Ok(None); }
        if bad == Bad::Frame { let f = if late { other() } else { Frame::Close(Close { error: Some(err_frame()) }) }; p.put(f).await; return Ok(None); }
        p.put(ob).await;
        for _ in 0..200 { if sh.ok.get() || sh.done.get() { break; } yields(6).await; }
        for _ in 0..200 { if sh.ok.get() || sh.done.get() { break; } sleep(Millis(5)).await; }
        if !sh.ok.get() { return e("client does not connect"); }
        Ok(Some(o))
    }
}
