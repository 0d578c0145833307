use crate::{encode, perf::*, peak, rng::{hex, Rng}, types::*, v::{self, V}, Ctx};
use chrono::{DateTime, Utc};
use ntex_amqp_codec::{protocol::{self, *}, types::*, *};
use crate::types::Map;
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use uuid::Uuid;
use std::fmt::Debug;
pub type Check = fn(&mut Ctx, &mut Rng, u64);
pub fn get(p: &str) -> Check {
    match p { "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08, _ => panic!("no check {p}") }
}
macro_rules! each_type { ($m:ident, $n:expr) => { match $n {
    0 => $m!(bool), 1 => $m!(u8), 2 => $m!(u16), 3 => $m!(u32), 4 => $m!(u64), 5 => $m!(i8), 6 => $m!(i16), 7 => $m!(i32), 8 => $m!(i64), 9 => $m!(f32), 10 => $m!(f64), 11 => $m!(char),
    12 => $m!(DateTime<Utc>), 13 => $m!(Uuid), 14 => $m!(Bytes), 15 => $m!(ByteString), 16 => $m!(Str), 17 => $m!(Symbol), 18 => $m!(u64),
    19 => $m!(Option<u32>), 20 => $m!(Option<Symbol>), 21 => $m!(Option<List>), 22 => $m!(Vec<u32>), 23 => $m!(Vec<Symbol>), 24 => $m!(Vec<Bytes>), 25 => $m!(Vec<bool>), 26 => $m!(Vec<i64>), 27 => $m!(Vec<ByteString>),
    28 => $m!(Multiple<Symbol>), 29 => $m!(Multiple<u64>), 30 => $m!(Map<Symbol, Variant>), 31 => $m!(Map<Variant, Variant>), 32 => $m!(Map<Symbol, Option<ByteString>>), 33 => $m!(Map<ByteString, u32>),
    34 => $m!(VecSymbolMap), 35 => $m!(VecStringMap), 36 => $m!(List), 37 => $m!(Array), 38 => $m!(MessageId), 39 => $m!(Vec<DateTime<Utc>>), 40 => $m!(Vec<Uuid>), 41 => $m!(Vec<char>), 42 => $m!(Vec<f64>), 43 => $m!(Vec<u8>),
    _ => $m!(Variant),
} } }
const NTYPES: usize = 70;
fn tail(r: &mut Rng) -> Vec<u8> { let n = r.below(8); match r.below(5) { 0 => vec![], 1 => r.bytes(300), _ => r.bytes(n) } }
fn cat(a: &[u8], b: &[u8]) -> Bytes { let mut x = a.to_vec(); x.extend(b); Bytes::from(x) }
fn dec<T: Decode>(b: &[u8]) -> Result<(T, usize), AmqpParseError> { let mut x = Bytes::from(b.to_vec()); let n = x.len(); let v = T::decode(&mut x)?; Ok((v, n - x.len())) }
fn short<T: Debug>(x: &T) -> String { let s = format!("{x:?}"); s.chars().take(600).collect() }

fn round<T: Encode + Decode + PartialEq + Debug>(c: &mut Ctx, r: &mut Rng, v: &T, ty: &str) {
    let b = encode(v); let t = tail(r);
    c.case(ty, &b);
    let mut x = cat(&b, &t);
    match T::decode(&mut x) {
        Ok(d) => {
            if d != *v { c.fail("round trip", format!("{ty}: encoding {} of {} decodes to {}", hex(&b), short(v), short(&d))); }
            if x.as_ref() != &t[..] { c.fail("round trip", format!("{ty}: decoding {} followed by {} bytes leaves {} bytes", hex(&b), t.len(), x.len())); }
        }
        Err(e) => c.fail("round trip", format!("{ty}: encoding {} of {} does not decode: {e:?}", hex(&b), short(v))),
    }
}
fn c01(c: &mut Ctx, r: &mut Rng, _: u64) {
    if r.chance(1, 30) {
        let n = match r.below(3) { 0 => 64, 1 => 60 + r.below(5), _ => r.below(64) };
        let v = chain(r, n); round(c, r, &v, &format!("Variant nested {n}")); return;
    }
    macro_rules! m { ($t:ty) => {{ let v = <$t as Gen>::arb(r); round(c, r, &v, stringify!($t)) }} }
    each_type!(m, r.below(NTYPES))
}
/// format codes a type accepts
fn codes<T>(ty: &str) -> Option<&'static [u8]> {
    let ty: String = ty.chars().filter(|c| !c.is_whitespace()).collect();
    let ty = ty.replace(',', ", ");
    Some(match ty.as_str() {
        "bool" => &[0x56, 0x41, 0x42], "u8" => &[0x50], "u16" => &[0x60], "u32" => &[0x70, 0x52, 0x43], "u64" => &[0x80, 0x53, 0x44], "i8" => &[0x51], "i16" => &[0x61],
        "i32" => &[0x71, 0x54], "i64" => &[0x81, 0x55], "f32" => &[0x72], "f64" => &[0x82], "char" => &[0x73], "DateTime<Utc>" => &[0x83], "Uuid" => &[0x98], "Bytes" => &[0xa0, 0xb0],
        "ByteString" | "Str" => &[0xa1, 0xb1], "Symbol" => &[0xa3, 0xb3], 
        "Option<u32>" => &[0x40, 0x70, 0x52, 0x43], "Option<Symbol>" => &[0x40, 0xa3, 0xb3], "Option<List>" => &[0x40, 0x45, 0xc0, 0xd0],
        "List" => &[0x45, 0xc0, 0xd0], "Array" | "Vec<u32>" | "Vec<Symbol>" | "Vec<Bytes>" | "Vec<bool>" | "Vec<i64>" | "Vec<u8>" => &[0xe0, 0xf0],
        "Map<Symbol, Variant>" | "Map<Variant, Variant>" | "VecSymbolMap" | "VecStringMap" => &[0xc1, 0xd1],
        "Multiple<Symbol>" => &[0xe0, 0xf0, 0xa3, 0xb3], "MessageId" => &[0x80, 0x53, 0x44, 0x98, 0xa0, 0xb0, 0xa1, 0xb1],
        "Variant" => &[0x00, 0x40, 0x56, 0x41, 0x42, 0x50, 0x60, 0x70, 0x52, 0x43, 0x80, 0x53, 0x44, 0x51, 0x61, 0x71, 0x54, 0x81, 0x55, 0x72, 0x82, 0x74, 0x84, 0x94, 0x73, 0x83, 0x98, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3, 0x45, 0xc0, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0],
        _ => return None,
    })
}
fn wire<T: Gen + Encode + Decode + Debug>(c: &mut Ctx, r: &mut Rng, ty: &str) {
    let v = T::arb(r); let ast = v.ast(); let b = encode(&v);
    c.case(ty, &b);
    // what is written is AMQP and means the value
    match v::parse(&b) {
        Ok(g) => if !v::same(&ast, &g) { c.fail("encoding", format!("{ty}: {} is encoded as {} which means {}", short(&v), hex(&b), short(&g))); },
        Err(e) => c.fail("encoding", format!("{ty}: {} is encoded as {} which is not AMQP: {e}", short(&v), hex(&b))),
    }
    // every encoding the specification allows means the same value
    let a = v::enc(&ast, &mut Some(Rng(r.u64()))); let t = tail(r);
    c.case(ty, &a);
    let mut x = cat(&a, &t);
    match T::decode(&mut x) {
        Ok(d) => { let g = d.ast(); if !v::same(&ast, &g) && !v::same(&g, &ast) { c.fail("alternate encoding", format!("{ty}: {} should decode to {}, got {}", hex(&a), short(&v), short(&d))); } if x.as_ref() != &t[..] { c.fail("alternate encoding", format!("{ty}: decoding {} followed by {} bytes leaves {}", hex(&a), t.len(), x.len())); } }
        Err(e) => c.fail("alternate encoding", format!("{ty}: {} (value {}) rejected: {e:?}", hex(&a), short(&v))),
    }
    // truncated
    let n = a.len();
    let cuts: Vec<usize> = if n <= 24 { (0..n).collect() } else { let mut k = vec![n - 1, 1 + r.below(n - 1), r.below(12)]; k.push(r.below(n)); k };
    for k in cuts { if let Ok((d, _)) = dec::<T>(&a[..k]) { c.fail("truncated", format!("{ty}: first {k} of {n} bytes of {} decode to {}", hex(&a), short(&d))); } }
    // format codes the type does not have
    if let Some(ok) = codes::<T>(ty) {
        let code = r.u64() as u8;
        if !ok.contains(&code) {
            let mut x = vec![code]; let w = match r.below(3) { 0 => vec![0; 64], 1 => a.clone(), _ => r.bytes(80) }; x.extend(w);
            c.case(ty, &x);
            if let Ok((d, _)) = dec::<T>(&x) { c.fail("format code", format!("{ty}: format code {code:#04x} accepted: {} decodes to {}", hex(&x), short(&d))); }
        }
    }
}
fn c02(c: &mut Ctx, r: &mut Rng, _: u64) {
    macro_rules! m { ($t:ty) => { wire::<$t>(c, r, stringify!($t)) } }
    if r.chance(1, 40) { // invalid payloads
        let bad = [vec![0x73, 0, 0, 0xd8, 0], vec![0x73, 0, 0x11, 0, 0], vec![0x73, 0xff, 0, 0, 0], vec![0xa1, 1, 0xff], vec![0xa3, 2, 0xc3, 0x28], vec![0xb1, 0, 0, 0, 1, 0x80]];
        for b in bad { c.case("Variant", &b); if let Ok((d, _)) = dec::<Variant>(&b) { c.fail("invalid payload", format!("{} decodes to {}", hex(&b), short(&d))); } }
    }
    if r.chance(1, 10) { // static symbols
        let s = [StaticSymbol(""), StaticSymbol("amqp:open:list"), StaticSymbol("s")]; let s = r.pick(&s);
        let b = encode(s); if v::parse(&b) != Ok(V::Sym(s.0.as_bytes().to_vec())) { c.fail("encoding", format!("{s:?} {}", hex(&b))); }
    }
    each_type!(m, r.below(NTYPES))
}
fn size<T: Encode + Debug>(c: &mut Ctx, v: &T, ty: &str) {
    let n = v.encoded_size(); let b = encode(v); c.case(ty, &b);
    if n != b.len() { c.fail("size", format!("{ty}: announced {n}, wrote {} for {} = {}", b.len(), short(v), hex(&b))); }
    let mut pre = BytesMut::from(&[7u8; 5][..]); v.encode(&mut pre);
    if pre.len() != n + 5 || pre[..5] != [7; 5] || pre[5..] != b[..] { c.fail("size", format!("{ty}: encoding into a non-empty buffer differs for {}", short(v))); }
}
fn frame(r: &mut Rng) -> protocol::Frame {
    match r.below(12) { 0 => Open::arb(r).into(), 1 => Begin::arb(r).into(), 2 => Attach::arb(r).into(), 3 => Flow::arb(r).into(), 4 | 5 => Transfer::arb(r).into(), 6 => Disposition::arb(r).into(), 7 => Detach::arb(r).into(), 8 => End::arb(r).into(), 9 => Close::arb(r).into(), 10 => protocol::Frame::Empty,
        _ => { let m = message(r, 1); let mut t = Transfer::arb(r); t.0.body = Some(TransferBody::Message(m)); t.into() } }
}
fn sasl(r: &mut Rng) -> SaslFrameBody {
    match r.below(5) { 0 => SaslFrameBody::SaslMechanisms(Gen::arb(r)), 1 => SaslFrameBody::SaslInit(Gen::arb(r)), 2 => SaslFrameBody::SaslChallenge(Gen::arb(r)), 3 => SaslFrameBody::SaslResponse(Gen::arb(r)), _ => SaslFrameBody::SaslOutcome(Gen::arb(r)) }
}
impl Gen for DeliveryState {
    fn arb(r: &mut Rng) -> Self { match r.below(5) { 0 => DeliveryState::Received(Gen::arb(r)), 1 => DeliveryState::Accepted(Gen::arb(r)), 2 => DeliveryState::Rejected(Gen::arb(r)), 3 => DeliveryState::Released(Gen::arb(r)), _ => DeliveryState::Modified(Gen::arb(r)) } }
    fn ast(&self) -> V { match self { DeliveryState::Received(x) => x.ast(), DeliveryState::Accepted(x) => x.ast(), DeliveryState::Rejected(x) => x.ast(), DeliveryState::Released(x) => x.ast(), DeliveryState::Modified(x) => x.ast() } }
}
impl Gen for Outcome {
    fn arb(r: &mut Rng) -> Self { match r.below(4) { 0 => Outcome::Accepted(Gen::arb(r)), 1 => Outcome::Rejected(Gen::arb(r)), 2 => Outcome::Released(Gen::arb(r)), _ => Outcome::Modified(Gen::arb(r)) } }
    fn ast(&self) -> V { match self { Outcome::Accepted(x) => x.ast(), Outcome::Rejected(x) => x.ast(), Outcome::Released(x) => x.ast(), Outcome::Modified(x) => x.ast() } }
}
fn sec(code: u64, v: V) -> V { V::Desc(Box::new(V::U64(code)), Box::new(v)) }
impl Gen for Section {
    fn arb(r: &mut Rng) -> Self { match r.below(9) { 0 => Section::Header(Gen::arb(r)), 1 => Section::DeliveryAnnotations(Gen::arb(r)), 2 => Section::MessageAnnotations(Gen::arb(r)), 3 => Section::ApplicationProperties(Gen::arb(r)), 4 => Section::Data(Gen::arb(r)), 5 => Section::AmqpSequence(Gen::arb(r)), 6 => Section::AmqpValue(Gen::arb(r)), 7 => Section::Footer(Gen::arb(r)), _ => Section::Properties(Gen::arb(r)) } }
    fn ast(&self) -> V { match self { Section::Header(x) => x.ast(), Section::DeliveryAnnotations(x) => sec(0x71, x.ast()), Section::MessageAnnotations(x) => sec(0x72, x.ast()), Section::ApplicationProperties(x) => sec(0x74, x.ast()), Section::Data(x) => sec(0x75, x.ast()), Section::AmqpSequence(x) => sec(0x76, x.ast()), Section::AmqpValue(x) => sec(0x77, x.ast()), Section::Footer(x) => sec(0x78, x.ast()), Section::Properties(x) => x.ast() } }
}
pub fn message(r: &mut Rng, depth: usize) -> Message {
    let mut m = Message::default();
    if r.bool() { m.0.header = Some(Gen::arb(r)); }
    if r.chance(1, 3) { m.0.delivery_annotations = Some(Gen::arb(r)); }
    if r.chance(1, 3) { m.0.message_annotations = Some(Gen::arb(r)); }
    if r.bool() { m.0.properties = Some(Gen::arb(r)); }
    if r.chance(1, 3) { m.0.application_properties = Some(Gen::arb(r)); }
    if r.chance(1, 3) { m.0.footer = Some(Gen::arb(r)); }
    if r.chance(1, 4) { m.0.message_format = Some(Gen::arb(r)); }
    let n = r.below(4); m.0.body.data = (0..n).map(|_| Bytes::arb(r)).collect();
    if r.chance(1, 3) { m.0.body.sequence = (0..1 + r.below(2)).map(|_| List::arb(r)).collect(); }
    if r.chance(1, 3) { m.0.body.value = Some(Gen::arb(r)); }
    if depth > 0 && r.chance(1, 3) { m.0.body.messages = (0..1 + r.below(3)).map(|_| if r.chance(1, 4) { TransferBody::Data(Bytes::arb(r)) } else { TransferBody::Message(message(r, depth - 1)) }).collect(); }
    m
}
fn c03(c: &mut Ctx, r: &mut Rng, _: u64) {
    macro_rules! m { ($t:ty) => {{ let v = <$t as Gen>::arb(r); size(c, &v, stringify!($t)) }} }
    match r.below(8) {
        0 | 1 => each_type!(m, r.below(NTYPES)),
        2 => each_comp!(m, r.below(NCOMP)),
        3 => match r.below(5) { 0 => m!(DeliveryState), 1 => m!(Outcome), 2 => m!(Section), 3 => { let s = StaticSymbol(*r.pick(&["", "abc", "amqp:transfer:list"])); size(c, &s, "StaticSymbol") } _ => { let t = if r.bool() { TransferBody::Data(Gen::arb(r)) } else { TransferBody::Message(message(r, 1)) }; size(c, &t, "TransferBody"); if t.len() != encode(&t).len() { c.fail("size", "TransferBody::len".into()); } } },
        4 => { let f = AmqpFrame::new(r.int() as u16, frame(r)); size(c, &f, "AmqpFrame"); size(c, f.performative(), "Frame"); let b = encode(&f); if u32::from_be_bytes(b[..4].try_into().unwrap()) as usize != b.len() { c.fail("size", format!("AmqpFrame size field {}", hex(&b))); } }
        5 => { let f = SaslFrame::new(sasl(r)); size(c, &f, "SaslFrame"); size(c, &f.body, "SaslFrameBody"); let b = encode(&f); if u32::from_be_bytes(b[..4].try_into().unwrap()) as usize != b.len() { c.fail("size", format!("SaslFrame size field {}", hex(&b))); } }
        6 => { let m = message(r, 2); size(c, &m, "Message"); size(c, m.body(), "MessageBody"); }
        _ => { // histories of a message
            let mut m = match r.below(4) { 0 => Message::default(), 1 => Message::with_body(Gen::arb(r)), 2 => Message::with_messages(vec![TransferBody::Message(message(r, 0)), TransferBody::Data(Gen::arb(r))]), _ => Message::decode(&mut Bytes::from(encode(&message(r, 1)))).unwrap() };
            let mut hist = vec![];
            for _ in 0..1 + r.below(10) {
                let op = r.below(20); hist.push(op);
                match op {
                    0 => { m.set_header(Gen::arb(r)); } 1 => { m.set_format(Gen::arb(r)); } 2 => { *m.properties_mut() = Gen::arb(r); } 3 => { m.set_properties(|p| p.to = Gen::arb(r)); }
                    4 => { m.set_app_property(Str::arb(r), Variant::arb(r)); } 5 => { m.add_message_annotation(Symbol::arb(r), Variant::arb(r)); }
                    6 => { if let Some(x) = m.app_properties_mut() { x.pop(); } } 7 => { if let Some(x) = m.message_annotations_mut() { x.push((Gen::arb(r), Gen::arb(r))); } } 8 => { if let Some(x) = m.delivery_annotations_mut() { x.clear(); } }
                    9 => { m.body_mut().set_data(Gen::arb(r)); } 10 => { m.set_value(Variant::arb(r)); } 11 => { m.set_body(|b| b.messages.push(TransferBody::Message(message(r, 0)))); } 12 => { m.body_mut().sequence.push(Gen::arb(r)); }
                    13 => { m = m.clone(); } 14 => { let _ = m.encoded_size(); } 15 => { m = m.update(|mut x| { x.set_value(5); x }); } 16 => { m = m.if_some(&Some(1u8), |mut x, v| { x.set_value(*v); x }); } 17 => { m = m.reply_message(); }
                    18 => { let mut t = Transfer::default(); t.0.body = Some(TransferBody::Message(m)); let _ = t.encoded_size(); if let Some(TransferBody::Message(x)) = t.0.body { m = x; } else { unreachable!() } }
                    _ => { m.0.footer = Some(Gen::arb(r)); }
                }
                let n = m.encoded_size(); let b = encode(&m);
                if n != b.len() { c.fail("size", format!("message after operations {hist:?}: announced {n}, wrote {}", b.len())); break; }
            }
            size(c, &m, "Message history");
        }
    }
}
// ------------------------------------------------------------------ arbitrary bytes
/// count >= 2^16 in front of a zero-width constructor: the recorded finding about zero-width array items
fn zero_width(b: &[u8]) -> bool { b.windows(5).any(|w| (0x40..=0x45).contains(&w[4]) && (w[0] != 0 || w[1] != 0)) }
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.below(4) {
        if b.is_empty() { b.push(r.u64() as u8); }
        let i = r.below(b.len());
        match r.below(9) {
            0 => b[i] = r.u64() as u8, 1 => b[i] ^= 1 << r.below(8), 2 => b.truncate(i), 3 => { let x = r.bytes(1 + i % 4); for (k, v) in x.into_iter().enumerate() { b.insert(i + k, v); } }
            4 => { b.remove(i); } 5 => b[i] = *r.pick(&[0x00, 0x40, 0x45, 0xc0, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0, 0xa0, 0xb0, 0xa3, 0xb3, 0x80, 0x53, 0xff, 0x01, 0x43]),
            6 => { for k in 0..4 { if i + k < b.len() { b[i + k] = 0xff; } } } 7 => { for k in 0..4 { if i + k < b.len() { b[i + k] = 0; } } }
            _ => { let j = r.below(b.len()); let (i, j) = (i.min(j), i.max(j)); let mut x = b[i..j].to_vec(); x.truncate(64); b.extend(x); }
        }
    }
}
fn junk(r: &mut Rng) -> Vec<u8> {
    let compound = [0xc0u8, 0xd0, 0xc1, 0xd1, 0xe0, 0xf0, 0x00, 0xa0, 0xb0, 0xa1, 0xb1, 0xa3, 0xb3];
    match r.below(7) {
        0 => { let n = r.below(40); r.bytes(n) }
        1 => { // headers with extreme sizes and counts
            let mut b = vec![]; let n = 1 + r.below(4);
            for _ in 0..n {
                let k = *r.pick(&compound); b.push(k);
                match k {
                    0 => { if r.bool() { b.extend([0x53, 1 + r.below(130) as u8]) } else { b.extend([0xa3, 1, b'x']) } }
                    0xd0 | 0xd1 | 0xf0 => { for _ in 0..2 { let v = *r.pick(&[0u32, 1, 2, 3, 4, 5, 8, 9, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 60, 12]); b.extend(v.to_be_bytes()); } }
                    0xb0 | 0xb1 | 0xb3 => { let v = *r.pick(&[0u32, 1, 5, 255, 0x7fff_ffff, 0xffff_ffff]); b.extend(v.to_be_bytes()); }
                    0xa0 | 0xa1 | 0xa3 => b.push(*r.pick(&[0, 1, 5, 255])),
                    _ => { b.push(*r.pick(&[0, 1, 2, 3, 9, 255])); b.push(*r.pick(&[0, 1, 2, 3, 9, 255])); }
                }
            }
            let n = r.below(30); b.extend(r.bytes(n)); b
        }
        2 => { // nesting, up to large depths
            let n = match r.below(20) { 0 => 60_000, 1 => 5_000, _ => r.below(90) }; let mut b = vec![];
            let u: &[u8] = [&[0u8, 0x53, 1][..], &[0xc0, 0xff, 1], &[0xd0, 0, 1, 0xff, 0xff, 0, 0, 0, 1], &[0xd1, 0, 1, 0, 0, 0, 0, 0, 2], &[0, 0xa3, 1, b'y'], &[0xc1, 0xff, 2]][r.below(6)];
            let mix = r.bool();
            for _ in 0..n { let u: &[u8] = if mix { [&[0u8, 0x44][..], &[0xc0, 0xff, 1], &[0xd0, 0, 1, 0xff, 0xff, 0, 0, 0, 1]][r.below(3)] } else { u }; b.extend_from_slice(u); }
            b
        }
        3 => { let mut b = v::enc(&Variant::arb(r).ast(), &mut Some(Rng(r.u64()))); mutate(r, &mut b); b }
        4 => { let mut b = encode(&AmqpFrame::new(r.u64() as u16, frame(r))).split_off(4); mutate(r, &mut b); b }
        5 => { let mut b = encode(&SaslFrame::new(sasl(r))).split_off(4); mutate(r, &mut b); b }
        _ => { let mut b = encode(&message(r, 1)); mutate(r, &mut b); b }
    }
}
fn probe<T: Decode>(c: &mut Ctx, b: &[u8], ty: &str) {
    c.case(ty, b);
    let x = Bytes::from(b.to_vec());
    let (res, used) = peak(|| { let mut x = x.clone(); T::decode(&mut x).map(|v| (v, x.len())) });
    // size_of::<(Variant, Variant)> per input byte for each of the nesting levels, plus a constant
    let bound = 65_536 + 64 * 512 * b.len();
    if used > bound { c.fail("memory", format!("{ty}: decoding {} bytes {} allocates {used} bytes", b.len(), hex(&b[..b.len().min(200)]))); }
    if let Ok((v, left)) = res {
        if left > b.len() { c.fail("memory", format!("{ty}: input grew")); }
        let ((), used) = peak(|| drop(v)); let _ = used;
    }
}
fn c04(c: &mut Ctx, r: &mut Rng, n: u64) {
    if n == 0 { // the recorded finding, at a size that is safe to run
        let b = [0xf0, 0, 0, 0, 5, 0, 0x10, 0, 0, 0x43];
        let (res, used) = peak(|| Vec::<u32>::decode(&mut Bytes::from(b.to_vec())).map(|v| v.len()));
        if res.is_ok() && used > 1 << 20 { c.known.push(format!("zero-width-array-items: Vec<u32> from {} builds {} items ({used} bytes) out of {} bytes", hex(&b), res.unwrap(), b.len())); }
    }
    let mut b = junk(r);
    if zero_width(&b) { for w in b.iter_mut() { if (0x40..=0x45).contains(w) { *w = 0x50; } } }
    macro_rules! m { ($t:ty) => { probe::<$t>(c, &b, stringify!($t)) } }
    each_type!(m, r.below(NTYPES));
    m!(Variant);
    match r.below(4) { 0 => m!(AmqpFrame), 1 => m!(SaslFrame), 2 => m!(protocol::Frame), _ => m!(SaslFrameBody) }
    match r.below(5) { 0 => m!(Message), 1 => m!(Section), 2 => m!(DeliveryState), 3 => m!(Outcome), _ => m!(Constructor) }
    each_comp!(m, r.below(NCOMP));
    if r.chance(1, 3) { // compound values handed to the second decoding step
        if let Ok((v, _)) = dec::<Variant>(&b) { second(c, &v); }
        if let Ok((f, _)) = dec::<protocol::Frame>(&b) { if let protocol::Frame::Transfer(t) = f { let _ = t.load_message::<Message>(); let _ = t.get_body(); } }
    }
    if r.chance(1, 4) { // frame headers with every data offset, on short frames
        let mut h = vec![*r.pick(&[0u8, 1, 2, 3, 4, 5, 16, 63, 64, 128, 255]), r.below(3) as u8, 0, 0]; let k = r.below(24); h.extend(r.bytes(k));
        probe::<AmqpFrame>(c, &h, "AmqpFrame header"); probe::<SaslFrame>(c, &h, "SaslFrame header");
    }
    if r.chance(1, 3) {
        let codec = AmqpCodec::<AmqpFrame>::new(); let mut s = BytesMut::new();
        if r.bool() { s.extend_from_slice(&((b.len() as u32) + 4).to_be_bytes()); }
        s.extend_from_slice(&b); c.case("AmqpCodec", &s);
        for _ in 0..4 { match codec.decode(&mut s) { Ok(Some(_)) => (), _ => break } }
        let mut s = BytesMut::from(&b[..]); c.case("ProtocolIdCodec", &b); let _ = ProtocolIdCodec.decode(&mut s);
    }
}
fn second(c: &mut Ctx, v: &Variant) {
    match v {
        Variant::DescribedCompound(d) => { let _ = d.decode::<List>(); let _ = d.decode::<Map<Variant, Variant>>(); let _ = d.decode::<Array>(); if let Ok(x) = d.decode::<Variant>() { second(c, &x) } }
        Variant::Array(a) => { let _ = a.decode::<u8>(); let _ = a.decode::<Symbol>(); let _ = a.decode::<Bytes>(); let _ = a.decode::<Uuid>(); if !(0x40..=0x45).contains(&a.element_constructor().format_code()) { let _ = a.decode::<Variant>(); } }
        Variant::List(l) => for x in l.iter() { second(c, x) },
        Variant::Described((_, x)) => second(c, x),
        _ => (),
    }
}
// ------------------------------------------------------------------ frame stream
fn stream_case<T: Decode + Encode + PartialEq + Debug + Clone>(c: &mut Ctx, r: &mut Rng, mk: impl Fn(&mut Rng) -> T, ty: u8, name: &str) {
    let mut data = vec![];
    let max = match r.below(3) { 0 => 0, 1 => 40 + r.below(400), _ => 100_000 };
    for _ in 0..1 + r.below(5) {
        let mut f = encode(&mk(r));
        if f.len() > 3000 { continue; }
        match r.below(14) {
            0 => { // extended header
                let n = 1 + r.below(4); let ext = r.bytes(4 * n); let size = f.len() + 4 * n; f[4] = 2 + n as u8; let mut g = (size as u32).to_be_bytes().to_vec(); g.extend(&f[4..8]); g.extend(ext); g.extend(&f[8..]); f = g;
            }
            1 if r.bool() => { let s = *r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xffff_ffff, 0x8000_0000]); f[..4].copy_from_slice(&s.to_be_bytes()); }
            2 if r.bool() => { f[4] = *r.pick(&[0, 1, 3, 255]); }
            3 if r.bool() => { f[5] = *r.pick(&[0, 1, 2]); }
            4 if r.bool() => { let n = f.len() as u32 + 3; f[..4].copy_from_slice(&n.to_be_bytes()); f.extend([0x40, 0x40, 0x40]); }
            5 if max > 0 => { let s = max as u32 + r.below(3) as u32 - 1; if (s as usize) < f.len() { f[..4].copy_from_slice(&s.to_be_bytes()); f.truncate(s as usize); } else if s as usize > f.len() { f[..4].copy_from_slice(&s.to_be_bytes()); } }
            6 => { f[6] = r.u64() as u8; f[7] = r.u64() as u8; }
            7 => { mutate(r, &mut f); }
            _ => (),
        }
        data.extend(f);
    }
    if r.chance(1, 3) { let k = r.below(data.len() + 1); data.truncate(k); }
    // reference: split by size field, decode each body on its own
    let mut exp: Vec<Result<T, ()>> = vec![]; let mut pos = 0;
    loop {
        if data.len() - pos < 8 { break; }
        let size = u32::from_be_bytes(data[pos..pos + 4].try_into().unwrap()) as usize;
        if max != 0 && size > max { exp.push(Err(())); break; }
        if size < 8 { exp.push(Err(())); break; }
        if data.len() - pos < size { break; }
        let f = &data[pos..pos + size];
        let doff = f[4] as usize * 4;
        if f[5] != ty || doff < 8 || doff > size { exp.push(Err(())); break; }
        let mut body = Bytes::from(f[4..].to_vec());
        match T::decode(&mut body) { Ok(v) if body.is_empty() => exp.push(Ok(v)), _ => { exp.push(Err(())); break; } }
        pos += size;
    }
    c.case(name, &data);
    for round in 0..3 {
        let codec = if r.bool() { AmqpCodec::<T>::new().max_size(max) } else { let mut k = AmqpCodec::<T>::new(); k.set_max_size(max); k };
        let mut buf = BytesMut::new(); let mut got: Vec<Result<T, ()>> = vec![]; let mut i = 0; let mut sizes = vec![];
        'feed: loop {
            loop { match codec.decode(&mut buf) { Ok(Some(v)) => got.push(Ok(v)), Ok(None) => break, Err(_) => { got.push(Err(())); break 'feed; } } }
            if i == data.len() { break; }
            let n = match round { 0 => data.len() - i, 1 => 1, _ => { let k = if r.bool() { 3 } else { 40 }; 1 + r.below(k) } }.min(data.len() - i);
            buf.extend_from_slice(&data[i..i + n]); i += n; sizes.push(n);
        }
        if got != exp { c.fail("stream", format!("{name}, max size {max}, chunks {:?}: {} gives {} items (last error {}), expected {} (last error {}); first difference at {:?}", &sizes[..sizes.len().min(40)], hex(&data), got.len(), matches!(got.last(), Some(Err(_))), exp.len(), matches!(exp.last(), Some(Err(_))), got.iter().zip(&exp).position(|(a, b)| a != b))); return; }
        if !matches!(exp.last(), Some(Err(_))) {
            let rest = &data[pos..]; // the size field of an incomplete frame may have been consumed already
            if !(buf.as_ref() == rest || (rest.len() >= 8 && buf.as_ref() == &rest[4..])) { c.fail("stream", format!("{name}: {} unread bytes after the last frame, expected {}", buf.len(), rest.len())); return; }
        }
    }
    // an oversized or undersized frame is rejected from its header alone
    let bad = if r.bool() && max > 0 { max as u32 + 1 + r.below(1000) as u32 } else { r.below(8) as u32 };
    let codec = AmqpCodec::<T>::new().max_size(max);
    let mut b = BytesMut::from(&bad.to_be_bytes()[..]); b.extend_from_slice(&[2, ty, 0, 0]);
    c.case("header only", &b);
    if codec.decode(&mut b).is_ok() { c.fail("stream", format!("{name}: frame size {bad} with max size {max} is not rejected from its header")); }
}
fn c05(c: &mut Ctx, r: &mut Rng, _: u64) {
    if r.bool() { stream_case(c, r, |r| AmqpFrame::new(r.int() as u16, { let f = frame(r); match f { protocol::Frame::Transfer(_) => { let mut t = Transfer::arb(r); if let Some(TransferBody::Message(_)) = t.0.body { t.0.body = None; } t.into() } f => f } }), 0, "AmqpFrame") }
    else { stream_case(c, r, |r| SaslFrame::new(sasl(r)), 1, "SaslFrame") }
    // what the codec writes it reads back
    let f = AmqpFrame::new(r.int() as u16, frame_plain(r)); let codec = AmqpCodec::<AmqpFrame>::new(); let mut b = BytesMut::new();
    codec.encode(f.clone(), &mut b).unwrap(); c.case("encode", &b);
    match codec.decode(&mut b) { Ok(Some(g)) if g == f && b.is_empty() => (), x => c.fail("stream", format!("written frame {} reads back as {}", short(&f), short(&x))) }
}
fn frame_plain(r: &mut Rng) -> protocol::Frame { loop { let f = frame(r); if let protocol::Frame::Transfer(t) = &f { if let Some(TransferBody::Message(_)) = t.body() { continue; } } return f; } }
// ------------------------------------------------------------------ performatives
fn comp<T: Comp>(c: &mut Ctx, r: &mut Rng) {
    let v = T::arb(r); let fl = v.fields(); let tail = v.tail(); let b = encode(&v);
    c.case(T::NAME, &b);
    // wire form
    let mut p = v::P::new(&b);
    match p.value() {
        Ok(V::Desc(d, l)) => {
            if *d != V::U64(T::CODE) && *d != V::Sym(T::NAME.as_bytes().to_vec()) { c.fail("descriptor", format!("{}: {}", T::NAME, hex(&b))); }
            match *l { V::List(fs) => {
                if fs.len() > fl.len() { c.fail("fields", format!("{}: {} fields in {}", T::NAME, fs.len(), hex(&b))); }
                for (i, f) in fl.iter().enumerate() {
                    let g = fs.get(i).cloned().unwrap_or(V::Null);
                    if !v::same(&f.v, &g) && !(g == V::Null && f.def.as_ref() == Some(&f.v)) { c.fail("fields", format!("{}: field {i} of {} written as {:?}: {}", T::NAME, short(&v), short(&g), hex(&b))); }
                }
            } _ => c.fail("fields", format!("{}: not a list: {}", T::NAME, hex(&b))) }
            if b[p.i..] != tail[..] { c.fail("payload", format!("{}: payload after the performative: {}", T::NAME, hex(&b))); }
        }
        x => c.fail("encoding", format!("{}: {} is not a described value: {x:?}", T::NAME, hex(&b))),
    }
    match dec::<T>(&b) { Ok((g, n)) if g == v && n == b.len() => (), x => c.fail("round trip", format!("{}: {} of {} gives {}", T::NAME, hex(&b), short(&v), short(&x))) }
    // other encodings
    let build = |fs: &[V], r: &mut Rng, wrong: bool| {
        let d = if wrong { if r.bool() { V::U64(T::CODE + 1 + r.below(200) as u64) } else { V::Sym(format!("{}x", T::NAME).into_bytes()) } } else if r.bool() { V::U64(T::CODE) } else { V::Sym(T::NAME.as_bytes().to_vec()) };
        let mut x = v::enc(&V::Desc(Box::new(d), Box::new(V::List(fs.to_vec()))), &mut Some(Rng(r.u64()))); x.extend(&tail); x
    };
    let mut fs: Vec<V> = fl.iter().map(|f| if f.def.as_ref() == Some(&f.v) && r.bool() { V::Null } else { f.v.clone() }).collect();
    while fs.last() == Some(&V::Null) && r.chance(2, 3) { fs.pop(); }
    let a = build(&fs, r, false);
    c.case(T::NAME, &a);
    match dec::<T>(&a) { Ok((g, n)) if lists_same(&v.ast(), &g.ast()) && n == a.len() => (), x => c.fail("other encoding", format!("{}: {} (fields {:?}) should be {}, got {}", T::NAME, hex(&a), short(&fs), short(&v), short(&x))) }
    let w = build(&fs, r, true); c.case(T::NAME, &w);
    if let Ok((g, _)) = dec::<T>(&w) { c.fail("descriptor", format!("{}: {} with another descriptor accepted as {}", T::NAME, hex(&w), short(&g))); }
    // all optional fields omitted
    let last = fl.iter().rposition(|f| f.mand).map(|i| i + 1).unwrap_or(0);
    let a = build(&fl[..last].iter().map(|f| if f.mand { f.v.clone() } else { V::Null }).collect::<Vec<_>>(), r, false);
    match dec::<T>(&a) {
        Ok((g, _)) => for (i, f) in g.fields().into_iter().enumerate() { let e = if f.mand { &fl[i].v } else { f.def.as_ref().unwrap_or(&V::Null) }; if !v::same(e, &f.v) && e != &f.v { c.fail("defaults", format!("{}: field {i} omitted in {} becomes {:?}", T::NAME, hex(&a), short(&f.v))); } },
        Err(e) => c.fail("defaults", format!("{}: {} with only mandatory fields rejected: {e:?}", T::NAME, hex(&a))),
    }
    // mandatory field missing or null, wrong type
    if !fl.is_empty() {
        let i = r.below(fl.len());
        let full: Vec<V> = fl.iter().map(|f| f.v.clone()).collect();
        if fl[i].mand {
            let mut x = full.clone(); x[i] = V::Null; let a = build(&x, r, false); c.case(T::NAME, &a);
            if let Ok((g, _)) = dec::<T>(&a) { c.fail("mandatory", format!("{}: null mandatory field {i} in {} accepted as {}", T::NAME, hex(&a), short(&g))); }
            let a = build(&full[..i], r, false); c.case(T::NAME, &a);
            if let Ok((g, _)) = dec::<T>(&a) { c.fail("mandatory", format!("{}: missing mandatory field {i} in {} accepted as {}", T::NAME, hex(&a), short(&g))); }
        }
        let mut x = full.clone(); x[i] = V::F32(0x3f80_0000); let a = build(&x, r, false); c.case(T::NAME, &a);
        if let Ok((g, _)) = dec::<T>(&a) { c.fail("field type", format!("{}: float for field {i} in {} accepted as {}", T::NAME, hex(&a), short(&g))); }
    }
}
fn union<T: Gen + Encode + Decode + PartialEq + Debug>(c: &mut Ctx, r: &mut Rng, ty: &str, known: &[u64]) {
    let v = T::arb(r); let b = encode(&v); c.case(ty, &b);
    match dec::<T>(&b) { Ok((g, n)) if g == v && n == b.len() => (), x => c.fail("round trip", format!("{ty}: {} of {} gives {}", hex(&b), short(&v), short(&x))) }
    let a = v.ast();
    if let Ok(g) = v::parse(&b) { if !lists_same(&a, &g) { c.fail("encoding", format!("{ty}: {} written as {}", short(&v), hex(&b))); } } else { c.fail("encoding", format!("{ty}: {} written as {}", short(&v), hex(&b))); }
    if let V::Desc(d, x) = &a {
        let code = r.below(256) as u64;
        if !known.contains(&code) { let e = v::enc(&V::Desc(Box::new(V::U64(code)), x.clone()), &mut Some(Rng(r.u64()))); c.case(ty, &e); if let Ok((g, _)) = dec::<T>(&e) { c.fail("descriptor", format!("{ty}: descriptor {code} accepted as {}", short(&g))); } }
        let _ = d;
    }
}
/// described lists of performatives: trailing nulls do not matter
fn lists_same(a: &V, g: &V) -> bool {
    match (a, g) {
        (V::Desc(d, x), V::Desc(e, y)) => d == e && match (&**x, &**y) { (V::List(x), V::List(y)) => y.len() <= x.len() && x.iter().enumerate().all(|(i, x)| { let n = V::Null; let g = y.get(i).unwrap_or(&n); lists_same(x, g) || *g == V::Null }), (x, y) => v::same(x, y) },
        _ => v::same(a, g),
    }
}
fn c06(c: &mut Ctx, r: &mut Rng, _: u64) {
    macro_rules! m { ($t:ident) => { comp::<$t>(c, r) } }
    each_comp!(m, r.below(NCOMP));
    match r.below(6) {
        0 => union::<DeliveryState>(c, r, "delivery state", &[0x23, 0x24, 0x25, 0x26, 0x27]),
        1 => union::<Outcome>(c, r, "outcome", &[0x24, 0x25, 0x26, 0x27]),
        2 => union::<Section>(c, r, "section", &[0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78]),
        3 => { // AMQP frames: header, dispatch on the descriptor
            let f = frame_plain(r); let ch = r.int() as u16; let a = AmqpFrame::new(ch, f.clone()); let b = encode(&a); c.case("AmqpFrame", &b);
            if b[4..8] != [2, 0, (ch >> 8) as u8, ch as u8] || u32::from_be_bytes(b[..4].try_into().unwrap()) as usize != b.len() { c.fail("frame header", hex(&b)); }
            match dec::<AmqpFrame>(&b[4..]) { Ok((g, n)) if g == a && n == b.len() - 4 => (), x => c.fail("round trip", format!("frame {} reads back as {}", short(&a), short(&x))) }
            let name = f.name(); let code = [("Open", 0x10u64), ("Begin", 0x11), ("Attach", 0x12), ("Flow", 0x13), ("Transfer", 0x14), ("Disposition", 0x15), ("Detach", 0x16), ("End", 0x17), ("Close", 0x18)].iter().find(|x| x.0 == name).map(|x| x.1);
            match code { Some(k) => { let mut p = v::P::new(&b[8..]); match p.value() { Ok(V::Desc(d, _)) if *d == V::U64(k) => (), x => c.fail("descriptor", format!("{name}: {x:?}")) } } None => if b.len() != 8 { c.fail("frame header", "empty frame has a body".into()) } }
            let k = r.below(256) as u64; if !(0x10..=0x18).contains(&k) { let x = v::enc(&V::Desc(Box::new(V::U64(k)), Box::new(V::List(vec![]))), &mut Some(Rng(r.u64()))); if let Ok((g, _)) = dec::<protocol::Frame>(&x) { c.fail("descriptor", format!("frame descriptor {k} accepted as {}", short(&g))); } }
        }
        4 => {
            let f = SaslFrame::new(sasl(r)); let b = encode(&f); c.case("SaslFrame", &b);
            if b[4..8] != [2, 1, 0, 0] { c.fail("frame header", hex(&b)); }
            match dec::<SaslFrame>(&b[4..]) { Ok((g, n)) if g == f && n == b.len() - 4 => (), x => c.fail("round trip", format!("frame {} reads back as {}", short(&f), short(&x))) }
            let k = r.below(256) as u64; if !(0x40..=0x44).contains(&k) { let x = v::enc(&V::Desc(Box::new(V::U64(k)), Box::new(V::List(vec![]))), &mut Some(Rng(r.u64()))); if let Ok((g, _)) = dec::<SaslFrameBody>(&x) { c.fail("descriptor", format!("sasl frame descriptor {k} accepted as {}", short(&g))); } }
        }
        _ => { // transfer with a message as its payload
            let m = message(r, 1); let bytes = encode(&m); let mut t = Transfer::arb(r); t.0.body = Some(TransferBody::Message(m)); let b = encode(&t); c.case("transfer with message", &b);
            match dec::<Transfer>(&b) { Ok((g, _)) => { if g.get_body().map(|x| x.to_vec()).unwrap_or_default() != bytes { c.fail("payload", format!("transfer payload {} instead of {}", short(&g.get_body()), hex(&bytes))); } if t.message_format() != g.message_format() { c.fail("fields", "message format".into()); } } Err(e) => c.fail("round trip", format!("{e:?} {}", hex(&b))) }
        }
    }
}
// ------------------------------------------------------------------ messages
fn c07(c: &mut Ctx, r: &mut Rng, _: u64) {
    let m = message(r, 2); let b = encode(&m); c.case("message", &b);
    let mut exp: Vec<V> = vec![];
    let h = |o: &Option<V>, exp: &mut Vec<V>| if let Some(v) = o { exp.push(v.clone()) };
    h(&m.0.header.as_ref().map(Gen::ast), &mut exp); h(&m.0.delivery_annotations.as_ref().map(|x| sec(0x71, x.ast())), &mut exp); h(&m.0.message_annotations.as_ref().map(|x| sec(0x72, x.ast())), &mut exp);
    h(&m.0.properties.as_ref().map(Gen::ast), &mut exp); h(&m.0.application_properties.as_ref().map(|x| sec(0x74, x.ast())), &mut exp);
    let mut datas: Vec<Bytes> = m.0.body.data.clone();
    let mut body: Vec<V> = vec![];
    for x in &m.0.body.sequence { body.push(sec(0x76, x.ast())); }
    if let Some(x) = &m.0.body.value { body.push(sec(0x77, x.ast())); }
    for x in &m.0.body.messages { datas.push(Bytes::from(encode(x))); }
    for x in &datas { body.push(sec(0x75, x.ast())); }
    let foot = m.0.footer.as_ref().map(|x| sec(0x78, x.ast()));
    // on the wire: the sections before the body in order, then the body sections (in any relative order of kinds), then the footer
    let mut p = v::P::new(&b); let mut got = vec![];
    while !p.done() { match p.value() { Ok(v) => got.push(v), Err(e) => { c.fail("encoding", format!("{e}: {}", hex(&b))); return; } } }
    let (n1, n2) = (exp.len(), exp.len() + body.len());
    let ok = got.len() == n2 + foot.is_some() as usize && exp.iter().zip(&got).all(|(a, g)| lists_same(a, g))
        && { [0x75u64, 0x76, 0x77].iter().all(|k| { let f = |x: &&V| matches!(x, V::Desc(d, _) if **d == V::U64(*k)); let a: Vec<&V> = body.iter().filter(f).collect(); let g: Vec<&V> = got[n1..n2].iter().filter(f).collect(); a.len() == g.len() && a.iter().zip(g).all(|(a, g)| v::same(a, g)) }) }
        && foot.iter().zip(&got[n2.min(got.len())..]).all(|(a, g)| v::same(a, g));
    if !ok { c.fail("sections", format!("{} written as {}: {}", short(&m), hex(&b), short(&got))); return; }
    let chk = |d: Message, b: &[u8], c: &mut Ctx, exact: bool| {
        let i = &d.0; let e = &m.0;
        if !exact { let (x, y) = (sections(&m, &datas), sections(&d, &i.body.data)); let k = (0..x.len().min(y.len())).find(|k| !v::same(&x[*k], &y[*k])); if x.len() != y.len() || !x.iter().zip(&y).all(|(x, y)| v::same(x, y)) || !i.body.messages.is_empty() { c.fail("other encoding", format!("{} gives {:?} instead of {:?}; {} for {}", hex(b), k.map(|k| &y[k]), k.map(|k| &x[k]), short(&d), short(&m))); } return; }
        if i.header != e.header || i.delivery_annotations != e.delivery_annotations || i.message_annotations != e.message_annotations || i.properties != e.properties || i.application_properties != e.application_properties || i.footer != e.footer
            || i.body.data != datas || i.body.sequence != e.body.sequence || i.body.value != e.body.value || !i.body.messages.is_empty() { c.fail("round trip", format!("{} gives {} for {}", hex(b), short(&d), short(&m))); }
    };
    match dec::<Message>(&b) { Ok((d, n)) => { if n != b.len() { c.fail("round trip", "bytes left".into()); } chk(d, &b, c, true) } Err(e) => c.fail("round trip", format!("{e:?}: {}", hex(&b))) }
    // other encodings of the same sections
    let mut a = vec![]; let mut o = Some(Rng(r.u64()));
    let order = |v: &V| match v { V::Map(x) => x.len() > 1, V::Desc(_, x) => matches!(&**x, V::Map(x) if x.len() > 1), _ => false };
    if !exp.iter().any(order) {
        for s in exp.iter().chain(&body).chain(&foot) {
            let s = match s { V::Desc(d, x) => { let mut x = (**x).clone(); if let V::List(l) = &mut x { if **d == V::U64(0x70) || **d == V::U64(0x73) { while l.last() == Some(&V::Null) && r.bool() { l.pop(); } } } let d = if r.chance(1, 3) { name(d) } else { (**d).clone() }; V::Desc(Box::new(d), Box::new(x)) } s => s.clone() };
            v::put(&s, &mut o, &mut a);
        }
        c.case("message, other encodings", &a);
        match dec::<Message>(&a) { Ok((d, _)) => chk(d, &a, c, false), Err(e) => c.fail("other encoding", format!("{e:?}: {}", hex(&a))) }
    }
    // through a transfer
    let mut t = Transfer::default(); t.0.handle = 1; t.0.body = Some(TransferBody::Data(Bytes::from(b.clone())));
    if !b.is_empty() { match t.load_message::<Message>() { Ok(d) => chk(d, &b, c, true), Err(e) => c.fail("round trip", format!("load_message {e:?}")) } }
}
fn sections(m: &Message, datas: &[Bytes]) -> Vec<V> {
    let m = &m.0;
    let mut x = vec![m.header.ast(), m.delivery_annotations.ast(), m.message_annotations.ast(), m.properties.ast(), m.application_properties.ast(), m.footer.ast(), m.body.value.ast()];
    x.extend(datas.iter().map(Gen::ast)); x.push(V::Null); x.extend(m.body.sequence.iter().map(Gen::ast)); x
}
fn name(d: &V) -> V {
    let k = match d { V::U64(k) => *k, _ => return d.clone() };
    V::Sym(match k { 0x70 => "amqp:header:list", 0x71 => "amqp:delivery-annotations:map", 0x72 => "amqp:message-annotations:map", 0x73 => "amqp:properties:list", 0x74 => "amqp:application-properties:map", 0x75 => "amqp:data:binary", 0x76 => "amqp:amqp-sequence:list", 0x77 => "amqp:amqp-value:*", 0x78 => "amqp:footer:map", _ => return d.clone() }.as_bytes().to_vec())
}
// ------------------------------------------------------------------ protocol header
fn c08(c: &mut Ctx, r: &mut Rng, n: u64) {
    let mut h = vec![b'A', b'M', b'Q', b'P', 0, 1, 0, 0];
    if n < 256 { h[4] = n as u8; } else if n < 256 + 8 * 256 { let k = n - 256; h[4] = *r.pick(&[0, 2, 3]); h[(k / 256) as usize] = k as u8; } else {
        h[4] = *r.pick(&[0, 2, 3, 1, 4]); for _ in 0..r.below(3) { let i = r.below(8); h[i] = if r.bool() { r.u64() as u8 } else { h[i] ^ (1 << r.below(8)) }; } if r.chance(1, 20) { h = r.bytes(8); }
    }
    let exp = if h[..4] == *b"AMQP" && h[5..] == [1, 0, 0] { match h[4] { 0 => Some(ProtocolId::Amqp), 2 => Some(ProtocolId::AmqpTls), 3 => Some(ProtocolId::AmqpSasl), _ => None } } else { None };
    let t = tail(r); c.case("header", &h);
    let mut b = BytesMut::from(&h[..]); b.extend_from_slice(&t);
    match (ProtocolIdCodec.decode(&mut b), exp) { (Ok(Some(x)), Some(e)) if x == e => (), (Err(_), None) => (), (x, e) => c.fail("header", format!("{} gives {x:?}, expected {e:?}", hex(&h))) }
    if b.as_ref() != &t[..] { c.fail("header", format!("{}: {} bytes left instead of {}", hex(&h), b.len(), t.len())); }
    let k = r.below(8); let mut b = BytesMut::from(&h[..k]);
    match ProtocolIdCodec.decode(&mut b) { Ok(None) if b.as_ref() == &h[..k] => (), x => c.fail("header", format!("{} bytes {}: {x:?}, {} left", k, hex(&h[..k]), b.len())) }
    for (id, code) in [(ProtocolId::Amqp, 0u8), (ProtocolId::AmqpTls, 2), (ProtocolId::AmqpSasl, 3)] {
        let mut b = BytesMut::from(&t[..]); ProtocolIdCodec.encode(id, &mut b).unwrap();
        if b[..t.len()] != t[..] || b[t.len()..] != [b'A', b'M', b'Q', b'P', code, 1, 0, 0] { c.fail("header", format!("{id:?} written as {}", hex(&b))); }
    }
}
