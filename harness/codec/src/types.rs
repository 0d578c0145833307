//! Random values of the crate's types and their value trees
use crate::{rng::Rng, v::V};
use chrono::{DateTime, TimeZone, Utc};
use ntex_amqp_codec::{protocol::*, types::*, *};
use ntex_bytes::{ByteString, Bytes};
use ordered_float::OrderedFloat;
use uuid::Uuid;
pub type Map<K, V> = ntex_util::HashMap<K, V>;
pub trait Gen: Sized {
    fn arb(r: &mut Rng) -> Self;
    fn ast(&self) -> V;
}
macro_rules! num { ($($t:ident $v:ident;)*) => { $(impl Gen for $t { fn arb(r: &mut Rng) -> Self { r.int() as $t } fn ast(&self) -> V { V::$v(*self) } })* } }
num! { u8 U8; u16 U16; u32 U32; u64 U64; i8 I8; i16 I16; i32 I32; i64 I64; }
impl Gen for bool { fn arb(r: &mut Rng) -> Self { r.bool() } fn ast(&self) -> V { V::Bool(*self) } }
impl Gen for f32 { fn arb(r: &mut Rng) -> Self { loop { let f = f32::from_bits(r.int() as u32); if !f.is_nan() { return f; } } } fn ast(&self) -> V { V::F32(self.to_bits()) } }
impl Gen for f64 { fn arb(r: &mut Rng) -> Self { loop { let f = f64::from_bits(r.int()); if !f.is_nan() { return f; } } } fn ast(&self) -> V { V::F64(self.to_bits()) } }
impl Gen for char { fn arb(r: &mut Rng) -> Self { match r.below(6) { 0 => *r.pick(&['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']), _ => r.ch() } } fn ast(&self) -> V { V::Char(*self as u32) } }
pub fn ts(ms: i64) -> Option<DateTime<Utc>> { Utc.timestamp_millis_opt(ms).single() }
impl Gen for DateTime<Utc> {
    fn arb(r: &mut Rng) -> Self {
        loop {
            let ms = match r.below(6) { 0 => r.int() as i64 % 8_000_000_000_000_000, 1 => -(r.below(5000) as i64), 2 => r.below(5000) as i64, 3 => -1000 * r.below(1 << 40) as i64, _ => r.below(2_000_000_000_000) as i64 - 500_000_000_000 };
            if let Some(t) = ts(ms) { return t; }
        }
    }
    fn ast(&self) -> V { V::Ts(self.timestamp_millis()) }
}
impl Gen for Uuid { fn arb(r: &mut Rng) -> Self { Uuid::from_slice(&r.bytes(16)).unwrap() } fn ast(&self) -> V { V::Uuid(*self.as_bytes()) } }
impl Gen for Bytes { fn arb(r: &mut Rng) -> Self { let n = r.len(); Bytes::from(r.bytes(n)) } fn ast(&self) -> V { V::Bin(self.to_vec()) } }
impl Gen for ByteString { fn arb(r: &mut Rng) -> Self { ByteString::from(r.str()) } fn ast(&self) -> V { V::Str(self.as_str().as_bytes().to_vec()) } }
impl Gen for Str { fn arb(r: &mut Rng) -> Self { if r.chance(1, 8) { Str::from_static("static") } else { Str::from(ByteString::from(r.str())) } } fn ast(&self) -> V { V::Str(self.as_str().as_bytes().to_vec()) } }
impl Gen for Symbol { fn arb(r: &mut Rng) -> Self { match r.below(8) { 0 => Symbol::from("amqp:custom"), _ => Symbol::from(r.str()) } } fn ast(&self) -> V { V::Sym(self.as_str().as_bytes().to_vec()) } }
impl<T: Gen> Gen for Option<T> { fn arb(r: &mut Rng) -> Self { if r.bool() { Some(T::arb(r)) } else { None } } fn ast(&self) -> V { match self { Some(v) => v.ast(), None => V::Null } } }
pub trait Elem: Gen { const K: u8; }
macro_rules! elem { ($($t:ty => $k:expr),*) => { $(impl Elem for $t { const K: u8 = $k; })* } }
elem!(bool => 0x56, u8 => 0x50, u16 => 0x60, u32 => 0x70, u64 => 0x80, i8 => 0x51, i16 => 0x61, i32 => 0x71, i64 => 0x81, f32 => 0x72, f64 => 0x82, char => 0x73, DateTime<Utc> => 0x83, Uuid => 0x98, Bytes => 0xb0, ByteString => 0xb1, Symbol => 0xb3);
fn vec<T: Gen>(r: &mut Rng) -> Vec<T> { let n = r.count(); if n > 8 { let x = Vec::from_iter((0..4).map(|_| T::arb(r))); if r.bool() || std::mem::size_of::<T>() > 8 { (0..n).map(|_| T::arb(&mut Rng(r.u64() & 3)) ).collect::<Vec<_>>() } else { drop(x); (0..n).map(|_| T::arb(r)).collect() } } else { (0..n).map(|_| T::arb(r)).collect() } }
impl<T: Elem> Gen for Vec<T> { fn arb(r: &mut Rng) -> Self { vec(r) } fn ast(&self) -> V { V::Array(None, T::K, self.iter().map(Gen::ast).collect()) } }
impl<T: Elem> Gen for Multiple<T> { fn arb(r: &mut Rng) -> Self { match r.below(4) { 0 => Multiple(vec![T::arb(r)]), _ => Multiple(vec(r)) } } fn ast(&self) -> V { V::Multi(T::K, self.0.iter().map(Gen::ast).collect()) } }
impl<K: Gen + Eq + std::hash::Hash, X: Gen> Gen for Map<K, X> {
    fn arb(r: &mut Rng) -> Self { let n = r.count().min(140); (0..n).map(|_| (K::arb(r), X::arb(r))).collect() }
    fn ast(&self) -> V { let mut v: Vec<_> = self.iter().map(|(k, x)| (k.ast(), x.ast())).collect(); v.sort(); V::Map(v) }
}
impl Gen for VecSymbolMap { fn arb(r: &mut Rng) -> Self { let n = r.count().min(140); VecSymbolMap((0..n).map(|_| (Symbol::arb(r), Variant::arb(r))).collect()) } fn ast(&self) -> V { let mut v: Vec<_> = self.0.iter().map(|(k, x)| (k.ast(), x.ast())).collect(); v.sort(); V::Map(v) } }
impl Gen for VecStringMap { fn arb(r: &mut Rng) -> Self { let n = r.count().min(140); VecStringMap((0..n).map(|_| (Str::arb(r), Variant::arb(r))).collect()) } fn ast(&self) -> V { let mut v: Vec<_> = self.0.iter().map(|(k, x)| (k.ast(), x.ast())).collect(); v.sort(); V::Map(v) } }
impl Gen for Descriptor { fn arb(r: &mut Rng) -> Self { if r.bool() { Descriptor::Ulong(u64::arb(r)) } else { Descriptor::Symbol(Symbol::arb(r)) } } fn ast(&self) -> V { match self { Descriptor::Ulong(x) => x.ast(), Descriptor::Symbol(s) => s.ast() } } }
impl Gen for List { fn arb(r: &mut Rng) -> Self { list(r, 2) } fn ast(&self) -> V { V::List(self.0.iter().map(Gen::ast).collect()) } }
fn list(r: &mut Rng, d: usize) -> List { let n = r.count(); List(if n > 8 { let x = variant(r, 0); (0..n).map(|_| x.clone()).collect() } else { (0..n).map(|_| variant(r, d.saturating_sub(1))).collect() }) }
fn vmap(r: &mut Rng, d: usize) -> VariantMap { let n = r.count().min(140); VariantMap::new((0..n).map(|_| (variant(r, d.saturating_sub(1)), variant(r, d.saturating_sub(1)))).collect()) }
impl Gen for VariantMap { fn arb(r: &mut Rng) -> Self { vmap(r, 2) } fn ast(&self) -> V { self.map.ast() } }
impl Gen for Array {
    fn arb(r: &mut Rng) -> Self {
        macro_rules! a { ($($n:literal => $t:ty),*) => { match r.below(17) { $($n => Array::from(<Vec<$t>>::arb(r)),)* _ => unreachable!() } } }
        a!(0 => bool, 1 => u8, 2 => u16, 3 => u32, 4 => u64, 5 => i8, 6 => i16, 7 => i32, 8 => i64, 9 => f32, 10 => f64, 11 => char, 12 => DateTime<Utc>, 13 => Uuid, 14 => Bytes, 15 => ByteString, 16 => Symbol)
    }
    fn ast(&self) -> V {
        let c = self.element_constructor();
        let items = self.decode::<Variant>().unwrap_or_else(|e| panic!("array items: {e:?}"));
        V::Array(c.descriptor().map(|d| Box::new(d.ast())), crate::v::wide(c.format_code()).unwrap(), items.iter().map(Gen::ast).collect())
    }
}
impl Gen for Variant { fn arb(r: &mut Rng) -> Self { variant(r, 3) } fn ast(&self) -> V {
    match self {
        Variant::Null => V::Null, Variant::Boolean(x) => x.ast(), Variant::Ubyte(x) => x.ast(), Variant::Ushort(x) => x.ast(), Variant::Uint(x) => x.ast(), Variant::Ulong(x) => x.ast(),
        Variant::Byte(x) => x.ast(), Variant::Short(x) => x.ast(), Variant::Int(x) => x.ast(), Variant::Long(x) => x.ast(), Variant::Float(x) => x.0.ast(), Variant::Double(x) => x.0.ast(),
        Variant::Decimal32(x) => V::D32(*x), Variant::Decimal64(x) => V::D64(*x), Variant::Decimal128(x) => V::D128(*x), Variant::Char(x) => x.ast(), Variant::Timestamp(x) => x.ast(),
        Variant::Uuid(x) => x.ast(), Variant::Binary(x) => x.ast(), Variant::String(x) => x.ast(), Variant::Symbol(x) => x.ast(), Variant::List(x) => x.ast(), Variant::Map(x) => x.ast(), Variant::Array(x) => x.ast(),
        Variant::Described((d, x)) => V::Desc(Box::new(d.ast()), Box::new(x.ast())),
        Variant::DescribedCompound(x) => V::Desc(Box::new(x.descriptor().ast()), Box::new(x.decode::<Variant>().unwrap_or_else(|e| panic!("described value: {e:?}")).ast())),
    }
} }
pub fn variant(r: &mut Rng, d: usize) -> Variant {
    match r.below(if d > 0 { 32 } else { 22 }) {
        0 => Variant::Null, 1 => bool::arb(r).into(), 2 => Variant::Ubyte(u8::arb(r)), 3 => Variant::Ushort(u16::arb(r)), 4 => Variant::Uint(u32::arb(r)), 5 => Variant::Ulong(u64::arb(r)),
        6 => Variant::Byte(i8::arb(r)), 7 => Variant::Short(i16::arb(r)), 8 => Variant::Int(i32::arb(r)), 9 => Variant::Long(i64::arb(r)), 10 => Variant::Float(OrderedFloat(f32::arb(r))), 11 => Variant::Double(OrderedFloat(f64::arb(r))),
        12 => Variant::Decimal32(r.bytes(4).try_into().unwrap()), 13 => Variant::Decimal64(r.bytes(8).try_into().unwrap()), 14 => Variant::Decimal128(r.bytes(16).try_into().unwrap()), 15 => Variant::Char(char::arb(r)),
        16 => Variant::Timestamp(Gen::arb(r)), 17 => Variant::Uuid(Gen::arb(r)), 18 => Variant::Binary(Gen::arb(r)), 19 => Variant::String(Gen::arb(r)), 20 => Variant::Symbol(Gen::arb(r)),
        21 => Variant::Array(Gen::arb(r)), 22 | 23 => Variant::List(list(r, d)), 24 | 25 => Variant::Map(vmap(r, d)),
        26 | 27 | 28 => { let x = loop { let x = variant(r, d - 1); if !matches!(x, Variant::List(_) | Variant::Map(_) | Variant::Array(_)) { break x; } }; Variant::Described((Descriptor::arb(r), Box::new(x))) }
        29 => Variant::DescribedCompound(DescribedCompound::create(Descriptor::arb(r), list(r, d))),
        30 => Variant::DescribedCompound(DescribedCompound::create(Descriptor::arb(r), Variant::Map(vmap(r, d)))),
        _ => Variant::DescribedCompound(DescribedCompound::create(Descriptor::arb(r), Array::arb(r))),
    }
}
/// nested chain of depth n
pub fn chain(r: &mut Rng, n: usize) -> Variant {
    let mut v = variant(r, 0);
    for _ in 0..n {
        v = match (r.below(3), v) {
            (0, v) => Variant::List(List(vec![v])),
            (1, v) => { let mut m = Map::default(); if r.bool() { m.insert(Variant::Ubyte(1), v); } else { m.insert(v, Variant::Null); } Variant::Map(VariantMap::new(m)) }
            (_, v @ (Variant::List(_) | Variant::Map(_) | Variant::Array(_))) => Variant::List(List(vec![Variant::Null, v])),
            (_, v) => Variant::Described((Descriptor::Ulong(1), Box::new(v))),
        };
    }
    v
}
impl Gen for MessageId {
    fn arb(r: &mut Rng) -> Self { match r.below(4) { 0 => MessageId::Ulong(Gen::arb(r)), 1 => MessageId::Uuid(Gen::arb(r)), 2 => MessageId::Binary(Gen::arb(r)), _ => MessageId::String(Gen::arb(r)) } }
    fn ast(&self) -> V { match self { MessageId::Ulong(x) => x.ast(), MessageId::Uuid(x) => x.ast(), MessageId::Binary(x) => x.ast(), MessageId::String(x) => x.ast() } }
}
impl Gen for DistributionMode {
    fn arb(r: &mut Rng) -> Self { match r.below(3) { 0 => DistributionMode::Move, 1 => DistributionMode::Copy, _ => DistributionMode::Custom(custom(r)) } }
    fn ast(&self) -> V { match self { DistributionMode::Move => V::Sym(b"move".to_vec()), DistributionMode::Copy => V::Sym(b"copy".to_vec()), DistributionMode::Custom(s) => s.ast() } }
}
pub fn custom(r: &mut Rng) -> Symbol { Symbol::from(format!("x:{}", r.str())) }
impl Gen for ErrorCondition {
    fn arb(r: &mut Rng) -> Self { match r.below(5) { 0 => AmqpError::arb(r).into(), 1 => ConnectionError::arb(r).into(), 2 => SessionError::arb(r).into(), 3 => LinkError::arb(r).into(), _ => ErrorCondition::Custom(custom(r)) } }
    fn ast(&self) -> V { match self { ErrorCondition::AmqpError(x) => x.ast(), ErrorCondition::ConnectionError(x) => x.ast(), ErrorCondition::SessionError(x) => x.ast(), ErrorCondition::LinkError(x) => x.ast(), ErrorCondition::Custom(x) => x.ast() } }
}
/// one field of a performative: its value, its default when omitted, whether it is mandatory
pub struct Fld { pub v: V, pub def: Option<V>, pub mand: bool }
pub trait Comp: Gen + Encode + Decode + PartialEq + std::fmt::Debug + Clone {
    const CODE: u64;
    const NAME: &'static str;
    fn fields(&self) -> Vec<Fld>;
    fn tail(&self) -> Vec<u8> { vec![] }
}
pub fn comp_ast<T: Comp>(x: &T) -> V {
    V::Desc(Box::new(V::U64(T::CODE)), Box::new(V::List(x.fields().into_iter().map(|f| f.v).collect())))
}
