// ===================================================================================
// Data types (extracted) and stubs for external ones
// ===================================================================================
//@item codec/src/error.rs AmqpParseError
//@item codec/src/types/mod.rs Str
//@item codec/src/types/symbol.rs Symbol
//@item codec/src/types/symbol.rs StaticSymbol $&'staticstr=StaticStr
//@item codec/src/types/mod.rs Descriptor
//@item codec/src/types/mod.rs Constructor
//@item codec/src/codec/mod.rs ListHeader
//@item codec/src/codec/mod.rs MapHeader
//@item codec/src/codec/mod.rs ArrayHeader
//@impl codec/src/types/mod.rs Str
//@method as_bytes
    ensures r@ == self.0.s@
//@method len
    ensures r == self.0.s@.len()
//@end
impl Str {
    #[verifier::external_body]
    pub fn from(s: ByteString) -> (r: Str) ensures r.0 == s { unimplemented!() }
    #[verifier::external_body]
    pub fn from_lit_(s: StaticStr) -> (r: Str) ensures r.0@ == s@ { unimplemented!() }
    // deref to &str
    pub fn as_str(&self) -> (r: &Str) ensures r == self { self }
    #[verifier::external_body]
    pub fn eq_lit(&self, s: StaticStr) -> (r: bool) ensures r == (self.0@ == s@) { unimplemented!() }
}
//@impl codec/src/types/symbol.rs Symbol
//@method as_bytes
    ensures r@ == self.0.0.s@
//@method len
    ensures r == self.0.0.s@.len()
//@end
impl Symbol {
    pub fn as_str(&self) -> (r: &Str) ensures *r == self.0 { &self.0 }
    #[verifier::external_body]
    pub fn eq_lit(&self, s: StaticStr) -> (r: bool) ensures r == (self.0.0@ == s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_lit_(s: StaticStr) -> (r: Symbol) ensures r.0.0@ == s@ { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct OrderedFloat<T>(pub T);

/// std::vec::Vec: the sequence of its elements
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { pub s: Ghost<Seq<T>> }
impl<T> View for Vec<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from1_(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
    /// reservations must be bounded by the number of bytes received
    #[verifier::external_body]
    pub fn with_capacity_(n: usize, Ghost(bound): Ghost<nat>) -> (r: Vec<T>) requires n <= bound ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    pub fn iter_(&self) -> (r: &Vec<T>) ensures r == self { self }
}
/// std::collections::HashMap: its entries in iteration order. Equality of the model is finer than
/// the equality of the map.
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { pub s: Ghost<Seq<(K, V)>> }
/// equality of keys (Eq of the key type)
pub uninterp spec fn keq<K>(a: K, b: K) -> bool;
pub open spec fn has_key<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && keq(#[trigger] s[i].0, k) }
pub open spec fn nodup<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !keq(#[trigger] s[i].0, #[trigger] s[j].0) }
impl<K, V> View for HashMap<K, V> { type V = Seq<(K, V)>; open spec fn view(&self) -> Seq<(K, V)> { self.s@ } }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn with_capacity_(n: usize, Ghost(bound): Ghost<nat>) -> (r: HashMap<K, V>) requires n <= bound ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x3fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures !has_key(old(self)@, k) ==> final(self)@ == old(self)@.push((k, v)) && r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: &Vec<(K, V)>) ensures r@ == self@ { unimplemented!() }
}

/// chrono::DateTime<Utc>: nanoseconds since the epoch
pub struct Utc;
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { pub ns: Ghost<int>, pub t: core::marker::PhantomData<T> }
pub struct LocalResult_ { pub ns: Ghost<Option<int>> }
/// chrono's range of DateTime<Utc> in seconds
pub spec const DT_MAX: int = 8_210_298_412_799;
pub spec const DT_MIN: int = -8_334_601_228_800;
pub open spec fn dt_of_ms(ms: int) -> DateTime<Utc> { DateTime { ns: Ghost(ms * 1_000_000), t: core::marker::PhantomData } }
pub open spec fn dt_ms(d: DateTime<Utc>) -> int { d.ns@ / 1_000_000 }
pub open spec fn dt_in_range(sec: int) -> bool { DT_MIN <= sec <= DT_MAX }
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn timestamp(&self) -> (r: i64) ensures r as int == self.ns@ / 1_000_000_000, dt_in_range(r as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_subsec_millis(&self) -> (r: u32) ensures r as int == (self.ns@ % 1_000_000_000) / 1_000_000 { unimplemented!() }
}
impl Utc {
    #[verifier::external_body]
    pub fn timestamp_opt(&self, sec: i64, nanos: u32) -> (r: LocalResult_)
        ensures nanos < 1_000_000_000 ==> r.ns@ == (if dt_in_range(sec as int) { Some(sec * 1_000_000_000 + nanos) } else { None }) { unimplemented!() }
}
impl LocalResult_ {
    #[verifier::external_body]
    pub fn earliest(self) -> (r: Option<DateTime<Utc>>)
        ensures match self.ns@ { Some(n) => r == Some(DateTime::<Utc> { ns: Ghost(n), t: core::marker::PhantomData }), None => r is None } { unimplemented!() }
}
pub assume_specification[ i64::div_euclid ](a: i64, b: i64) -> (r: i64)
    requires b > 0
    ensures r as int == (a as int) / (b as int);
pub assume_specification[ i64::rem_euclid ](a: i64, b: i64) -> (r: i64)
    requires b > 0
    ensures r as int == (a as int) % (b as int);
#[verifier::external_body]
pub fn __unsigned_abs(a: i64) -> (r: u64) ensures r as int == (if a < 0 { -a as int } else { a as int }) { unimplemented!() }

impl View for Uuid { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { uuid_bytes(*self) } }
impl AsSeq for Uuid { open spec fn seq(&self) -> Seq<u8> { uuid_bytes(*self) } fn r_(&self) -> (r: &Self) { self } }
impl Uuid {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Uuid) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(b: &Bytes) -> (r: Result<Uuid, ()>) ensures match r { Ok(v) => b@.len() == 16 && v == uuid_of(b@), Err(_) => b@.len() != 16 } { unimplemented!() }
}
pub assume_specification[ <i64 as From<u32>>::from ](a: u32) -> (r: i64)
    ensures r == a as i64;
pub assume_specification[ <u8 as From<bool>>::from ](a: bool) -> (r: u8)
    ensures r == if a { 1u8 } else { 0u8 };
/// Unicode scalar value
pub open spec fn is_char(n: nat) -> bool { n < 0xD800 || (0xDFFF < n && n <= 0x10FFFF) }
pub open spec fn u2c(n: nat) -> char { n as u32 as char }
#[verifier::external_body]
pub proof fn axiom_char(c: char) ensures is_char(c as u32 as nat), u2c(c as u32 as nat) == c { }
#[verifier::external_body]
pub fn __char_from_u32(n: u32) -> (r: Option<char>) ensures match r { Some(c) => is_char(n as nat) && c as u32 == n, None => !is_char(n as nat) } { unimplemented!() }
