#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unreachable_code, unused_parens, unused_braces, unused_assignments, unreachable_patterns, non_camel_case_types)]
use vstd::prelude::*;
use vstd::seq::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
pub mod base {
use vstd::prelude::*;
use vstd::seq::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
pub open spec fn enc_be(v: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::<u8>::empty() } else { enc_be(v / 256, (n - 1) as nat).push((v % 256) as u8) }
}
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn pow256(n: nat) -> nat decreases n {
    if n == 0 { 1 } else { pow256((n - 1) as nat) * 256 }
}
/// two's complement of a signed value in m = 2^bits
pub open spec fn tw(v: int, m: int) -> nat { if v < 0 { (v + m) as nat } else { v as nat } }
/// inverse of `tw`
pub open spec fn untw(n: nat, m: int) -> int { if 2 * n >= m { n - m } else { n as int } }

pub broadcast proof fn lemma_enc_be_len(v: nat, n: nat)
    ensures #[trigger] enc_be(v, n).len() == n
    decreases n
{
    if n > 0 { lemma_enc_be_len(v / 256, (n - 1) as nat); }
}
pub proof fn lemma_be_enc(v: nat, n: nat)
    requires v < pow256(n)
    ensures be(enc_be(v, n)) == v
    decreases n
{
    lemma_enc_be_len(v, n);
    if n > 0 {
        let p = pow256((n - 1) as nat);
        assert(v / 256 < p) by (nonlinear_arith) requires v < p * 256;
        lemma_be_enc(v / 256, (n - 1) as nat);
        assert(enc_be(v, n).drop_last() =~= enc_be(v / 256, (n - 1) as nat));
        assert(enc_be(v, n).last() == (v % 256) as u8);
        assert(v % 256 < 256);
        assert(v == (v / 256) * 256 + v % 256) by { lemma_fundamental_div_mod(v as int, 256); }
    } else {
        assert(enc_be(v, 0).len() == 0);
    }
}
pub proof fn lemma_be_bound(s: Seq<u8>)
    ensures be(s) < pow256(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_be_bound(s.drop_last());
        let a = be(s.drop_last()); let p = pow256((s.len() - 1) as nat); let l = s.last() as nat;
        assert(a * 256 + l < p * 256) by (nonlinear_arith) requires a < p, l < 256;
    }
}
pub proof fn lemma_enc_be_be(s: Seq<u8>)
    ensures enc_be(be(s), s.len()) == s
    decreases s.len()
{
    lemma_enc_be_len(be(s), s.len());
    if s.len() > 0 {
        lemma_enc_be_be(s.drop_last());
        let a = be(s.drop_last()); let l = s.last() as nat;
        assert((a * 256 + l) / 256 == a) by (nonlinear_arith) requires l < 256;
        assert((a * 256 + l) % 256 == l) by (nonlinear_arith) requires l < 256;
        assert(enc_be(be(s), s.len()) =~= s);
    } else {
        assert(enc_be(be(s), 0) =~= s);
    }
}
pub broadcast proof fn lemma_be1(s: Seq<u8>)
    requires s.len() == 1
    ensures #[trigger] be(s) == s[0] as nat
{
    assert(s.drop_last().len() == 0);
    assert(be(s.drop_last()) == 0);
}
pub broadcast proof fn lemma_enc1(v: nat)
    requires v < 256
    ensures #[trigger] enc_be(v, 1) == seq![v as u8]
{
    assert(enc_be(v / 256, 0) =~= Seq::<u8>::empty());
    assert(enc_be(v, 1) =~= seq![v as u8]);
}
pub proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{
    reveal_with_fuel(pow256, 9);
}
/// all facts about reading back an n byte big endian number
pub proof fn lemma_rd(v: nat, n: nat, rest: Seq<u8>)
    requires v < pow256(n)
    ensures
        (enc_be(v, n) + rest).len() == n + rest.len(),
        be((enc_be(v, n) + rest).subrange(0, n as int)) == v,
        (enc_be(v, n) + rest).skip(n as int) == rest,
{
    lemma_enc_be_len(v, n);
    lemma_be_enc(v, n);
    assert((enc_be(v, n) + rest).subrange(0, n as int) =~= enc_be(v, n));
    assert((enc_be(v, n) + rest).skip(n as int) =~= rest);
}

pub closed spec fn suffix(t: Seq<u8>, s: Seq<u8>) -> bool {
    t.len() <= s.len() && t == s.skip(s.len() - t.len())
}
pub broadcast proof fn suffix_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] suffix(a, b), #[trigger] suffix(b, c)
    ensures suffix(a, c)
{
    assert(a =~= c.skip(c.len() - a.len()));
}
pub broadcast proof fn suffix_refl(a: Seq<u8>)
    ensures #[trigger] suffix(a, a)
{
    assert(a =~= a.skip(0));
}
pub broadcast proof fn suffix_skip(a: Seq<u8>, n: int)
    requires 0 <= n <= a.len()
    ensures suffix(#[trigger] a.skip(n), a)
{
    assert(a.skip(n) =~= a.skip(a.len() - a.skip(n).len()));
}
pub broadcast proof fn skip_skip(a: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= a.len()
    ensures #[trigger] a.skip(n).skip(m) == a.skip(n + m)
{
    assert(a.skip(n).skip(m) =~= a.skip(n + m));
}
pub broadcast proof fn skip_zero(a: Seq<u8>)
    ensures #[trigger] a.skip(0) == a
{
    assert(a.skip(0) =~= a);
}

pub broadcast proof fn lemma_u8_i8(x: u8)
    ensures (#[trigger] (x as i8)) as int == untw(x as nat, 0x100)
{
    assert(x >= 128 ==> (x as i8) == x - 256) by (bit_vector);
    assert(x < 128 ==> (x as i8) == x) by (bit_vector);
}
pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
/// uuid::Uuid: 16 bytes
#[verifier::external_body]
pub struct Uuid { u: [u8; 16] }
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
pub uninterp spec fn uuid_of(s: Seq<u8>) -> Uuid;
#[verifier::external_body]
pub broadcast proof fn axiom_uuid(u: Uuid) ensures (#[trigger] uuid_bytes(u)).len() == 16, uuid_of(uuid_bytes(u)) == u { }
#[verifier::external_body]
pub broadcast proof fn axiom_uuid_of(s: Seq<u8>) requires s.len() == 16 ensures uuid_bytes(#[trigger] uuid_of(s)) == s { }
pub broadcast group gseq { axiom_uuid, axiom_uuid_of, seq_assoc, suffix_trans, suffix_refl, suffix_skip, suffix_len, skip_skip, skip_zero, lemma_be1, lemma_enc1, lemma_u8_i8, lemma_enc_be_len, axiom_arr_len }
pub broadcast proof fn suffix_len(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] suffix(a, b) ==> a.len() <= b.len() { }
pub broadcast proof fn sub_full(a: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] a.subrange(0, n) == a { assert(a.subrange(0, n) =~= a); }
pub broadcast proof fn skip_full(a: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] a.skip(n) == Seq::<u8>::empty() { assert(a.skip(n) =~= Seq::<u8>::empty()); }
pub broadcast group gperf { sub_full, skip_full, suffix_len, suffix_trans, suffix_refl, suffix_skip }
pub broadcast proof fn axiom_arr_len<const N: usize>(a: [u8; N]) ensures #[trigger] a@.len() == N { }
} // verus!
}
pub use base::*;
verus! {
global size_of usize == 8;
}
// values: everything below the performatives
pub mod vals {
use super::*;
verus! {
// ===================================================================================
// Stubs for dependency types (ntex-bytes, std Vec / HashMap, chrono, uuid, byteorder).
// `external_body` = assumed contract; every one is listed in the evidence.
// ===================================================================================

/// IEEE 754 bit patterns (not interpreted, only bijective)
pub uninterp spec fn f32_bits(v: f32) -> nat;
pub uninterp spec fn f64_bits(v: f64) -> nat;
pub uninterp spec fn bits_f32(n: nat) -> f32;
pub uninterp spec fn bits_f64(n: nat) -> f64;
#[verifier::external_body]
pub proof fn axiom_f32(v: f32) ensures f32_bits(v) < 0x1_0000_0000, bits_f32(f32_bits(v)) == v { }
#[verifier::external_body]
pub proof fn axiom_f64(v: f64) ensures f64_bits(v) < 0x1_0000_0000_0000_0000, bits_f64(f64_bits(v)) == v { }

pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;

pub trait AsSeq {
    spec fn seq(&self) -> Seq<u8>;
    fn r_(&self) -> (r: &Self) ensures r == self;
}

// ------------------------------------------------------------------ Bytes / BytesMut

pub struct Bytes { pub s: Ghost<Seq<u8>> }
impl View for Bytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl AsSeq for Bytes {
    open spec fn seq(&self) -> Seq<u8> { self.s@ }
    fn r_(&self) -> (r: &Self) { self }
}
impl Bytes {
    pub open spec fn n_(&self) -> nat { self.s@.len() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: &u8) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.len() >= 1 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static<const N: usize>(a: &[u8; N]) -> (r: Bytes) ensures r@ == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
    // byteorder::BigEndian::read_*(&self[off..])
    #[verifier::external_body]
    pub fn be_read_u16(&self, off: usize) -> (r: u16) requires off + 2 <= self@.len() ensures r as nat == be(self@.subrange(off as int, off + 2)) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_u32(&self, off: usize) -> (r: u32) requires off + 4 <= self@.len() ensures r as nat == be(self@.subrange(off as int, off + 4)) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_u64(&self, off: usize) -> (r: u64) requires off + 8 <= self@.len() ensures r as nat == be(self@.subrange(off as int, off + 8)) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_i16(&self, off: usize) -> (r: i16) requires off + 2 <= self@.len() ensures r as int == untw(be(self@.subrange(off as int, off + 2)), 0x1_0000) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_i32(&self, off: usize) -> (r: i32) requires off + 4 <= self@.len() ensures r as int == untw(be(self@.subrange(off as int, off + 4)), 0x1_0000_0000) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_i64(&self, off: usize) -> (r: i64) requires off + 8 <= self@.len() ensures r as int == untw(be(self@.subrange(off as int, off + 8)), 0x1_0000_0000_0000_0000) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_f32(&self, off: usize) -> (r: f32) requires off + 4 <= self@.len() ensures r == bits_f32(be(self@.subrange(off as int, off + 4))) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_f64(&self, off: usize) -> (r: f64) requires off + 8 <= self@.len() ensures r == bits_f64(be(self@.subrange(off as int, off + 8))) { unimplemented!() }
    // u32::from_be_bytes(self[a..b].try_into().unwrap())
    #[verifier::external_body]
    pub fn be_range_u32(&self, a: usize, b: usize) -> (r: u32) requires a <= b <= self@.len(), b - a == 4 ensures r as nat == be(self@.subrange(a as int, b as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_to_<const N: usize>(&self, d: &mut [u8; N], n: usize) requires n <= self@.len(), n == N ensures final(d)@ == self@.subrange(0, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn sub_(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
}

pub struct BytesMut { pub s: Ghost<Seq<u8>> }
impl View for BytesMut { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl BytesMut {
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining_mut(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@ + seq![v] { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i8(&mut self, v: i8) ensures final(self)@ == old(self)@ + seq![tw(v as int, 0x100) as u8] { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + enc_be(v as nat, 2) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + enc_be(v as nat, 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u64(&mut self, v: u64) ensures final(self)@ == old(self)@ + enc_be(v as nat, 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i16(&mut self, v: i16) ensures final(self)@ == old(self)@ + enc_be(tw(v as int, 0x1_0000), 2) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i32(&mut self, v: i32) ensures final(self)@ == old(self)@ + enc_be(tw(v as int, 0x1_0000_0000), 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_i64(&mut self, v: i64) ensures final(self)@ == old(self)@ + enc_be(tw(v as int, 0x1_0000_0000_0000_0000), 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_f32(&mut self, v: f32) ensures final(self)@ == old(self)@ + enc_be(f32_bits(v), 4) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_f64(&mut self, v: f64) ensures final(self)@ == old(self)@ + enc_be(f64_bits(v), 8) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice<T: AsSeq + ?Sized>(&mut self, v: &T) ensures final(self)@ == old(self)@ + v.seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice<T: AsSeq + ?Sized>(&mut self, v: &T) ensures final(self)@ == old(self)@ + v.seq() { unimplemented!() }
    // decoder side (frames are split off the read buffer)
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: &u8) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn sub_(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn be_read_u32(&self, off: usize) -> (r: u32) requires off + 4 <= self@.len() ensures r as nat == be(self@.subrange(off as int, off + 4)) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
}
impl AsSeq for [u8] { open spec fn seq(&self) -> Seq<u8> { self@ } fn r_(&self) -> (r: &Self) { self } }
impl<const N: usize> AsSeq for [u8; N] { open spec fn seq(&self) -> Seq<u8> { self@ } fn r_(&self) -> (r: &Self) { self } }

// ------------------------------------------------------------------ strings

/// `&'static str` and byte string literals: the sequence of their UTF-8 bytes
#[derive(Clone, Copy)]
pub struct StaticStr { pub s: Ghost<Seq<u8>> }
impl View for StaticStr { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl AsSeq for StaticStr { open spec fn seq(&self) -> Seq<u8> { self.s@ } fn r_(&self) -> (r: &Self) { self } }
impl StaticStr {
    /// only ever applied to the bytes of a string literal of the source
    #[verifier::external_body]
    pub fn lit_(a: Ghost<Seq<u8>>) -> (r: StaticStr) ensures r@ == a@, is_utf8(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}

pub struct ByteString { pub s: Ghost<Seq<u8>> }
impl View for ByteString { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl AsSeq for ByteString { open spec fn seq(&self) -> Seq<u8> { self.s@ } fn r_(&self) -> (r: &Self) { self } }
impl ByteString {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ByteString) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from(b: Bytes) -> (r: Result<ByteString, ()>) ensures match r { Ok(v) => is_utf8(b@) && v@ == b@, Err(_) => !is_utf8(b@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_lit_(s: StaticStr) -> (r: ByteString) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: Str) ensures r.0 == self { unimplemented!() }
}
/// std::cmp::min / max
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
