// ===================================================================================
// Trait contracts (hand written; the signatures are those of codec/src/codec/mod.rs)
// ===================================================================================
pub trait Encode {
    /// the AMQP encoding of the value (from the AMQP 1.0 type system, not from the code)
    spec fn enc(&self) -> Seq<u8>;
    fn encoded_size(&self) -> (r: usize)
        requires self.enc().len() <= u32::MAX
        ensures r == self.enc().len();
    fn encode(&self, buf: &mut BytesMut)
        requires self.enc().len() <= u32::MAX
        ensures final(buf)@ == old(buf)@ + self.enc();
}
pub trait ArrayEncode {
    /// encoding of the value without its constructor
    spec fn aenc(&self) -> Seq<u8>;
    spec fn actor() -> Constructor;
    fn ARRAY_CONSTRUCTOR() -> (r: Constructor)
        ensures r == Self::actor();
    fn array_encoded_size(&self) -> (r: usize)
        requires self.aenc().len() <= u32::MAX
        ensures r == self.aenc().len();
    fn array_encode(&self, buf: &mut BytesMut)
        requires self.aenc().len() <= u32::MAX
        ensures final(buf)@ == old(buf)@ + self.aenc();
}
pub trait FixedEncode: ArrayEncode {
    spec fn code() -> u8;
    proof fn ctor_is_code()
        ensures Self::actor() == Constructor::FormatCode(Self::code());
}
pub trait DecodeFormatted: Sized {
    /// value and remaining bytes for a well formed encoding with format code `fmt`
    spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)>;
    /// inputs that must be rejected (only meaningful where `sdec` is None)
    spec fn srej(s: Seq<u8>, fmt: u8) -> bool;
    fn decode_with_format(input: &mut Bytes, fmt: u8) -> (r: Result<Self, AmqpParseError>)
        ensures
            suffix(final(input)@, old(input)@),
            match Self::sdec(old(input)@, fmt) {
                Some((v, rest)) => r == Ok::<Self, AmqpParseError>(v) && final(input)@ == rest,
                None => Self::srej(old(input)@, fmt) ==> r is Err,
            };
}
pub trait Decode: Sized {
    spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
    spec fn drej(s: Seq<u8>) -> bool;
    fn decode(input: &mut Bytes) -> (r: Result<Self, AmqpParseError>)
        ensures
            suffix(final(input)@, old(input)@),
            r is Ok ==> final(input)@.len() < old(input)@.len() || old(input)@.len() == 0,
            match Self::dec(old(input)@) {
                Some((v, rest)) => r == Ok::<Self, AmqpParseError>(v) && final(input)@ == rest,
                None => Self::drej(old(input)@) ==> r is Err,
            };
}
/// Values that survive a round trip
pub trait RoundTrip: Encode + DecodeFormatted {
    spec fn wf(&self) -> bool;
    proof fn roundtrip(v: Self, rest: Seq<u8>)
        requires v.wf(), v.enc().len() <= u32::MAX
        ensures
            v.enc().len() >= 1,
            Self::sdec((v.enc() + rest).skip(1), v.enc()[0]) == Some((v, rest));
}
pub trait ArrayRoundTrip: ArrayEncode + DecodeFormatted {
    spec fn awf(&self) -> bool;
    spec fn acode() -> u8;
    proof fn ctor_code_()
        ensures
            Self::actor() == Constructor::FormatCode(Self::acode()),
            Self::acode() != 0;
    proof fn aroundtrip(v: Self, rest: Seq<u8>)
        requires v.awf(), v.aenc().len() <= u32::MAX
        ensures
            v.aenc().len() >= 1,
            Self::sdec(v.aenc() + rest, Self::acode()) == Some((v, rest));
}

/// n byte unsigned big endian number and the rest
pub open spec fn rd(s: Seq<u8>, n: nat) -> Option<(nat, Seq<u8>)> {
    if s.len() >= n { Some((be(s.subrange(0, n as int)), s.skip(n as int))) } else { None }
}
pub open spec fn rd1(s: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    if s.len() >= 1 { Some((s[0], s.skip(1))) } else { None }
}
/// length prefixed bytes (prefix of n bytes)
pub open spec fn rd_var(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    match rd(s, n) {
        Some((len, r)) => if r.len() >= len { Some((r.subrange(0, len as int), r.skip(len as int))) } else { None },
        None => None,
    }
}
/// variable width primitive: 8 bit length below 256, 32 bit length otherwise
pub open spec fn enc_var(c8: u8, c32: u8, b: Seq<u8>) -> Seq<u8> {
    if b.len() <= 255 { seq![c8, b.len() as u8] + b } else { seq![c32] + enc_be(b.len(), 4) + b }
}
pub proof fn lemma_rd_var8(b: Seq<u8>, rest: Seq<u8>)
    requires b.len() <= 255
    ensures rd_var(seq![b.len() as u8] + b + rest, 1) == Some((b, rest))
{
    let s = seq![b.len() as u8] + b + rest;
    assert(s.subrange(0, 1) =~= seq![b.len() as u8]);
    lemma_be1(s.subrange(0, 1));
    assert(s.skip(1) =~= b + rest);
    assert((b + rest).subrange(0, b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
}
pub proof fn lemma_rd_var32(b: Seq<u8>, rest: Seq<u8>)
    requires b.len() <= u32::MAX
    ensures rd_var(enc_be(b.len(), 4) + b + rest, 4) == Some((b, rest))
{
    lemma_pow256();
    assert(enc_be(b.len(), 4) + b + rest =~= enc_be(b.len(), 4) + (b + rest));
    lemma_rd(b.len(), 4, b + rest);
    assert((b + rest).subrange(0, b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
}
pub proof fn lemma_enc_var(c8: u8, c32: u8, b: Seq<u8>, rest: Seq<u8>)
    requires b.len() <= u32::MAX
    ensures
        enc_var(c8, c32, b).len() >= 1,
        b.len() <= 255 ==> enc_var(c8, c32, b)[0] == c8 && rd_var((enc_var(c8, c32, b) + rest).skip(1), 1) == Some((b, rest)),
        b.len() > 255 ==> enc_var(c8, c32, b)[0] == c32 && rd_var((enc_var(c8, c32, b) + rest).skip(1), 4) == Some((b, rest)),
{
    if b.len() <= 255 {
        assert((enc_var(c8, c32, b) + rest).skip(1) =~= seq![b.len() as u8] + b + rest);
        lemma_rd_var8(b, rest);
    } else {
        lemma_enc_be_len(b.len(), 4);
        assert((enc_var(c8, c32, b) + rest).skip(1) =~= enc_be(b.len(), 4) + b + rest);
        lemma_rd_var32(b, rest);
    }
}
pub open spec fn mapr<T>(o: Option<(nat, Seq<u8>)>, f: spec_fn(nat) -> T) -> Option<(T, Seq<u8>)> {
    match o { Some((n, r)) => Some((f(n), r)), None => None }
}

#[verifier::external_body]
pub fn __panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn __debug_assert(b: bool) requires b { }
