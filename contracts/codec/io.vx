pub mod m_io {
use super::*;
verus! {
//@props C05
//@item codec/src/error.rs AmqpCodecError
/// std Cell; `&self` methods that write it take `&mut self` here (rewrite "cell")
pub struct Cell<T> { pub v: T }
impl<T: Copy> Cell<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Cell<T>) ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: T) ensures r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, v: T) ensures final(self).v == v { unimplemented!() }
}
/// Decoding a frame is a function of its bytes (assumed: Decode::decode reads nothing but its argument)
pub trait DetDecode: Sized {
    spec fn det(s: Seq<u8>) -> Result<(Self, Seq<u8>), AmqpParseError>;
    /// shown for AmqpFrame and SaslFrame by lemma_short_*
    proof fn short(s: Seq<u8>) requires s.len() < 4 ensures Self::det(s) is Err;
    fn decode(input: &mut Bytes) -> (r: Result<Self, AmqpParseError>)
        ensures match Self::det(old(input)@) { Ok((v, rest)) => r == Ok::<Self, AmqpParseError>(v) && final(input)@ == rest, Err(e) => r == Err::<Self, AmqpParseError>(e) };
}
impl vstd::std_specs::convert::FromSpecImpl<AmqpParseError> for AmqpCodecError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AmqpParseError) -> Self { AmqpCodecError::ParseError(e) }
}
/// `#[from]` of thiserror
impl From<AmqpParseError> for AmqpCodecError {
    fn from(e: AmqpParseError) -> (r: Self) { AmqpCodecError::ParseError(e) }
}
use std::marker::PhantomData;
//@item codec/src/io.rs DecodeState derive="Clone, Copy"
//@item codec/src/io.rs AmqpCodec keepbounds=none

pub enum Ev<T> { Item(T, Seq<u8>), Wait, Fail(AmqpCodecError) }
/// The first event of a stream (specification level): s starts at a frame boundary
pub open spec fn next<T: DetDecode>(max: usize, s: Seq<u8>) -> Ev<T> {
    if s.len() < 8 { Ev::Wait } else {
        let size = be(s.subrange(0, 4));
        if max != 0 && size > max { Ev::Fail(AmqpCodecError::MaxSizeExceeded) }
        else if size <= 4 { Ev::Fail(AmqpCodecError::InvalidFrameSize) }
        else if s.len() < size { Ev::Wait }
        else { match T::det(s.subrange(4, size as int)) {
            Err(e) => Ev::Fail(AmqpCodecError::ParseError(e)),
            Ok((v, rest)) => if rest.len() == 0 { Ev::Item(v, s.skip(size as int)) } else { Ev::Fail(AmqpCodecError::UnparsedBytesLeft) },
        } }
    }
}
impl<T> AmqpCodec<T> {
    /// the stream from the last frame boundary on: the size field may have been taken out of the buffer already
    pub open spec fn stream(&self, buf: Seq<u8>) -> Seq<u8> {
        match self.state.v { DecodeState::FrameHeader => buf, DecodeState::Frame(n) => enc_be((n + 4) as nat, 4) + buf }
    }
    pub open spec fn inv(&self, buf: Seq<u8>) -> bool {
        match self.state.v { DecodeState::FrameHeader => true, DecodeState::Frame(n) => 1 <= n && n + 4 <= u32::MAX && buf.len() >= 4 && (self.max_size != 0 ==> n + 4 <= self.max_size) }
    }
}
pub proof fn lemma_next_frame<T: DetDecode>(c: AmqpCodec<T>, buf: Seq<u8>)
    requires c.inv(buf), c.state.v is Frame
    ensures
        be(c.stream(buf).subrange(0, 4)) == c.state.v->0 + 4,
        c.stream(buf).len() == buf.len() + 4,
        buf.len() >= c.state.v->0 ==> c.stream(buf).subrange(4, c.state.v->0 + 4) == buf.subrange(0, c.state.v->0 as int) && c.stream(buf).skip(c.state.v->0 + 4) == buf.skip(c.state.v->0 as int),
{
    let n = c.state.v->0;
    lemma_pow256(); lemma_be_enc((n + 4) as nat, 4); lemma_enc_be_len((n + 4) as nat, 4);
    assert(c.stream(buf).subrange(0, 4) =~= enc_be((n + 4) as nat, 4));
    if buf.len() >= n { assert(c.stream(buf).subrange(4, n + 4) =~= buf.subrange(0, n as int)); assert(c.stream(buf).skip(n + 4) =~= buf.skip(n as int)); }
}
pub proof fn lemma_size_field(buf: Seq<u8>)
    requires buf.len() >= 4
    ensures enc_be(be(buf.subrange(0, 4)), 4) + buf.skip(4) == buf, be(buf.subrange(0, 4)) <= u32::MAX
{
    lemma_enc_be_be(buf.subrange(0, 4)); lemma_be_bound(buf.subrange(0, 4)); lemma_pow256();
    assert(buf.subrange(0, 4) + buf.skip(4) =~= buf);
}
//@impl codec/src/io.rs "AmqpCodec<T>" header="impl<T> AmqpCodec<T>"
//@method new
    ensures r.max_size == 0, r.state.v is FrameHeader
//@method max_size
    ensures r.max_size == size, r.state == self.state
//@method set_max_size
    ensures final(self).max_size == size, final(self).state == old(self).state
//@end
//@impl codec/src/io.rs "Decoder for AmqpCodec<T>" header="impl<T: DetDecode> AmqpCodec<T>" inherent cellmut trydesugar
//@method decode
    requires old(self).inv(old(src)@)
    ensures
        final(self).max_size == old(self).max_size,
        match next::<T>(old(self).max_size, old(self).stream(old(src)@)) {
            Ev::Item(v, rest) => r == Ok::<Option<T>, AmqpCodecError>(Some(v)) && final(self).stream(final(src)@) == rest && final(self).inv(final(src)@),
            Ev::Wait => r == Ok::<Option<T>, AmqpCodecError>(None) && final(self).stream(final(src)@) == old(self).stream(old(src)@) && final(self).inv(final(src)@),
            Ev::Fail(e) => r == Err::<Option<T>, AmqpCodecError>(e),
        },
//@loop 0
    invariant
        self.max_size == old(self).max_size,
        self.inv(src@),
        self.stream(src@) == old(self).stream(old(src)@),
    decreases (if self.state.v is FrameHeader { 1int } else { 0int })
//@loopstart 0
    proof { if self.state.v is Frame { lemma_next_frame(*self, src@); } if src@.len() >= 4 { lemma_size_field(src@); } }
//@end
// ---- what follows for whole streams
pub open spec fn run<T: DetDecode>(max: usize, s: Seq<u8>) -> (Seq<T>, Option<AmqpCodecError>, Seq<u8>) decreases s.len() {
    match next::<T>(max, s) {
        Ev::Item(v, rest) => if rest.len() < s.len() { let x = run::<T>(max, rest); (seq![v] + x.0, x.1, x.2) } else { (seq![v], None, rest) },
        Ev::Wait => (Seq::empty(), None, s),
        Ev::Fail(e) => (Seq::empty(), Some(e), s),
    }
}
/// more bytes never change an event that happened
pub proof fn lemma_next_more<T: DetDecode>(max: usize, s: Seq<u8>, t: Seq<u8>)
    ensures match next::<T>(max, s) {
        Ev::Item(v, rest) => next::<T>(max, s + t) == Ev::Item(v, rest + t) && rest.len() + 4 < s.len(),
        Ev::Fail(e) => next::<T>(max, s + t) == Ev::<T>::Fail(e),
        Ev::Wait => true,
    }
{
    if s.len() >= 8 {
        assert((s + t).subrange(0, 4) =~= s.subrange(0, 4));
        let size = be(s.subrange(0, 4));
        if 4 < size && s.len() >= size {
            assert((s + t).subrange(4, size as int) =~= s.subrange(4, size as int));
            assert((s + t).skip(size as int) =~= s.skip(size as int) + t);
        }
    }
}
/// C05: reading the first part to its end and going on with the rest is the same as reading everything
pub proof fn lemma_chunk<T: DetDecode>(max: usize, s: Seq<u8>, t: Seq<u8>)
    ensures ({
        let a = run::<T>(max, s);
        let ab = run::<T>(max, s + t);
        let b = run::<T>(max, a.2 + t);
        if a.1 is Some { ab.0 == a.0 && ab.1 == a.1 } else { ab.0 == a.0 + b.0 && ab.1 == b.1 && ab.2 == b.2 }
    })
    decreases s.len()
{
    lemma_next_more::<T>(max, s, t);
    match next::<T>(max, s) {
        Ev::Item(v, rest) => {
            lemma_chunk::<T>(max, rest, t);
            let a = run::<T>(max, rest); let b = run::<T>(max, a.2 + t);
            if a.1 is None { assert(seq![v] + (a.0 + b.0) =~= (seq![v] + a.0) + b.0); }
        }
        Ev::Wait => { assert(Seq::<T>::empty() + run::<T>(max, s + t).0 =~= run::<T>(max, s + t).0); }
        Ev::Fail(e) => { }
    }
}
pub open spec fn cat(c: Seq<Seq<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { cat(c.drop_last()) + c.last() } }
/// feeding chunk after chunk until an error
pub open spec fn feed<T: DetDecode>(max: usize, c: Seq<Seq<u8>>) -> (Seq<T>, Option<AmqpCodecError>, Seq<u8>) decreases c.len() {
    if c.len() == 0 { (Seq::empty(), None, Seq::empty()) } else {
        let a = feed::<T>(max, c.drop_last());
        if a.1 is Some { a } else { let b = run::<T>(max, a.2 + c.last()); (a.0 + b.0, b.1, b.2) }
    }
}
/// C05: for every way of cutting a stream: same frames, same first error, same unread bytes
pub proof fn theorem_chunks<T: DetDecode>(max: usize, c: Seq<Seq<u8>>)
    ensures feed::<T>(max, c).0 == run::<T>(max, cat(c)).0, feed::<T>(max, c).1 == run::<T>(max, cat(c)).1,
        feed::<T>(max, c).1 is None ==> feed::<T>(max, c).2 == run::<T>(max, cat(c)).2
    decreases c.len()
{
    if c.len() > 0 { theorem_chunks::<T>(max, c.drop_last()); lemma_chunk::<T>(max, cat(c.drop_last()), c.last()); }
}
/// C05: a frame that announces less than its header or more than the maximum fails on the first eight bytes
pub proof fn theorem_bad_size<T: DetDecode>(max: usize, s: Seq<u8>)
    requires s.len() >= 8, be(s.subrange(0, 4)) < 8 || max != 0 && be(s.subrange(0, 4)) > max
    ensures next::<T>(max, s) is Fail
{ let n = be(s.subrange(0, 4)); if 4 < n < 8 { T::short(s.subrange(4, n as int)); } }
/// ... and so does one announced in an incomplete stream the decoder has looked at before
//@impl codec/src/io.rs "Encoder for AmqpCodec<T>" header="impl<T: Encode> AmqpCodec<T>" inherent
//@method encode
    requires item.enc().len() <= u32::MAX
    ensures r is Ok, final(dst)@ == old(dst)@ + item.enc()
//@end
} // verus!
}
pub use m_io::*;
pub mod m_protoid {
use super::*;
verus! {
//@props C08
pub fn slice_eq_<A: AsSeq + ?Sized, B: AsSeq + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.seq() == b.seq()) { slice_eq_x(a, b) }
#[verifier::external_body]
fn slice_eq_x<A: AsSeq + ?Sized, B: AsSeq + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.seq() == b.seq()) { unimplemented!() }
//@constfn PROTOCOL_HEADER_PREFIX PROTOCOL_VERSION
//@item codec/src/protocol/mod.rs ProtocolId
//@item codec/src/error.rs ProtocolIdError
//@item codec/src/io.rs PROTOCOL_HEADER_LEN
//@item codec/src/io.rs PROTOCOL_HEADER_PREFIX constfn="-> (r: StaticStr) ensures r@ =~= seq![0x41u8, 0x4d, 0x51, 0x50]" hint="litf!{AMQP};"
//@item codec/src/io.rs PROTOCOL_VERSION constfn="-> (r: [u8; 3]) ensures r@ =~= seq![1u8, 0, 0]"
//@item codec/src/io.rs ProtocolIdCodec
/// "AMQP", id, 1, 0, 0
pub open spec fn ph(id: u8) -> Seq<u8> { seq![0x41u8, 0x4d, 0x51, 0x50, id, 1, 0, 0] }
pub open spec fn pid(id: ProtocolId) -> u8 { match id { ProtocolId::Amqp => 0, ProtocolId::AmqpTls => 2, ProtocolId::AmqpSasl => 3 } }
pub proof fn lemma_ph(g: Seq<u8>)
    requires g.len() == 8
    ensures forall|i: u8| (g == #[trigger] ph(i)) <==> (g.subrange(0, 4) == seq![0x41u8, 0x4d, 0x51, 0x50] && g[4] == i && g.subrange(5, 8) == seq![1u8, 0, 0])
{
    assert forall|i: u8| (g == #[trigger] ph(i)) <==> (g.subrange(0, 4) == seq![0x41u8, 0x4d, 0x51, 0x50] && g[4] == i && g.subrange(5, 8) == seq![1u8, 0, 0]) by {
        if g == ph(i) { assert(g.subrange(0, 4) =~= seq![0x41u8, 0x4d, 0x51, 0x50]); assert(g.subrange(5, 8) =~= seq![1u8, 0, 0]); }
        if g.subrange(0, 4) == seq![0x41u8, 0x4d, 0x51, 0x50] && g[4] == i && g.subrange(5, 8) == seq![1u8, 0, 0] {
            let a = g.subrange(0, 4); let b = g.subrange(5, 8);
            assert(a[0] == g[0] && a[1] == g[1] && a[2] == g[2] && a[3] == g[3] && b[0] == g[5] && b[1] == g[6] && b[2] == g[7]);
            assert(g =~= ph(i));
        }
    }
}
//@impl codec/src/io.rs "Decoder for ProtocolIdCodec" inherent
//@method decode
    ensures
        old(src)@.len() < 8 ==> r == Ok::<Option<ProtocolId>, ProtocolIdError>(None) && final(src)@ == old(src)@,
        old(src)@.len() >= 8 ==> {
            &&& final(src)@ == old(src)@.skip(8)
            &&& match r {
                Ok(Some(id)) => old(src)@.subrange(0, 8) == ph(pid(id)),
                Ok(None) => false,
                Err(_) => forall|id: ProtocolId| old(src)@.subrange(0, 8) != ph(#[trigger] pid(id)),
            }
        },
//@start
    proof { if src@.len() >= 8 { lemma_ph(src@.subrange(0, 8)); } }
//@end
//@impl codec/src/io.rs "Encoder for ProtocolIdCodec" inherent
//@method encode
    ensures r is Ok, final(dst)@ == old(dst)@ + ph(pid(item))
//@end
} // verus!
}
pub use m_protoid::*;
