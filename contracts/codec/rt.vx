// ===================================================================================
// Round trip: decoding an encoded value gives the value back and consumes exactly its encoding
// ===================================================================================
//@props C01
pub open spec fn rt<T: RoundTrip>(v: T, rest: Seq<u8>) -> bool { v.enc().len() >= 1 && T::sdec((v.enc() + rest).skip(1), v.enc()[0]) == Some((v, rest)) }
pub proof fn lemma_head(c: u8, b: Seq<u8>, rest: Seq<u8>)
    ensures (seq![c] + b)[0] == c, ((seq![c] + b) + rest).skip(1) == b + rest, (seq![c] + b).len() == 1 + b.len()
{
    assert(((seq![c] + b) + rest).skip(1) =~= b + rest);
}
pub proof fn lemma_two(c: u8, x: u8, rest: Seq<u8>)
    ensures (seq![c, x])[0] == c, (seq![c, x] + rest).skip(1) == seq![x] + rest, (seq![x] + rest).subrange(0, 1) == seq![x], (seq![x] + rest).skip(1) == rest
{
    assert((seq![c, x] + rest).skip(1) =~= seq![x] + rest);
    assert((seq![x] + rest).subrange(0, 1) =~= seq![x]);
    assert((seq![x] + rest).skip(1) =~= rest);
}
pub proof fn lemma_one(c: u8, rest: Seq<u8>)
    ensures (seq![c] + rest).skip(1) == rest
{
    assert((seq![c] + rest).skip(1) =~= rest);
}
impl ArrayRoundTrip for bool {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x56 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_one(v.aenc()[0], rest); assert(v.aenc() =~= seq![v.aenc()[0]]); }
}
impl RoundTrip for bool {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_one(v.enc()[0], rest); assert(v.enc() =~= seq![v.enc()[0]]); }
}
impl ArrayRoundTrip for u8 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x50 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(v as nat, 1, rest);  }
}
impl ArrayRoundTrip for u16 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x60 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(v as nat, 2, rest);  }
}
impl ArrayRoundTrip for u32 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x70 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(v as nat, 4, rest);  }
}
impl ArrayRoundTrip for u64 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x80 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(v as nat, 8, rest);  }
}
impl ArrayRoundTrip for i8 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x51 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(tw(v as int, 0x100), 1, rest);  }
}
impl ArrayRoundTrip for i16 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x61 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(tw(v as int, 0x1_0000), 2, rest);  }
}
impl ArrayRoundTrip for i32 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x71 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(tw(v as int, 0x1_0000_0000), 4, rest);  }
}
impl ArrayRoundTrip for i64 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x81 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(tw(v as int, 0x1_0000_0000_0000_0000), 8, rest);  }
}
impl ArrayRoundTrip for f32 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x72 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); axiom_f32(v); lemma_rd(f32_bits(v), 4, rest);  }
}
impl ArrayRoundTrip for f64 {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x82 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); axiom_f64(v); lemma_rd(f64_bits(v), 8, rest);  }
}
impl ArrayRoundTrip for char {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x73 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); axiom_char(v); lemma_rd(v as u32 as nat, 4, rest);  }
}
impl ArrayRoundTrip for DateTime<Utc> {
    closed spec fn awf(&self) -> bool { dt_wf(*self) }
    open spec fn acode() -> u8 { 0x83 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_pow256(); lemma_rd(tw(dt_ms(v), 0x1_0000_0000_0000_0000), 8, rest);  }
}
impl ArrayRoundTrip for Uuid {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0x98 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { assert((v.aenc() + rest).subrange(0, 16) =~= v.aenc()); assert((v.aenc() + rest).skip(16) =~= rest); }
}
impl RoundTrip for u8 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for u16 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for i8 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for i16 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for f32 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for f64 {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for char {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for DateTime<Utc> {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for Uuid {
    closed spec fn wf(&self) -> bool { self.awf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { Self::ctor_is_code(); Self::aroundtrip(v, rest); lemma_head(Self::code(), v.aenc(), rest); }
}
impl RoundTrip for u32 {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { if v == 0 { lemma_one(v.enc()[0], rest); } else if v < 256 { lemma_two(v.enc()[0], v as u8, rest); } else { Self::aroundtrip(v, rest); lemma_head(v.enc()[0], v.aenc(), rest); } }
}
impl RoundTrip for u64 {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { if v == 0 { lemma_one(v.enc()[0], rest); } else if v < 256 { lemma_two(v.enc()[0], v as u8, rest); } else { Self::aroundtrip(v, rest); lemma_head(v.enc()[0], v.aenc(), rest); } }
}
impl RoundTrip for i32 {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { if -128 <= v <= 127 { lemma_two(v.enc()[0], tw(v as int, 0x100) as u8, rest); } else { Self::aroundtrip(v, rest); lemma_head(v.enc()[0], v.aenc(), rest); } }
}
impl RoundTrip for i64 {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { if -128 <= v <= 127 { lemma_two(v.enc()[0], tw(v as int, 0x100) as u8, rest); } else { Self::aroundtrip(v, rest); lemma_head(v.enc()[0], v.aenc(), rest); } }
}
impl RoundTrip for Bytes {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_enc_var(0xa0, 0xb0, v.seq(), rest); assert(v.seq().len() <= v.enc().len()) by { lemma_enc_be_len(v.seq().len(), 4); } }
}
impl RoundTrip for ByteString {
    closed spec fn wf(&self) -> bool { is_utf8(self@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_enc_var(0xa1, 0xb1, v.seq(), rest); assert(v.seq().len() <= v.enc().len()) by { lemma_enc_be_len(v.seq().len(), 4); } }
}
impl RoundTrip for Str {
    closed spec fn wf(&self) -> bool { is_utf8(self.0@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_enc_var(0xa1, 0xb1, v.0.seq(), rest); assert(v.0.seq().len() <= v.enc().len()) by { lemma_enc_be_len(v.0.seq().len(), 4); } }
}
impl RoundTrip for Symbol {
    closed spec fn wf(&self) -> bool { is_utf8(self.0.0@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_enc_var(0xa3, 0xb3, v.0.0.seq(), rest); assert(v.0.0.seq().len() <= v.enc().len()) by { lemma_enc_be_len(v.0.0.seq().len(), 4); } }
}
impl ArrayRoundTrip for Bytes {
    open spec fn awf(&self) -> bool { true }
    open spec fn acode() -> u8 { 0xb0 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_enc_be_len(v.seq().len(), 4); lemma_rd_var32(v.seq(), rest); }
}
impl ArrayRoundTrip for ByteString {
    closed spec fn awf(&self) -> bool { is_utf8(self@) }
    open spec fn acode() -> u8 { 0xb1 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_enc_be_len(v.seq().len(), 4); lemma_rd_var32(v.seq(), rest); }
}
impl ArrayRoundTrip for Symbol {
    closed spec fn awf(&self) -> bool { is_utf8(self.0.0@) }
    open spec fn acode() -> u8 { 0xb3 }
    proof fn ctor_code_() { }
    proof fn aroundtrip(v: Self, rest: Seq<u8>) { lemma_enc_be_len(v.0.0.seq().len(), 4); lemma_rd_var32(v.0.0.seq(), rest); }
}

pub open spec fn dt_wf(t: DateTime<Utc>) -> bool { t.ns@ % 1_000_000 == 0 && dt_in_range(t.ns@ / 1_000_000_000) }
pub open spec fn desc_wf(d: Descriptor) -> bool { match d { Descriptor::Ulong(_) => true, Descriptor::Symbol(s) => s.wf() } }
pub proof fn lemma_desc(d: Descriptor, rest: Seq<u8>)
    requires desc_wf(d), d.enc().len() <= u32::MAX
    ensures d.enc().len() >= 2, d.enc()[0] == 0, (d.enc() + rest).skip(1).len() >= 1, Descriptor::dec((d.enc() + rest).skip(1)) == Some((d, rest))
{
    match d {
        Descriptor::Ulong(v) => { u64::roundtrip(v, rest); lemma_head(0, v.enc(), rest); assert((v.enc() + rest)[0] == v.enc()[0]); }
        Descriptor::Symbol(v) => { Symbol::roundtrip(v, rest); lemma_head(0, v.enc(), rest); assert((v.enc() + rest)[0] == v.enc()[0]); assert(v.enc()[0] == 0xa3 || v.enc()[0] == 0xb3); }
    }
}
/// array constructor
pub open spec fn ctor_wf(c: Constructor) -> bool { match c { Constructor::FormatCode(x) => x != 0, Constructor::Described { descriptor, format_code } => desc_wf(descriptor) } }
pub proof fn lemma_ctor(c: Constructor, rest: Seq<u8>)
    requires ctor_wf(c), c.enc().len() <= u32::MAX
    ensures c.enc().len() >= 1, Constructor::dec(c.enc() + rest) == Some((c, rest))
{
    match c {
        Constructor::FormatCode(x) => { lemma_one(x, rest); }
        Constructor::Described { descriptor, format_code } => {
            lemma_desc(descriptor, seq![format_code] + rest);
            assert((c.enc() + rest) =~= descriptor.enc() + (seq![format_code] + rest));
            lemma_one(format_code, rest);
        }
    }
}
/// compound header
pub proof fn lemma_hdr(c8: u8, c32: u8, n: int, c: Seq<u8>, rest: Seq<u8>, arr: bool)
    requires c.len() + 4 <= u32::MAX, 0 <= n <= u32::MAX, c8 != c32, !arr ==> n <= c.len()
    ensures ({
        let e = if arr { enc_arr(n, c) } else { enc_comp(c8, c32, n, c) };
        let (d8, d32) = if arr { (0xe0u8, 0xf0u8) } else { (c8, c32) };
        e.len() >= 1 && (e[0] == d8 || e[0] == d32) && hdr((e + rest).skip(1), e[0], d8, d32) == Some(((c.len() as u32, n as u32), c + rest))
    })
{
    lemma_pow256();
    let e = if arr { enc_arr(n, c) } else { enc_comp(c8, c32, n, c) };
    let t = (e + rest).skip(1);
    if c.len() + 1 > 255 || (arr && n > 255) {
        lemma_rd((c.len() + 4) as nat, 4, enc_be(n as nat, 4) + (c + rest));
        lemma_rd(n as nat, 4, c + rest);
        assert(t =~= enc_be((c.len() + 4) as nat, 4) + (enc_be(n as nat, 4) + (c + rest)));
        assert(t.subrange(4, 8) =~= (enc_be(n as nat, 4) + (c + rest)).subrange(0, 4));
        assert(t.skip(8) =~= c + rest);
    } else {
        assert(t =~= seq![(c.len() + 1) as u8] + (seq![n as u8] + (c + rest)));
        assert(t.skip(2) =~= c + rest);
    }
}
// ---- Variant
pub open spec fn vwf(v: Variant, d: nat) -> bool decreases v {
    match v {
        Variant::Timestamp(t) => dt_wf(t),
        Variant::String(s) => s.wf(),
        Variant::Symbol(s) => s.wf(),
        Variant::List(l) => d >= 1 && vswf(l.0@, l.0@.len(), (d - 1) as nat),
        Variant::Map(m) => d >= 1 && nodup(m.map@) && vkvswf(m.map@, m.map@.len(), (d - 1) as nat),
        Variant::Array(a) => ctor_wf(a.element_constructor),
        // canonical form: a described compound or array is a DescribedCompound
        Variant::Described(x) => d >= 1 && desc_wf(x.0) && vwf(*x.1, (d - 1) as nat) && !(*x.1 is List || *x.1 is Map || *x.1 is Array),
        Variant::DescribedCompound(x) => desc_wf(x.descriptor) && compound_wf(x.data@),
        _ => true,
    }
}
pub open spec fn vswf(s: Seq<Variant>, n: nat, d: nat) -> bool decreases s, n { if n == 0 || n > s.len() { true } else { vswf(s, (n - 1) as nat, d) && vwf(s[n - 1], d) } }
pub open spec fn vkvswf(s: Seq<(Variant, Variant)>, n: nat, d: nat) -> bool decreases s, n { if n == 0 || n > s.len() { true } else { vkvswf(s, (n - 1) as nat, d) && vwf(s[n - 1].0, d) && vwf(s[n - 1].1, d) } }
/// one list, map or array, whose size field is the number of bytes that follow
pub open spec fn compound_wf(b: Seq<u8>) -> bool {
    b.len() >= 1 && {
        let c = b[0];
        if c == 0x45 { b.len() == 1 }
        else if c == 0xc0 || c == 0xc1 || c == 0xe0 { b.len() >= 2 && b.len() == 2 + b[1] }
        else if c == 0xd0 || c == 0xd1 || c == 0xf0 { b.len() >= 5 && b.len() == 5 + be(b.subrange(1, 5)) }
        else { false }
    }
}
pub open spec fn vrt(v: Variant, d: nat, rest: Seq<u8>) -> bool { venc(v).len() >= 1 && vdec((venc(v) + rest).skip(1), venc(v)[0], d) == Some((v, rest)) }
pub proof fn lemma_comp_len(c8: u8, c32: u8, n: int, c: Seq<u8>)
    ensures enc_comp(c8, c32, n, c).len() == c.len() + if c.len() + 1 > 255 { 9int } else { 3int }
{
}
pub proof fn vencs_len(s: Seq<Variant>, n: nat)
    requires n <= s.len()
    ensures vencs(s, n).len() >= n
    decreases n
{
    if n > 0 { vencs_len(s, (n - 1) as nat); venc_len(s[n - 1]); }
}
pub proof fn vkvs_len(s: Seq<(Variant, Variant)>, n: nat)
    requires n <= s.len()
    ensures vkvs(s, n).len() >= 2 * n
    decreases n
{
    if n > 0 { vkvs_len(s, (n - 1) as nat); venc_len(s[n - 1].0); venc_len(s[n - 1].1); }
}
pub proof fn venc_len(v: Variant)
    ensures venc(v).len() >= 1
{
}
pub proof fn lemma_vrt_prim(v: Variant, d: nat, rest: Seq<u8>)
    requires vwf(v, d), venc(v).len() <= u32::MAX, !(v is List || v is Map || v is Array || v is Described || v is DescribedCompound)
    ensures vrt(v, d, rest)
{
    match v {
        Variant::Null => { lemma_one(0x40, rest); }
        Variant::Boolean(x) => { bool::roundtrip(x, rest); }
        Variant::Ubyte(x) => { u8::roundtrip(x, rest); }
        Variant::Ushort(x) => { u16::roundtrip(x, rest); }
        Variant::Uint(x) => { u32::roundtrip(x, rest); }
        Variant::Ulong(x) => { u64::roundtrip(x, rest); }
        Variant::Byte(x) => { i8::roundtrip(x, rest); }
        Variant::Short(x) => { i16::roundtrip(x, rest); }
        Variant::Int(x) => { i32::roundtrip(x, rest); }
        Variant::Long(x) => { i64::roundtrip(x, rest); }
        Variant::Float(x) => { f32::roundtrip(x.0, rest); }
        Variant::Double(x) => { f64::roundtrip(x.0, rest); }
        Variant::Decimal32(x) => { lemma_head(0x74, x@, rest); assert((x@ + rest).subrange(0, 4) =~= x@); assert((x@ + rest).skip(4) =~= rest); lemma_arr_of(x@ + rest); }
        Variant::Decimal64(x) => { lemma_head(0x84, x@, rest); assert((x@ + rest).subrange(0, 8) =~= x@); assert((x@ + rest).skip(8) =~= rest); lemma_arr_of(x@ + rest); }
        Variant::Decimal128(x) => { lemma_head(0x94, x@, rest); assert((x@ + rest).subrange(0, 16) =~= x@); assert((x@ + rest).skip(16) =~= rest); lemma_arr_of(x@ + rest); }
        Variant::Char(x) => { char::roundtrip(x, rest); }
        Variant::Timestamp(x) => { DateTime::<Utc>::roundtrip(x, rest); }
        Variant::Uuid(x) => { Uuid::roundtrip(x, rest); }
        Variant::Binary(x) => { Bytes::roundtrip(x, rest); }
        Variant::String(x) => { Str::roundtrip(x, rest); }
        Variant::Symbol(x) => { Symbol::roundtrip(x, rest); }
        _ => { }
    }
}
pub proof fn lemma_vrt_list(l: List, d: nat, rest: Seq<u8>)
    requires d >= 1, list_enc(l).len() <= u32::MAX,
        vdecs(vencs(l.0@, l.0@.len()) + rest, l.0@.len(), (d - 1) as nat) == Some((l.0@, rest)),
    ensures vrt(Variant::List(l), d, rest)
{
    let c = vencs(l.0@, l.0@.len());
    lemma_comp_len(0xc0, 0xd0, l.0@.len() as int, c);
    vencs_len(l.0@, l.0@.len());
    lemma_hdr(0xc0, 0xd0, l.0@.len() as int, c, rest, false);
}
pub proof fn lemma_vdec_map(s: Seq<u8>, fmt: u8, d: nat, m: VariantMap, rest: Seq<u8>)
    requires fmt == 0xc1 || fmt == 0xd1, vdec_map(s, fmt, d) == Some((m, rest))
    ensures vdec(s, fmt, d) == Some((Variant::Map(m), rest))
{
}
pub proof fn lemma_vrt_map(m: VariantMap, d: nat, rest: Seq<u8>)
    requires d >= 1, vmap_enc(m.map@).len() <= u32::MAX, nodup(m.map@),
        vkvdecs(vkvs(m.map@, m.map@.len()) + Seq::empty(), m.map@.len(), (d - 1) as nat) == Some((m.map@, Seq::<u8>::empty())),
    ensures vrt(Variant::Map(m), d, rest)
{
    hide(nodup); 
    let s = m.map@; let c = vkvs(s, s.len());
    lemma_comp_len(0xc1, 0xd1, (2 * s.len()) as int, c);
    vkvs_len(s, s.len());
    lemma_hdr(0xc1, 0xd1, (2 * s.len()) as int, c, rest, false);
    assert((c + rest).subrange(0, c.len() as int) =~= c + Seq::empty());
    assert((c + rest).skip(c.len() as int) =~= rest);
    let e = venc(Variant::Map(m));
    assert(e == enc_comp(0xc1, 0xd1, (2 * s.len()) as int, c));
    let t = (e + rest).skip(1); let fmt = e[0];
    assert(((2 * s.len()) as u32) / 2 == s.len() && ((2 * s.len()) as u32) % 2 == 0);
    assert(vdec_map(t, fmt, d) == Some((m, rest)));
    lemma_vdec_map(t, fmt, d, m, rest);
}
pub proof fn lemma_vrt_desc(x: (Descriptor, Box<Variant>), d: nat, rest: Seq<u8>)
    requires d >= 1, desc_wf(x.0), vrt(*x.1, (d - 1) as nat, rest), !(*x.1 is List || *x.1 is Map || *x.1 is Array), venc(Variant::Described(x)).len() <= u32::MAX
    ensures vrt(Variant::Described(x), d, rest)
{
    let v = Variant::Described(x);
    venc_len(*x.1);
    lemma_desc(x.0, venc(*x.1) + rest);
    assert(venc(v) + rest =~= x.0.enc() + (venc(*x.1) + rest));
    assert((venc(*x.1) + rest)[0] == venc(*x.1)[0]);
    lemma_venc_head(*x.1);
    assert(Variant::Described((x.0, Box::new(*x.1))) == v);
}
pub proof fn lemma_vrt_dc(x: DescribedCompound, d: nat, rest: Seq<u8>)
    requires desc_wf(x.descriptor), compound_wf(x.data@), venc(Variant::DescribedCompound(x)).len() <= u32::MAX
    ensures vrt(Variant::DescribedCompound(x), d, rest)
{
    let v = Variant::DescribedCompound(x);
    let b = x.data@;
    lemma_desc(x.descriptor, b + rest);
    assert(venc(v) + rest =~= x.descriptor.enc() + (b + rest));
    assert((b + rest).subrange(0, b.len() as int) =~= b);
    assert((b + rest).skip(b.len() as int) =~= rest);
    assert(b.len() >= 5 ==> (b + rest).subrange(1, 5) =~= b.subrange(1, 5));
    if b[0] == 0x45 { assert(b =~= seq![0x45u8]); }
}
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lemma_vrt(v: Variant, d: nat, rest: Seq<u8>)
    requires vwf(v, d), venc(v).len() <= u32::MAX
    ensures vrt(v, d, rest)
    decreases v, 1nat
{
    match v {
        Variant::List(l) => {
            lemma_comp_len(0xc0, 0xd0, l.0@.len() as int, vencs(l.0@, l.0@.len()));
            lemma_vrts(l.0@, l.0@.len(), (d - 1) as nat, rest);
            assert(l.0@.take(l.0@.len() as int) =~= l.0@);
            lemma_vrt_list(l, d, rest);
        }
        Variant::Map(m) => {
            lemma_comp_len(0xc1, 0xd1, (2 * m.map@.len()) as int, vkvs(m.map@, m.map@.len()));
            lemma_vkvrts(m.map@, m.map@.len(), (d - 1) as nat, Seq::empty());
            assert(m.map@.take(m.map@.len() as int) =~= m.map@);
            lemma_vrt_map(m, d, rest);
        }
        Variant::Array(a) => { lemma_array_rt(a, rest); }
        Variant::Described(x) => { lemma_vrt(*x.1, (d - 1) as nat, rest); lemma_vrt_desc(x, d, rest); }
        Variant::DescribedCompound(x) => { lemma_vrt_dc(x, d, rest); }
        _ => { lemma_vrt_prim(v, d, rest); }
    }
}
pub proof fn lemma_vkv_step(s: Seq<u8>, n: nat, d: nat, pre: Seq<(Variant, Variant)>, r: Seq<u8>, k: Variant, r3: Seq<u8>, v: Variant, rest: Seq<u8>)
    requires n > 0, vkvdecs(s, (n - 1) as nat, d) == Some((pre, r)), r.len() >= 1, vdec(r.skip(1), r[0], d) == Some((k, r3)), r3.len() >= 1, vdec(r3.skip(1), r3[0], d) == Some((v, rest))
    ensures vkvdecs(s, n, d) == Some((pre.push((k, v)), rest))
{
}
pub proof fn lemma_venc_head(v: Variant)
    requires !(v is List || v is Map || v is Array)
    ensures ({ let c = venc(v)[0]; c != 0x45 && c != 0xc0 && c != 0xc1 && c != 0xe0 && c != 0xd0 && c != 0xd1 && c != 0xf0 })
{
}
pub proof fn lemma_array_rt(a: Array, rest: Seq<u8>)
    requires ctor_wf(a.element_constructor), array_enc(a).len() <= u32::MAX
    ensures array_enc(a).len() >= 1, array_enc(a)[0] == 0xe0 || array_enc(a)[0] == 0xf0, Array::sdec((array_enc(a) + rest).skip(1), array_enc(a)[0]) == Some((a, rest))
{
    let c = a.element_constructor.enc() + a.payload.seq();
    lemma_hdr(0, 1, a.count as int, c, rest, true);
    lemma_ctor(a.element_constructor, a.payload@);
    assert((c + rest).subrange(0, c.len() as int) =~= c);
    assert((c + rest).skip(c.len() as int) =~= rest);
}
pub proof fn lemma_vrts(s: Seq<Variant>, n: nat, d: nat, rest: Seq<u8>)
    requires n <= s.len(), vswf(s, n, d), vencs(s, n).len() <= u32::MAX
    ensures vdecs(vencs(s, n) + rest, n, d) == Some((s.take(n as int), rest))
    decreases s, n
{
    if n == 0 { assert(vencs(s, 0) + rest =~= rest); assert(s.take(0) =~= Seq::empty()); } else {
        let x = s[n - 1];
        lemma_vrts(s, (n - 1) as nat, d, venc(x) + rest);
        lemma_vrt(x, d, rest);
        assert((venc(x) + rest)[0] == venc(x)[0]);
        assert(s.take(n - 1).push(x) =~= s.take(n as int));
    }
}
pub proof fn lemma_vkv_step2(s: Seq<(Variant, Variant)>, n: nat, d: nat, rest: Seq<u8>)
    requires 0 < n <= s.len(),
        vkvdecs(vkvs(s, (n - 1) as nat) + (venc(s[n - 1].0) + (venc(s[n - 1].1) + rest)), (n - 1) as nat, d) == Some((s.take(n - 1), venc(s[n - 1].0) + (venc(s[n - 1].1) + rest))),
        vrt(s[n - 1].0, d, venc(s[n - 1].1) + rest), vrt(s[n - 1].1, d, rest),
    ensures vkvdecs(vkvs(s, n) + rest, n, d) == Some((s.take(n as int), rest))
{
    let x = s[n - 1];
    assert((venc(x.0) + (venc(x.1) + rest))[0] == venc(x.0)[0]);
    assert((venc(x.1) + rest)[0] == venc(x.1)[0]);
    assert(s.take(n - 1).push(x) =~= s.take(n as int));
    assert(vkvs(s, n) == vkvs(s, (n - 1) as nat) + (venc(x.0) + venc(x.1)));
    lemma_vkv_step(vkvs(s, n) + rest, n, d, s.take(n - 1), venc(x.0) + (venc(x.1) + rest), x.0, venc(x.1) + rest, x.1, rest);
}
pub proof fn lemma_vkvrts(s: Seq<(Variant, Variant)>, n: nat, d: nat, rest: Seq<u8>)
    requires n <= s.len(), vkvswf(s, n, d), vkvs(s, n).len() <= u32::MAX
    ensures vkvdecs(vkvs(s, n) + rest, n, d) == Some((s.take(n as int), rest))
    decreases s, n
{
    hide(vrt);
    if n == 0 { assert(vkvs(s, 0) + rest =~= rest); assert(s.take(0) =~= Seq::empty()); } else {
        let x = s[n - 1];
        lemma_vkvrts(s, (n - 1) as nat, d, venc(x.0) + (venc(x.1) + rest));
        lemma_vrt(x.0, d, venc(x.1) + rest);
        lemma_vrt(x.1, d, rest);
        lemma_vkv_step2(s, n, d, rest);
    }
}
impl RoundTrip for Variant {
    closed spec fn wf(&self) -> bool { vwf(*self, 64) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_vrt(v, 64, rest); }
}
impl RoundTrip for List {
    closed spec fn wf(&self) -> bool { vwf(Variant::List(*self), 64) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_vrt(Variant::List(v), 64, rest); }
}
impl Array { pub open spec fn wf(&self) -> bool { ctor_wf(self.element_constructor) } }
impl RoundTrip for Array {
    closed spec fn wf(&self) -> bool { ctor_wf(self.element_constructor) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_array_rt(v, rest); }
}
// ---- generic containers
pub open spec fn kvwf<K: RoundTrip, V: RoundTrip>(s: Seq<(K, V)>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].0.wf() && s[i].1.wf() }
pub proof fn lemma_kvrts<K: RoundTrip, V: RoundTrip>(s: Seq<(K, V)>, n: nat, rest: Seq<u8>)
    requires n <= s.len(), kvwf(s), kvencs(s, n).len() <= u32::MAX
    ensures pdecs::<K, V>(kvencs(s, n) + rest, n) == Some((s.take(n as int), rest)), kvencs(s, n).len() >= 2 * n
    decreases n
{
    if n == 0 { assert(kvencs(s, 0) + rest =~= rest); assert(s.take(0) =~= Seq::empty()); } else {
        let x = s[n - 1];
        lemma_kvrts(s, (n - 1) as nat, x.0.enc() + (x.1.enc() + rest));
        assert(x.0.wf() && x.1.wf());
        K::roundtrip(x.0, x.1.enc() + rest);
        V::roundtrip(x.1, rest);
        assert((x.0.enc() + (x.1.enc() + rest))[0] == x.0.enc()[0]);
        assert((x.1.enc() + rest)[0] == x.1.enc()[0]);
        assert(s.take(n - 1).push(x) =~= s.take(n as int));
    }
}
pub proof fn lemma_map_rt<K: RoundTrip, V: RoundTrip>(s: Seq<(K, V)>, rest: Seq<u8>)
    requires kvwf(s), map_enc(s).len() <= u32::MAX
    ensures map_enc(s).len() >= 1, map_enc(s)[0] != 0x40, map_enc(s)[0] != 0, mdec::<K, V>((map_enc(s) + rest).skip(1), map_enc(s)[0]) == Some((s, rest))
{
    let c = kvencs(s, s.len());
    lemma_comp_len(0xc1, 0xd1, (2 * s.len()) as int, c);
    lemma_kvrts(s, s.len(), Seq::empty());
    lemma_hdr(0xc1, 0xd1, (2 * s.len()) as int, c, rest, false);
    assert(s.take(s.len() as int) =~= s);
    assert((c + rest).subrange(0, c.len() as int) =~= c + Seq::empty());
    assert((c + rest).skip(c.len() as int) =~= rest);
}
impl<K: RoundTrip, V: RoundTrip> RoundTrip for HashMap<K, V> {
    closed spec fn wf(&self) -> bool { kvwf(self@) && nodup(self@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_map_rt(v@, rest); }
}
impl RoundTrip for VecSymbolMap {
    closed spec fn wf(&self) -> bool { kvwf(self.0@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_map_rt(v.0@, rest); }
}
impl RoundTrip for VecStringMap {
    closed spec fn wf(&self) -> bool { kvwf(self.0@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_map_rt(v.0@, rest); }
}
pub open spec fn aswf<T: ArrayRoundTrip>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].awf() }
pub proof fn lemma_arts<T: ArrayRoundTrip>(s: Seq<T>, n: nat, rest: Seq<u8>)
    requires n <= s.len(), aswf(s), aencs(s, n).len() <= u32::MAX
    ensures fdecs::<T>(aencs(s, n) + rest, T::acode(), n) == Some((s.take(n as int), rest)), aencs(s, n).len() >= n
    decreases n
{
    if n == 0 { assert(aencs(s, 0) + rest =~= rest); assert(s.take(0) =~= Seq::empty()); } else {
        let x = s[n - 1];
        lemma_arts(s, (n - 1) as nat, x.aenc() + rest);
        assert(x.awf());
        T::aroundtrip(x, rest);
        assert(s.take(n - 1).push(x) =~= s.take(n as int));
    }
}
pub proof fn lemma_vec_rt<T: ArrayRoundTrip>(s: Seq<T>, rest: Seq<u8>)
    requires aswf(s), vec_enc(s).len() <= u32::MAX
    ensures vec_enc(s).len() >= 1, vec_enc(s)[0] == 0xe0 || vec_enc(s)[0] == 0xf0, adec::<T>((vec_enc(s) + rest).skip(1), vec_enc(s)[0]) == Some((s, rest))
{
    T::ctor_code_();
    let e = aencs(s, s.len());
    let c = T::actor().enc() + e;
    lemma_comp_len(0xe0, 0xf0, s.len() as int, c);
    lemma_arts(s, s.len(), rest);
    lemma_hdr(0xe0, 0xf0, s.len() as int, c, rest, false);
    lemma_ctor(T::actor(), e + rest);
    assert(s.take(s.len() as int) =~= s);
    assert(c + rest =~= T::actor().enc() + (e + rest));
}
impl<T: ArrayRoundTrip> RoundTrip for Vec<T> {
    closed spec fn wf(&self) -> bool { aswf(self@) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_vec_rt(v@, rest); }
}
/// types that can be elements of `Multiple`: their encoding does not look like an array or null
pub trait Single: RoundTrip {
    proof fn single(v: Self) requires v.wf() ensures v.enc().len() >= 1, v.enc()[0] != 0xe0, v.enc()[0] != 0xf0, v.enc()[0] != 0;
}
impl Single for Symbol { proof fn single(v: Self) { lemma_enc_be_len(v.0.0.seq().len(), 4); } }
impl<T: Single + ArrayRoundTrip> RoundTrip for Multiple<T> {
    closed spec fn wf(&self) -> bool { aswf(self.0@) && forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] self.0@[i].wf() }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        if v.0@.len() == 1 { assert(v.0@[0].wf()); T::single(v.0@[0]); T::roundtrip(v.0@[0], rest); assert(v.0@ =~= seq![v.0@[0]]); }
        else { lemma_vec_rt(v.0@, rest); }
    }
}
impl<T: RoundTrip> RoundTrip for Option<T> {
    closed spec fn wf(&self) -> bool { match *self { Some(v) => v.wf() && v.enc()[0] != 0x40, None => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { match v { Some(x) => { T::roundtrip(x, rest); } None => { lemma_one(0x40, rest); } } }
}
/// a described value created from `v` decodes to `v`
pub proof fn lemma_described<T: RoundTrip>(x: DescribedCompound, v: T)
    requires v.wf(), v.enc().len() <= u32::MAX, x.data@ == v.enc()
    ensures T::dec(x.data@) == Some((v, Seq::<u8>::empty()))
{
    T::roundtrip(v, Seq::empty());
    assert(v.enc() + Seq::empty() =~= v.enc());
}
/// an Array built from values decodes to these values
pub proof fn lemma_array_values<T: ArrayRoundTrip>(a: Array, s: Seq<T>)
    requires aswf(s), a.count == s.len(), a.element_constructor == T::actor(), a.payload@ == aencs(s, s.len()), a.payload@.len() <= u32::MAX
    ensures fdecs::<T>(a.payload@, ctor_code(a.element_constructor), a.count as nat) == Some((s, Seq::<u8>::empty()))
{
    T::ctor_code_();
    lemma_arts(s, s.len(), Seq::empty());
    assert(a.payload@ + Seq::empty() =~= a.payload@);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_bytes_enc(x: Bytes)
    ensures x.enc() == enc_var(0xa0, 0xb0, x@)
{ }
