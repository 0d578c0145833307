// ===================================================================================
// Variant, List, Map, Array: types and specification
// ===================================================================================
//@item codec/src/types/mod.rs Multiple
//@item codec/src/types/mod.rs List
//@item codec/src/types/array.rs Array
//@item codec/src/types/variant.rs Variant
//@item codec/src/types/variant.rs DescribedCompound
//@item codec/src/types/variant.rs VariantMap
//@item codec/src/types/variant.rs VecSymbolMap
//@item codec/src/types/variant.rs VecStringMap

/// compound encoding: 8 bit form if size (including the count field) fits one byte
pub open spec fn enc_comp(c8: u8, c32: u8, n: int, c: Seq<u8>) -> Seq<u8> {
    if c.len() + 1 > 255 { seq![c32] + (enc_be((c.len() + 4) as nat, 4) + (enc_be(n as u32 as nat, 4) + c)) }
    else { seq![c8] + (seq![(c.len() + 1) as u8] + (seq![n as u8] + c)) }
}
/// header of a list appended to b
pub open spec fn comp_hdr(b: Seq<u8>, n: int, l: nat) -> Seq<u8> {
    if l + 1 > 255 { b + seq![0xd0u8] + enc_be((l + 4) as nat, 4) + enc_be(n as u32 as nat, 4) } else { b + seq![0xc0u8] + seq![(l + 1) as u8] + seq![n as u8] }
}
pub proof fn lemma_comp_hdr(b: Seq<u8>, n: int, c: Seq<u8>)
    ensures comp_hdr(b, n, c.len()) + c == b + enc_comp(0xc0, 0xd0, n, c)
{ assert(comp_hdr(b, n, c.len()) + c =~= b + enc_comp(0xc0, 0xd0, n, c)); }
/// arrays also need the 32 bit form for more than 255 items
pub open spec fn enc_arr(n: int, c: Seq<u8>) -> Seq<u8> {
    if c.len() + 1 > 255 || n > 255 { seq![0xf0u8] + (enc_be((c.len() + 4) as nat, 4) + (enc_be(n as u32 as nat, 4) + c)) }
    else { seq![0xe0u8] + (seq![(c.len() + 1) as u8] + (seq![n as u8] + c)) }
}
pub closed spec fn array_enc(a: Array) -> Seq<u8> {
    enc_arr(a.count as int, a.element_constructor.enc() + a.payload.seq())
}
pub closed spec fn venc(v: Variant) -> Seq<u8> decreases v {
    match v {
        Variant::Null => seq![0x40u8],
        Variant::Boolean(b) => b.enc(),
        Variant::Ubyte(x) => x.enc(),
        Variant::Ushort(x) => x.enc(),
        Variant::Uint(x) => x.enc(),
        Variant::Ulong(x) => x.enc(),
        Variant::Byte(x) => x.enc(),
        Variant::Short(x) => x.enc(),
        Variant::Int(x) => x.enc(),
        Variant::Long(x) => x.enc(),
        Variant::Float(x) => x.0.enc(),
        Variant::Double(x) => x.0.enc(),
        Variant::Decimal32(d) => seq![0x74u8] + d@,
        Variant::Decimal64(d) => seq![0x84u8] + d@,
        Variant::Decimal128(d) => seq![0x94u8] + d@,
        Variant::Char(c) => c.enc(),
        Variant::Timestamp(t) => t.enc(),
        Variant::Uuid(u) => u.enc(),
        Variant::Binary(b) => b.enc(),
        Variant::String(s) => s.enc(),
        Variant::Symbol(s) => s.enc(),
        Variant::List(l) => enc_comp(0xc0, 0xd0, l.0@.len() as int, vencs(l.0@, l.0@.len())),
        Variant::Map(m) => enc_comp(0xc1, 0xd1, (2 * m.map@.len()) as int, vkvs(m.map@, m.map@.len())),
        Variant::Array(a) => array_enc(a),
        Variant::Described(d) => d.0.enc() + venc(*d.1),
        Variant::DescribedCompound(d) => d.descriptor.enc() + d.data.seq(),
    }
}
pub closed spec fn vencs(s: Seq<Variant>, n: nat) -> Seq<u8> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { vencs(s, (n - 1) as nat) + venc(s[n - 1]) }
}
pub closed spec fn vkvs(s: Seq<(Variant, Variant)>, n: nat) -> Seq<u8> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { vkvs(s, (n - 1) as nat) + (venc(s[n - 1].0) + venc(s[n - 1].1)) }
}
pub closed spec fn list_enc(l: List) -> Seq<u8> { enc_comp(0xc0, 0xd0, l.0@.len() as int, vencs(l.0@, l.0@.len())) }
pub closed spec fn vmap_enc(m: Seq<(Variant, Variant)>) -> Seq<u8> { enc_comp(0xc1, 0xd1, (2 * m.len()) as int, vkvs(m, m.len())) }

/// key value pairs, generic
pub open spec fn kvencs<K: Encode, V: Encode>(s: Seq<(K, V)>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > s.len() { Seq::empty() } else { kvencs(s, (n - 1) as nat) + (s[n - 1].0.enc() + s[n - 1].1.enc()) }
}
pub open spec fn aencs<T: ArrayEncode>(s: Seq<T>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > s.len() { Seq::empty() } else { aencs(s, (n - 1) as nat) + s[n - 1].aenc() }
}
pub proof fn vencs_mono(s: Seq<Variant>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures vencs(s, k).len() <= vencs(s, n).len()
    decreases n
{
    if k < n { vencs_mono(s, k, (n - 1) as nat); }
}
pub proof fn vkvs_mono(s: Seq<(Variant, Variant)>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures vkvs(s, k).len() <= vkvs(s, n).len()
    decreases n
{
    if k < n { vkvs_mono(s, k, (n - 1) as nat); }
}
pub proof fn kvencs_mono<K: Encode, V: Encode>(s: Seq<(K, V)>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures kvencs(s, k).len() <= kvencs(s, n).len()
    decreases n
{
    if k < n { kvencs_mono(s, k, (n - 1) as nat); }
}
pub proof fn aencs_mono<T: ArrayEncode>(s: Seq<T>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures aencs(s, k).len() <= aencs(s, n).len()
    decreases n
{
    if k < n { aencs_mono(s, k, (n - 1) as nat); }
}
pub proof fn kvencs_v(s: Seq<(Variant, Variant)>, n: nat)
    ensures kvencs(s, n) == vkvs(s, n)
    decreases n
{
    if n > 0 { kvencs_v(s, (n - 1) as nat); }
}

//@props C01 C02 C03
//@impl codec/src/types/mod.rs List
//@method len
    ensures r == self.0@.len()
//@method iter as=iter_
    ensures r@ == self.0@
//@end
//@impl codec/src/types/mod.rs "Multiple<T>"
//@method len
    ensures r == self.0@.len()
//@end
//@impl codec/src/types/array.rs Array
//@method is_array32
    requires self.payload@.len() + ctor_len < 0xffff_ffff_ffff
    ensures r == (self.payload@.len() + ctor_len + 1 > 255 || self.count > 255)
//@end
//@impl codec/src/types/array.rs "Encode for Array" hint="let _ = self.enc().len();"
    open spec fn enc(&self) -> Seq<u8> { array_enc(*self) }
//@end
//@impl codec/src/types/variant.rs "Encode for DescribedCompound" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { self.descriptor.enc() + self.data.seq() }
//@end

// ---- the recursive knot, as inherent methods
//@fn codec/src/codec/encode.rs map_encoded_size as=map_encoded_size_v dropgeneric=S $K=Variant $V=Variant
    requires vkvs(map@, map@.len()).len() <= u32::MAX
    ensures r == vkvs(map@, map@.len()).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == map@,
        vkvs(map@, map@.len()).len() <= u32::MAX,
        __acc0 == vkvs(map@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { vkvs_mono(map@, (__k0 + 1) as nat, map@.len()); let _ = vkvs(map@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for HashMap<K,V,S>" header="impl HashMap<Variant, Variant>" inherent $map_encoded_size=map_encoded_size_v key="Encode for HashMap<Variant,Variant>"
//@method encoded_size
    requires vmap_enc(self@).len() <= u32::MAX
    ensures r == vmap_enc(self@).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@method encode
    requires vmap_enc(self@).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + vmap_enc(self@)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@preloop 0
    let ghost __b = buf@;
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self@,
        vkvs(self@, self@.len()).len() <= u32::MAX,
        buf@ == __b + vkvs(self@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { vkvs_mono(self@, (__k0 + 1) as nat, self@.len()); let _ = vkvs(self@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for List" inherent header="impl List"
//@method encoded_size
    requires list_enc(*self).len() <= u32::MAX
    ensures r == list_enc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        vencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == vencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { vencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = vencs(self.0@, (__k0 + 1) as nat).len(); }
//@method encode
    requires list_enc(*self).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + list_enc(*self)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        vencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == vencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { vencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = vencs(self.0@, (__k0 + 1) as nat).len(); }
//@preloop 1
    let ghost __b = buf@;
//@loop 1
    invariant
        __k1 <= __it1@.len(), __it1@ == self.0@,
        vencs(self.0@, self.0@.len()).len() <= u32::MAX,
        buf@ == __b + vencs(self.0@, __k1 as nat),
    decreases __it1@.len() - __k1
//@loopstart 1
    proof { vencs_mono(self.0@, (__k1 + 1) as nat, self.0@.len()); let _ = vencs(self.0@, (__k1 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for Variant" inherent header="impl Variant" hint="let _ = venc(*self).len();"
//@method encoded_size
    requires venc(*self).len() <= u32::MAX
    ensures r == venc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@method encode
    requires venc(*self).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + venc(*self)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@end
// trait implementations of the knot: delegation only (same bodies as above)
impl Encode for Variant {
    open spec fn enc(&self) -> Seq<u8> { venc(*self) }
    fn encoded_size(&self) -> usize { Variant::encoded_size(self) }
    fn encode(&self, buf: &mut BytesMut) { Variant::encode(self, buf) }
}
impl Encode for List {
    open spec fn enc(&self) -> Seq<u8> { list_enc(*self) }
    fn encoded_size(&self) -> usize { List::encoded_size(self) }
    fn encode(&self, buf: &mut BytesMut) { List::encode(self, buf) }
}
