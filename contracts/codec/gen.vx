// ===================================================================================
// Generic containers: encoding
// ===================================================================================
//@props C01 C02 C03
// Deref of the newtypes (derive / hand written Deref impls of the repository)
impl VecSymbolMap { fn len(&self) -> (r: usize) ensures r == self.0@.len(), r <= 0x7fff_ffff_ffff_ffff { self.0.len() } fn iter_(&self) -> (r: &Vec<(Symbol, Variant)>) ensures r@ == self.0@ { self.0.iter_() } }
impl VecStringMap { fn len(&self) -> (r: usize) ensures r == self.0@.len(), r <= 0x7fff_ffff_ffff_ffff { self.0.len() } fn iter_(&self) -> (r: &Vec<(Str, Variant)>) ensures r@ == self.0@ { self.0.iter_() } }
pub open spec fn map_enc<K: Encode, V: Encode>(m: Seq<(K, V)>) -> Seq<u8> { enc_comp(0xc1, 0xd1, (2 * m.len()) as int, kvencs(m, m.len())) }

//@fn codec/src/codec/encode.rs map_encoded_size dropgeneric=S
    requires kvencs(map@, map@.len()).len() <= u32::MAX
    ensures r == kvencs(map@, map@.len()).len()
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == map@,
        kvencs(map@, map@.len()).len() <= u32::MAX,
        __acc0 == kvencs(map@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(map@, (__k0 + 1) as nat, map@.len()); let _ = kvencs(map@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for HashMap<K,V,S>" dropgeneric=S hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { map_enc(self@) }
//@method encoded_size
//@method encode
//@preloop 0
    let ghost __b = buf@;
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self@,
        kvencs(self@, self@.len()).len() <= u32::MAX,
        buf@ == __b + kvencs(self@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self@, (__k0 + 1) as nat, self@.len()); let _ = kvencs(self@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for HashMap<K,V>" hint="let _ = self.aenc().len();"
    open spec fn actor() -> Constructor { Constructor::FormatCode(0xd1) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be((kvencs(self@, self@.len()).len() + 4) as nat, 4) + (enc_be((2 * self@.len()) as u32 as nat, 4) + kvencs(self@, self@.len())) }
//@method array_encoded_size
//@method array_encode
//@preloop 0
    let ghost __b = buf@;
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self@,
        kvencs(self@, self@.len()).len() <= u32::MAX,
        buf@ == __b + kvencs(self@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self@, (__k0 + 1) as nat, self@.len()); let _ = kvencs(self@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for VecSymbolMap" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { map_enc(self.0@) }
//@method encoded_size
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == kvencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k0 + 1) as nat).len(); }
//@method encode
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == kvencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k0 + 1) as nat).len(); }
//@preloop 1
    let ghost __b = buf@;
//@loop 1
    invariant
        __k1 <= __it1@.len(), __it1@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        buf@ == __b + kvencs(self.0@, __k1 as nat),
    decreases __it1@.len() - __k1
//@loopstart 1
    proof { kvencs_mono(self.0@, (__k1 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k1 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for VecStringMap" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { map_enc(self.0@) }
//@method encoded_size
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == kvencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k0 + 1) as nat).len(); }
//@method encode
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        __acc0 == kvencs(self.0@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { kvencs_mono(self.0@, (__k0 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k0 + 1) as nat).len(); }
//@preloop 1
    let ghost __b = buf@;
//@loop 1
    invariant
        __k1 <= __it1@.len(), __it1@ == self.0@,
        kvencs(self.0@, self.0@.len()).len() <= u32::MAX,
        buf@ == __b + kvencs(self.0@, __k1 as nat),
    decreases __it1@.len() - __k1
//@loopstart 1
    proof { kvencs_mono(self.0@, (__k1 + 1) as nat, self.0@.len()); let _ = kvencs(self.0@, (__k1 + 1) as nat).len(); }
//@end
//@fn codec/src/codec/encode.rs array_encoded_size $&[T]=&Vec<T>
    requires aencs(vec@, vec@.len()).len() <= u32::MAX
    ensures r == aencs(vec@, vec@.len()).len()
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == vec@,
        aencs(vec@, vec@.len()).len() <= u32::MAX,
        __acc0 == aencs(vec@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { aencs_mono(vec@, (__k0 + 1) as nat, vec@.len()); let _ = aencs(vec@, (__k0 + 1) as nat).len(); }
//@end
pub open spec fn vec_enc<T: ArrayEncode>(s: Seq<T>) -> Seq<u8> { enc_comp(0xe0, 0xf0, s.len() as int, T::actor().enc() + aencs(s, s.len())) }
//@impl codec/src/codec/encode.rs "Encode for Vec<T>" hint="let _ = self.enc().len(); let _ = T::actor().enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { vec_enc(self@) }
//@method encoded_size
//@method encode
//@preloop 0
    let ghost __b = buf@;
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self@,
        aencs(self@, self@.len()).len() <= u32::MAX,
        buf@ == __b + aencs(self@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { aencs_mono(self@, (__k0 + 1) as nat, self@.len()); let _ = aencs(self@, (__k0 + 1) as nat).len(); }
//@end
//@impl codec/src/codec/encode.rs "Encode for Multiple<T>" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { if self.0@.len() == 1 { self.0@[0].enc() } else { vec_enc(self.0@) } }
//@end
//@impl codec/src/codec/encode.rs "Encode for Option<T>" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> { match *self { Some(v) => v.enc(), None => seq![0x40u8] } }
//@end

//@impl codec/src/types/array.rs Array
//@method new $I=&Vec<T> dropgeneric=I,'a addbound=ArrayEncode
    requires iter@.len() <= u32::MAX, aencs(iter@, iter@.len()).len() <= u32::MAX
    ensures r.count == iter@.len(), r.element_constructor == T::actor(), r.payload@ == aencs(iter@, iter@.len())
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == iter@, iter@.len() <= u32::MAX,
        aencs(iter@, iter@.len()).len() <= u32::MAX,
        len == __k0,
        buf@ == aencs(iter@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { aencs_mono(iter@, (__k0 + 1) as nat, iter@.len()); let _ = aencs(iter@, (__k0 + 1) as nat).len(); }
//@end

