// ===================================================================================
// Generic containers: decoding
// ===================================================================================
//@props C01 C02 C04
//@impl codec/src/codec/decode.rs "DecodeFormatted for Variant"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> { vdec(s, fmt, 64) }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { vrej(s, fmt, 64) }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for List"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> { if fmt == 0x45 { Some((List(Vec { s: Ghost(Seq::empty()) }), s)) } else { vdec_list(s, fmt, 64) } }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { fmt != 0x45 && hdr(s, fmt, 0xc0, 0xd0) is None }
//@end
pub open spec fn mdec<K: Decode, V: Decode>(s: Seq<u8>, fmt: u8) -> Option<(Seq<(K, V)>, Seq<u8>)> {
    match hdr(s, fmt, 0xc1, 0xd1) {
        Some(((size, count), r)) => if r.len() < size || count % 2 != 0 { None } else {
            match pdecs::<K, V>(r.subrange(0, size as int), (count / 2) as nat) {
                Some((items, r2)) => if r2.len() == 0 { Some((items, r.skip(size as int))) } else { None },
                None => None,
            }
        },
        None => None,
    }
}
pub open spec fn mrej(s: Seq<u8>, fmt: u8) -> bool { hdr(s, fmt, 0xc1, 0xd1) is None || hdr(s, fmt, 0xc1, 0xd1).unwrap().1.len() < hdr(s, fmt, 0xc1, 0xd1).unwrap().0.0 }
pub open spec fn adec<T: DecodeFormatted>(s: Seq<u8>, fmt: u8) -> Option<(Seq<T>, Seq<u8>)> {
    match hdr(s, fmt, 0xe0, 0xf0) {
        Some(((size, count), r)) => if r.len() < size { None } else {
            match Constructor::dec(r) {
                Some((Constructor::FormatCode(c), p)) => match fdecs::<T>(p, c, count as nat) {
                    Some((items, r2)) => if r.len() - r2.len() == size { Some((items, r2)) } else { None },
                    None => None,
                },
                _ => None,
            }
        },
        None => None,
    }
}
pub open spec fn arej(s: Seq<u8>, fmt: u8) -> bool { hdr(s, fmt, 0xe0, 0xf0) is None || hdr(s, fmt, 0xe0, 0xf0).unwrap().1.len() < hdr(s, fmt, 0xe0, 0xf0).unwrap().0.0 }
/// keys of a well formed map are new when they are inserted
pub proof fn pkv_key<K: Decode, V: Decode>(s: Seq<u8>, k: nat, n: nat)
    requires k < n, pdecs::<K, V>(s, n) is Some, nodup(pdecs::<K, V>(s, n).unwrap().0)
    ensures pdecs::<K, V>(s, k) is Some, pdecs::<K, V>(s, k + 1) is Some, pdecs::<K, V>(s, k + 1).unwrap().0.len() == k + 1,
        !has_key(pdecs::<K, V>(s, k).unwrap().0, pdecs::<K, V>(s, k + 1).unwrap().0[k as int].0)
{
    pdecs_mono::<K, V>(s, k + 1, n);
    pdecs_mono::<K, V>(s, k, n);
    let all = pdecs::<K, V>(s, n).unwrap().0; let pre = pdecs::<K, V>(s, k).unwrap().0; let key = pdecs::<K, V>(s, k + 1).unwrap().0[k as int].0;
    assert(key == all[k as int].0);
    assert forall|i: int| 0 <= i < pre.len() implies !keq(#[trigger] pre[i].0, key) by { assert(pre[i] == all[i]); assert(!keq(all[i].0, all[k as int].0)); }
}
//@impl codec/src/codec/decode.rs "DecodeFormatted for collections::HashMap<K,V,S>" dropgeneric=S allocbound="old(input).n_()"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match mdec::<K, V>(s, fmt) { Some((items, r)) => if nodup(items) { Some((HashMap { s: Ghost(items) }, r)) } else { None }, None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { mrej(s, fmt) }
//@method decode_with_format
//@attrs
#[verifier::loop_isolation(false)]
//@start
    hide(nodup); hide(has_key);
//@preloop 0
    let ghost __s = map_input@;
    proof { if pdecs::<K, V>(__s, count as nat) is Some { pdecs_mono::<K, V>(__s, count as nat, count as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == count,
        suffix(map_input@, __s),
        pdecs::<K, V>(__s, count as nat) is Some && nodup(pdecs::<K, V>(__s, count as nat).unwrap().0)
            ==> pdecs::<K, V>(__s, __k0 as nat) == Some((map@, map_input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if pdecs::<K, V>(__s, count as nat) is Some && nodup(pdecs::<K, V>(__s, count as nat).unwrap().0) { pkv_key::<K, V>(__s, __k0 as nat, count as nat); } }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Vec<T>" allocbound="old(input).n_()"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match adec::<T>(s, fmt) { Some((items, r)) => Some((Vec { s: Ghost(items) }, r)), None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { arej(s, fmt) }
//@method decode_with_format
//@attrs
#[verifier::loop_isolation(false)]
//@preloop 0
    let ghost __s = input@;
    proof { if fdecs::<T>(__s, elem_fmt, header.count as nat) is Some { fdecs_mono::<T>(__s, elem_fmt, header.count as nat, header.count as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == header.count,
        suffix(input@, old(input)@),
        fdecs::<T>(__s, elem_fmt, header.count as nat) is Some ==> fdecs::<T>(__s, elem_fmt, __k0 as nat) == Some((result@, input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if fdecs::<T>(__s, elem_fmt, header.count as nat) is Some { fdecs_mono::<T>(__s, elem_fmt, (__k0 + 1) as nat, header.count as nat); } }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for VecSymbolMap" allocbound="old(input).n_()"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match mdec::<Symbol, Variant>(s, fmt) { Some((items, r)) => Some((VecSymbolMap(Vec { s: Ghost(items) }), r)), None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { mrej(s, fmt) }
//@method decode_with_format
//@attrs
#[verifier::loop_isolation(false)]
//@preloop 0
    let ghost __s = map_input@;
    proof { if pdecs::<Symbol, Variant>(__s, count as nat) is Some { pdecs_mono::<Symbol, Variant>(__s, count as nat, count as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == count,
        suffix(map_input@, __s),
        pdecs::<Symbol, Variant>(__s, count as nat) is Some ==> pdecs::<Symbol, Variant>(__s, __k0 as nat) == Some((map@, map_input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if pdecs::<Symbol, Variant>(__s, count as nat) is Some { pdecs_mono::<Symbol, Variant>(__s, (__k0 + 1) as nat, count as nat); } }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for VecStringMap" allocbound="old(input).n_()"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match mdec::<Str, Variant>(s, fmt) { Some((items, r)) => Some((VecStringMap(Vec { s: Ghost(items) }), r)), None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { mrej(s, fmt) }
//@method decode_with_format
//@attrs
#[verifier::loop_isolation(false)]
//@preloop 0
    let ghost __s = map_input@;
    proof { if pdecs::<Str, Variant>(__s, count as nat) is Some { pdecs_mono::<Str, Variant>(__s, count as nat, count as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == count,
        suffix(map_input@, __s),
        pdecs::<Str, Variant>(__s, count as nat) is Some ==> pdecs::<Str, Variant>(__s, __k0 as nat) == Some((map@, map_input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if pdecs::<Str, Variant>(__s, count as nat) is Some { pdecs_mono::<Str, Variant>(__s, (__k0 + 1) as nat, count as nat); } }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Multiple<T>"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0xe0 || fmt == 0xf0 { match Vec::<T>::sdec(s, fmt) { Some((items, r)) => Some((Multiple(items), r)), None => None } }
        else if fmt == 0 { None }
        else { match T::sdec(s, fmt) { Some((item, r)) => Some((Multiple(Vec { s: Ghost(seq![item]) }), r)), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        if fmt == 0xe0 || fmt == 0xf0 { arej(s, fmt) } else if fmt == 0 { true } else { T::srej(s, fmt) }
    }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Option<T>"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x40 { Some((None, s)) } else { match T::sdec(s, fmt) { Some((v, r)) => Some((Some(v), r)), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { T::srej(s, fmt) && fmt != 0x40 }
//@end
//@impl codec/src/types/array.rs Array
//@method decode allocbound="self.payload.n_()"
    ensures
        match fdecs::<T>(self.payload@, ctor_code(self.element_constructor), self.count as nat) {
            Some((items, rest)) => r matches Ok(v) && v@ == items,
            None => true,
        },
//@attrs
#[verifier::loop_isolation(false)]
//@preloop 0
    let ghost __s = buf@; let ghost __c = ctor_code(self.element_constructor);
    proof { if fdecs::<T>(__s, __c, self.count as nat) is Some { fdecs_mono::<T>(__s, __c, self.count as nat, self.count as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == self.count,
        suffix(buf@, __s),
        fdecs::<T>(__s, __c, self.count as nat) is Some ==> fdecs::<T>(__s, __c, __k0 as nat) == Some((result@, buf@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if fdecs::<T>(__s, __c, self.count as nat) is Some { fdecs_mono::<T>(__s, __c, (__k0 + 1) as nat, self.count as nat); } }
//@end
//@impl codec/src/types/variant.rs DescribedCompound
//@method create
    requires value.enc().len() <= u32::MAX
    ensures r.descriptor == descriptor, r.data@ == value.enc()
//@method decode
    ensures
        match T::dec(self.data@) { Some((v, rest)) => if rest.len() == 0 { r == Ok::<T, AmqpParseError>(v) } else { r is Err }, None => T::drej(self.data@) ==> r is Err },
//@end
