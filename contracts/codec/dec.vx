// ===================================================================================
// Decoding of Variant, lists, maps, arrays
// ===================================================================================
//@props C01 C02 C04
/// n items, every one with its constructor
pub open spec fn pdecs<K: Decode, V: Decode>(s: Seq<u8>, n: nat) -> Option<(Seq<(K, V)>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match pdecs::<K, V>(s, (n - 1) as nat) {
            Some((items, r)) => match K::dec(r) {
                Some((k, r2)) => match V::dec(r2) { Some((v, r3)) => Some((items.push((k, v)), r3)), None => None },
                None => None,
            },
            None => None,
        }
    }
}
/// n items with a common format code
pub open spec fn fdecs<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, n: nat) -> Option<(Seq<T>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match fdecs::<T>(s, fmt, (n - 1) as nat) {
            Some((items, r)) => match T::sdec(r, fmt) { Some((v, r2)) => Some((items.push(v), r2)), None => None },
            None => None,
        }
    }
}
pub proof fn pdecs_mono<K: Decode, V: Decode>(s: Seq<u8>, k: nat, n: nat)
    requires k <= n, pdecs::<K, V>(s, n) is Some
    ensures pdecs::<K, V>(s, k) is Some, forall|i: int| 0 <= i < pdecs::<K, V>(s, k).unwrap().0.len() ==> #[trigger] pdecs::<K, V>(s, k).unwrap().0[i] == pdecs::<K, V>(s, n).unwrap().0[i],
        pdecs::<K, V>(s, k).unwrap().0.len() == k, pdecs::<K, V>(s, n).unwrap().0.len() == n,
    decreases n
{
    if k < n { pdecs_mono::<K, V>(s, k, (n - 1) as nat); }
    if n > 0 { pdecs_mono::<K, V>(s, (n - 1) as nat, (n - 1) as nat); }
}
pub proof fn fdecs_mono<T: DecodeFormatted>(s: Seq<u8>, fmt: u8, k: nat, n: nat)
    requires k <= n, fdecs::<T>(s, fmt, n) is Some
    ensures fdecs::<T>(s, fmt, k) is Some
    decreases n
{
    if k < n { fdecs_mono::<T>(s, fmt, k, (n - 1) as nat); }
}
pub open spec fn vdec(s: Seq<u8>, fmt: u8, d: nat) -> Option<(Variant, Seq<u8>)> decreases d, 0nat {
    if fmt == 0x40 { Some((Variant::Null, s)) }
    else if fmt == 0x56 || fmt == 0x41 || fmt == 0x42 { match bool::sdec(s, fmt) { Some((v, r)) => Some((Variant::Boolean(v), r)), None => None } }
    else if fmt == 0x50 { match u8::sdec(s, fmt) { Some((v, r)) => Some((Variant::Ubyte(v), r)), None => None } }
    else if fmt == 0x60 { match u16::sdec(s, fmt) { Some((v, r)) => Some((Variant::Ushort(v), r)), None => None } }
    else if fmt == 0x70 || fmt == 0x52 || fmt == 0x43 { match u32::sdec(s, fmt) { Some((v, r)) => Some((Variant::Uint(v), r)), None => None } }
    else if fmt == 0x80 || fmt == 0x53 || fmt == 0x44 { match u64::sdec(s, fmt) { Some((v, r)) => Some((Variant::Ulong(v), r)), None => None } }
    else if fmt == 0x51 { match i8::sdec(s, fmt) { Some((v, r)) => Some((Variant::Byte(v), r)), None => None } }
    else if fmt == 0x61 { match i16::sdec(s, fmt) { Some((v, r)) => Some((Variant::Short(v), r)), None => None } }
    else if fmt == 0x71 || fmt == 0x54 { match i32::sdec(s, fmt) { Some((v, r)) => Some((Variant::Int(v), r)), None => None } }
    else if fmt == 0x81 || fmt == 0x55 { match i64::sdec(s, fmt) { Some((v, r)) => Some((Variant::Long(v), r)), None => None } }
    else if fmt == 0x72 { match f32::sdec(s, fmt) { Some((v, r)) => Some((Variant::Float(OrderedFloat(v)), r)), None => None } }
    else if fmt == 0x82 { match f64::sdec(s, fmt) { Some((v, r)) => Some((Variant::Double(OrderedFloat(v)), r)), None => None } }
    else if fmt == 0x74 { if s.len() >= 4 { Some((Variant::Decimal32(arr4(s)), s.skip(4))) } else { None } }
    else if fmt == 0x84 { if s.len() >= 8 { Some((Variant::Decimal64(arr8(s)), s.skip(8))) } else { None } }
    else if fmt == 0x94 { if s.len() >= 16 { Some((Variant::Decimal128(arr16(s)), s.skip(16))) } else { None } }
    else if fmt == 0x73 { match char::sdec(s, fmt) { Some((v, r)) => Some((Variant::Char(v), r)), None => None } }
    else if fmt == 0x83 { match DateTime::<Utc>::sdec(s, fmt) { Some((v, r)) => Some((Variant::Timestamp(v), r)), None => None } }
    else if fmt == 0x98 { match Uuid::sdec(s, fmt) { Some((v, r)) => Some((Variant::Uuid(v), r)), None => None } }
    else if fmt == 0xa0 || fmt == 0xb0 { match Bytes::sdec(s, fmt) { Some((v, r)) => Some((Variant::Binary(v), r)), None => None } }
    else if fmt == 0xa1 || fmt == 0xb1 { match Str::sdec(s, fmt) { Some((v, r)) => Some((Variant::String(v), r)), None => None } }
    else if fmt == 0xa3 || fmt == 0xb3 { match Symbol::sdec(s, fmt) { Some((v, r)) => Some((Variant::Symbol(v), r)), None => None } }
    else if fmt == 0x45 { Some((Variant::List(List(Vec { s: Ghost(Seq::empty()) })), s)) }
    else if fmt == 0xc0 || fmt == 0xd0 {
        if d == 0 { None } else {
            match hdr(s, fmt, 0xc0, 0xd0) {
                Some(((size, count), r)) => match vdecs(r, count as nat, (d - 1) as nat) {
                    Some((items, r2)) => if r.len() - r2.len() == size { Some((Variant::List(List(Vec { s: Ghost(items) })), r2)) } else { None },
                    None => None,
                },
                None => None,
            }
        }
    }
    else if fmt == 0xc1 || fmt == 0xd1 {
        if d == 0 { None } else {
            match hdr(s, fmt, 0xc1, 0xd1) {
                Some(((size, count), r)) => if r.len() < size || count % 2 != 0 { None } else {
                    match vkvdecs(r.subrange(0, size as int), (count / 2) as nat, (d - 1) as nat) {
                        Some((items, r2)) => if r2.len() == 0 && nodup(items) { Some((Variant::Map(VariantMap { map: HashMap { s: Ghost(items) } }), r.skip(size as int))) } else { None },
                        None => None,
                    }
                },
                None => None,
            }
        }
    }
    else if fmt == 0xe0 || fmt == 0xf0 { match Array::sdec(s, fmt) { Some((v, r)) => Some((Variant::Array(v), r)), None => None } }
    else if fmt == 0 {
        match Descriptor::dec(s) {
            Some((desc, r)) => if r.len() == 0 { None } else {
                let fc = r[0];
                if fc == 0x45 { Some((vdc(desc, seq![0x45u8]), r.skip(1))) }
                else if fc == 0xc0 || fc == 0xc1 || fc == 0xe0 {
                    if r.len() >= 2 && r.len() >= 2 + r[1] { Some((vdc(desc, r.subrange(0, 2 + r[1])), r.skip(2 + r[1]))) } else { None }
                } else if fc == 0xd0 || fc == 0xd1 || fc == 0xf0 {
                    let n = be(r.subrange(1, 5)) as int;
                    if r.len() >= 5 && r.len() >= 5 + n { Some((vdc(desc, r.subrange(0, 5 + n)), r.skip(5 + n))) } else { None }
                } else if d == 0 { None } else {
                    match vdec(r.skip(1), fc, (d - 1) as nat) {
                        Some((v, r2)) => Some((Variant::Described((desc, Box::new(v))), r2)),
                        None => None,
                    }
                }
            },
            None => None,
        }
    }
    else { None }
}
pub open spec fn vdc(descriptor: Descriptor, b: Seq<u8>) -> Variant { Variant::DescribedCompound(DescribedCompound { descriptor, data: Bytes { s: Ghost(b) } }) }
pub open spec fn vdecs(s: Seq<u8>, n: nat, d: nat) -> Option<(Seq<Variant>, Seq<u8>)> decreases d, n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match vdecs(s, (n - 1) as nat, d) {
            Some((items, r)) => match rd1(r) {
                Some((c, r2)) => match vdec(r2, c, d) { Some((v, r3)) => Some((items.push(v), r3)), None => None },
                None => None,
            },
            None => None,
        }
    }
}
pub open spec fn vkvdecs(s: Seq<u8>, n: nat, d: nat) -> Option<(Seq<(Variant, Variant)>, Seq<u8>)> decreases d, n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match vkvdecs(s, (n - 1) as nat, d) {
            Some((items, r)) => match rd1(r) {
                Some((c, r2)) => match vdec(r2, c, d) {
                    Some((k, r3)) => match rd1(r3) {
                        Some((c2, r4)) => match vdec(r4, c2, d) { Some((v, r5)) => Some((items.push((k, v)), r5)), None => None },
                        None => None,
                    },
                    None => None,
                },
                None => None,
            },
            None => None,
        }
    }
}
pub proof fn vdecs_mono(s: Seq<u8>, k: nat, n: nat, d: nat)
    requires k <= n, vdecs(s, n, d) is Some
    ensures vdecs(s, k, d) is Some
    decreases n
{
    if k < n { vdecs_mono(s, k, (n - 1) as nat, d); }
}
pub proof fn vkvdecs_mono(s: Seq<u8>, k: nat, n: nat, d: nat)
    requires k <= n, vkvdecs(s, n, d) is Some
    ensures vkvdecs(s, k, d) is Some, vkvdecs(s, k, d).unwrap().0.len() == k, vkvdecs(s, n, d).unwrap().0.len() == n,
        forall|i: int| 0 <= i < k ==> #[trigger] vkvdecs(s, k, d).unwrap().0[i] == vkvdecs(s, n, d).unwrap().0[i],
    decreases n
{
    if k < n { vkvdecs_mono(s, k, (n - 1) as nat, d); }
    if n > 0 { vkvdecs_mono(s, (n - 1) as nat, (n - 1) as nat, d); }
}
/// keys of a well formed map are new when they are inserted
pub proof fn vkv_key(s: Seq<u8>, k: nat, n: nat, d: nat)
    requires k < n, vkvdecs(s, n, d) is Some, nodup(vkvdecs(s, n, d).unwrap().0)
    ensures vkvdecs(s, k, d) is Some, vkvdecs(s, k + 1, d) is Some, vkvdecs(s, k + 1, d).unwrap().0.len() == k + 1,
        !has_key(vkvdecs(s, k, d).unwrap().0, vkvdecs(s, k + 1, d).unwrap().0[k as int].0)
{
    vkvdecs_mono(s, k + 1, n, d);
    vkvdecs_mono(s, k, n, d);
    let all = vkvdecs(s, n, d).unwrap().0; let pre = vkvdecs(s, k, d).unwrap().0; let key = vkvdecs(s, k + 1, d).unwrap().0[k as int].0;
    assert(key == all[k as int].0);
    assert forall|i: int| 0 <= i < pre.len() implies !keq(#[trigger] pre[i].0, key) by { assert(pre[i] == all[i]); assert(!keq(all[i].0, all[k as int].0)); }
}
/// what has to be rejected: unknown format codes, truncated or malformed scalars, malformed compound headers, too deep nesting
pub open spec fn vrej(s: Seq<u8>, fmt: u8, d: nat) -> bool {
    if fmt == 0xc0 || fmt == 0xd0 { d == 0 || hdr(s, fmt, 0xc0, 0xd0) is None }
    else if fmt == 0xc1 || fmt == 0xd1 { d == 0 || hdr(s, fmt, 0xc1, 0xd1) is None || hdr(s, fmt, 0xc1, 0xd1).unwrap().1.len() < hdr(s, fmt, 0xc1, 0xd1).unwrap().0.0 }
    else if fmt == 0x56 { s.len() == 0 }
    else if fmt == 0 { match Descriptor::dec(s) {
        Some((desc, r)) => r.len() == 0 || {
            let c = r[0];
            if c == 0x45 { false }
            else if c == 0xc0 || c == 0xc1 || c == 0xe0 { r.len() < 2 || r.len() < 2 + r[1] }
            else if c == 0xd0 || c == 0xd1 || c == 0xf0 { r.len() < 5 || r.len() < 5 + be(r.subrange(1, 5)) }
            else { d == 0 || vrej1(r.skip(1), c) }
        },
        None => true,
    } }
    else { true }
}
/// as above, for values that are not compound
pub open spec fn vrej1(s: Seq<u8>, fmt: u8) -> bool {
    fmt != 0xc0 && fmt != 0xd0 && fmt != 0xc1 && fmt != 0xd1 && fmt != 0x56 && fmt != 0
}
pub uninterp spec fn arr_of<const N: usize>(s: Seq<u8>) -> [u8; N];
pub open spec fn arr4(s: Seq<u8>) -> [u8; 4] { choose|a: [u8; 4]| a@ == s.subrange(0, 4) }
pub open spec fn arr8(s: Seq<u8>) -> [u8; 8] { choose|a: [u8; 8]| a@ == s.subrange(0, 8) }
pub open spec fn arr16(s: Seq<u8>) -> [u8; 16] { choose|a: [u8; 16]| a@ == s.subrange(0, 16) }
/// arrays with the same elements are equal
pub proof fn lemma_arr<const N: usize>(a: [u8; N], b: [u8; N])
    requires a@ == b@
    ensures a == b
{
    assert(a =~= b);
}
pub proof fn lemma_arr_of(s: Seq<u8>)
    ensures
        forall|a: [u8; 1]| #[trigger] a@ == seq![a[0]],
        forall|a: [u8; 4]| s.len() >= 4 && #[trigger] a@ == s.subrange(0, 4) ==> a == arr4(s),
        forall|a: [u8; 8]| s.len() >= 8 && #[trigger] a@ == s.subrange(0, 8) ==> a == arr8(s),
        forall|a: [u8; 16]| s.len() >= 16 && #[trigger] a@ == s.subrange(0, 16) ==> a == arr16(s),
{
    assert forall|a: [u8; 1]| #[trigger] a@ == seq![a[0]] by { assert(a@ =~= seq![a[0]]); }
    assert forall|a: [u8; 4]| s.len() >= 4 && #[trigger] a@ == s.subrange(0, 4) implies a == arr4(s) by { assert(arr4(s)@ == s.subrange(0, 4)); lemma_arr(a, arr4(s)); }
    assert forall|a: [u8; 8]| s.len() >= 8 && #[trigger] a@ == s.subrange(0, 8) implies a == arr8(s) by { assert(arr8(s)@ == s.subrange(0, 8)); lemma_arr(a, arr8(s)); }
    assert forall|a: [u8; 16]| s.len() >= 16 && #[trigger] a@ == s.subrange(0, 16) implies a == arr16(s) by { assert(arr16(s)@ == s.subrange(0, 16)); lemma_arr(a, arr16(s)); }
}
/// compound cases of `vdec`, on their own
pub open spec fn vdec_list(s: Seq<u8>, fmt: u8, d: nat) -> Option<(List, Seq<u8>)> {
    if d == 0 { None } else {
        match hdr(s, fmt, 0xc0, 0xd0) {
            Some(((size, count), r)) => match vdecs(r, count as nat, (d - 1) as nat) {
                Some((items, r2)) => if r.len() - r2.len() == size { Some((List(Vec { s: Ghost(items) }), r2)) } else { None },
                None => None,
            },
            None => None,
        }
    }
}
pub open spec fn vdec_map(s: Seq<u8>, fmt: u8, d: nat) -> Option<(VariantMap, Seq<u8>)> {
    if d == 0 { None } else {
        match hdr(s, fmt, 0xc1, 0xd1) {
            Some(((size, count), r)) => if r.len() < size || count % 2 != 0 { None } else {
                match vkvdecs(r.subrange(0, size as int), (count / 2) as nat, (d - 1) as nat) {
                    Some((items, r2)) => if r2.len() == 0 && nodup(items) { Some((VariantMap { map: HashMap { s: Ghost(items) } }, r.skip(size as int))) } else { None },
                    None => None,
                }
            },
            None => None,
        }
    }
}

//@impl codec/src/types/array.rs "DecodeFormatted for Array" hint="let _ = Self::sdec(old(input)@, fmt);"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match hdr(s, fmt, 0xe0, 0xf0) {
            Some(((size, count), r)) => if r.len() < size { None } else {
                match Constructor::dec(r.subrange(0, size as int)) {
                    Some((element_constructor, p)) => Some((Array { count, element_constructor, payload: Bytes { s: Ghost(p) } }, r.skip(size as int))),
                    None => None,
                }
            },
            None => None,
        }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/types/variant.rs VariantMap
//@method new
    ensures r.map == map
//@end
//@impl codec/src/types/variant.rs DescribedCompound
//@method new
    ensures r.descriptor == descriptor, r.data == data
//@end
//@item codec/src/codec/decode.rs MAX_NESTING
//@fn codec/src/codec/decode.rs enter
    ensures depth > 0 ==> r == Ok::<u8, AmqpParseError>((depth - 1) as u8), depth == 0 ==> r is Err
//@end
//@fn codec/src/codec/decode.rs decode_list allocbound="old(input).n_()"
    ensures
        suffix(final(input)@, old(input)@),
        match vdec_list(old(input)@, fmt, depth as nat) {
            Some((v, rest)) => r == Ok::<List, AmqpParseError>(v) && final(input)@ == rest,
            None => if fmt == 0x45 && depth > 0 { r matches Ok(l) && l.0@ == Seq::<Variant>::empty() && final(input)@ == old(input)@ } else { depth == 0 || hdr(old(input)@, fmt, 0xc0, 0xd0) is None ==> r is Err },
        },
    decreases depth, 0nat
//@attrs
#[verifier::loop_isolation(false)]

//@preloop 0
    let ghost __s = input@;
//@loop 0
    invariant
        __k0 <= __end0, __end0 == header.count,
        suffix(input@, old(input)@),
        vdecs(__s, __k0 as nat, depth as nat) is Some ==> vdecs(__s, __k0 as nat, depth as nat) == Some((result@, input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if vdecs(__s, header.count as nat, depth as nat) is Some { vdecs_mono(__s, (__k0 + 1) as nat, header.count as nat, depth as nat); vdecs_mono(__s, __k0 as nat, header.count as nat, depth as nat); } }
//@end
//@fn codec/src/codec/decode.rs decode_map allocbound="old(input).n_()"
    ensures
        suffix(final(input)@, old(input)@),
        match vdec_map(old(input)@, fmt, depth as nat) {
            Some((v, rest)) => r == Ok::<VariantMap, AmqpParseError>(v) && final(input)@ == rest,
            None => depth == 0 || hdr(old(input)@, fmt, 0xc1, 0xd1) is None || hdr(old(input)@, fmt, 0xc1, 0xd1).unwrap().1.len() < hdr(old(input)@, fmt, 0xc1, 0xd1).unwrap().0.0 ==> r is Err,
        },
    decreases depth, 0nat
//@attrs
#[verifier::loop_isolation(false)]

//@start
    hide(nodup); hide(has_key);
//@preloop 0
    let ghost __s = map_input@;
    proof { if depth > 0 && vkvdecs(__s, count as nat, depth as nat) is Some { vkvdecs_mono(__s, count as nat, count as nat, depth as nat); } }
//@loop 0
    invariant
        __k0 <= __end0, __end0 == count, count == header.count / 2,
        suffix(map_input@, __s),
        vkvdecs(__s, count as nat, depth as nat) is Some && nodup(vkvdecs(__s, count as nat, depth as nat).unwrap().0)
            ==> vkvdecs(__s, __k0 as nat, depth as nat) == Some((map@, map_input@)),
    decreases __end0 - __k0
//@loopstart 0
    proof { if vkvdecs(__s, count as nat, depth as nat) is Some && nodup(vkvdecs(__s, count as nat, depth as nat).unwrap().0) { vkv_key(__s, __k0 as nat, count as nat, depth as nat); } }
//@end
//@impl codec/src/codec/decode.rs Variant
//@method decode_nested
    ensures
        suffix(final(input)@, old(input)@),
        match vdec(old(input)@, fmt, depth as nat) {
            Some((v, rest)) => r == Ok::<Variant, AmqpParseError>(v) && final(input)@ == rest,
            None => vrej(old(input)@, fmt, depth as nat) ==> r is Err,
        },
    decreases depth, 1nat
//@start
    proof { lemma_arr_of(old(input)@); }
//@end
