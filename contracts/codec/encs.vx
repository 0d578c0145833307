// ===================================================================================
// Encoding of primitive types
// ===================================================================================
//@props C01 C02 C03
//@impl codec/src/codec/encode.rs "Encode for bool" 
    closed spec fn enc(&self) -> Seq<u8> { seq![if *self { 0x41u8 } else { 0x42u8 }] }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for bool" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x56) }
    closed spec fn aenc(&self) -> Seq<u8> { seq![if *self { 1u8 } else { 0u8 }] }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for u8"
    open spec fn code() -> u8 { 0x50 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for u8" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x50) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(*self as nat, 1) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for u16"
    open spec fn code() -> u8 { 0x60 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for u16" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x60) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(*self as nat, 2) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for i8"
    open spec fn code() -> u8 { 0x51 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for i8" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x51) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(tw(*self as int, 0x100), 1) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for i16"
    open spec fn code() -> u8 { 0x61 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for i16" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x61) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(tw(*self as int, 0x1_0000), 2) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for f32"
    open spec fn code() -> u8 { 0x72 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for f32" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x72) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(f32_bits(*self), 4) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for f64"
    open spec fn code() -> u8 { 0x82 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for f64" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x82) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(f64_bits(*self), 8) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for char"
    open spec fn code() -> u8 { 0x73 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for char" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x73) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(*self as u32 as nat, 4) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for DateTime<Utc>"
    open spec fn code() -> u8 { 0x83 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for DateTime<Utc>" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x83) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(tw(dt_ms(*self), 0x1_0000_0000_0000_0000), 8) }
//@end
//@impl codec/src/codec/encode.rs "FixedEncode for Uuid"
    open spec fn code() -> u8 { 0x98 }
    proof fn ctor_is_code() { }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for Uuid" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x98) }
    closed spec fn aenc(&self) -> Seq<u8> { self.seq() }
//@end
//@impl codec/src/codec/encode.rs "Encode for u32" 
    closed spec fn enc(&self) -> Seq<u8> { if *self == 0 { seq![0x43u8] } else if *self < 256 { seq![0x52u8, *self as u8] } else { seq![0x70u8] + enc_be(*self as nat, 4) } }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for u32" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x70) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(*self as nat, 4) }
//@end
//@impl codec/src/codec/encode.rs "Encode for u64" 
    closed spec fn enc(&self) -> Seq<u8> { if *self == 0 { seq![0x44u8] } else if *self < 256 { seq![0x53u8, *self as u8] } else { seq![0x80u8] + enc_be(*self as nat, 8) } }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for u64" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x80) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(*self as nat, 8) }
//@end
//@impl codec/src/codec/encode.rs "Encode for i32" 
    closed spec fn enc(&self) -> Seq<u8> { if -128 <= *self <= 127 { seq![0x54u8, tw(*self as int, 0x100) as u8] } else { seq![0x71u8] + enc_be(tw(*self as int, 0x1_0000_0000), 4) } }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for i32" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x71) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(tw(*self as int, 0x1_0000_0000), 4) }
//@end
//@impl codec/src/codec/encode.rs "Encode for i64" 
    closed spec fn enc(&self) -> Seq<u8> { if -128 <= *self <= 127 { seq![0x55u8, tw(*self as int, 0x100) as u8] } else { seq![0x81u8] + enc_be(tw(*self as int, 0x1_0000_0000_0000_0000), 8) } }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for i64" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0x81) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(tw(*self as int, 0x1_0000_0000_0000_0000), 8) }
//@end
//@impl codec/src/codec/encode.rs "Encode for Bytes" 
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa0, 0xb0, self.seq()) }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for Bytes" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0xb0) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(self.seq().len(), 4) + self.seq() }
//@end
//@impl codec/src/codec/encode.rs "Encode for ByteString" 
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa1, 0xb1, self.seq()) }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for ByteString" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0xb1) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(self.seq().len(), 4) + self.seq() }
//@end
//@impl codec/src/codec/encode.rs "Encode for str" header="impl Encode for StaticStr"
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa1, 0xb1, self.seq()) }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for str" header="impl ArrayEncode for StaticStr"
    open spec fn actor() -> Constructor { Constructor::FormatCode(0xb1) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(self.seq().len(), 4) + self.seq() }
//@end
//@impl codec/src/codec/encode.rs "Encode for Str" 
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa1, 0xb1, self.0.seq()) }
//@end
//@impl codec/src/codec/encode.rs "Encode for Symbol" 
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, self.0.0.seq()) }
//@end
//@impl codec/src/codec/encode.rs "ArrayEncode for Symbol" 
    open spec fn actor() -> Constructor { Constructor::FormatCode(0xb3) }
    closed spec fn aenc(&self) -> Seq<u8> { enc_be(self.0.0.seq().len(), 4) + self.0.0.seq() }
//@end
//@impl codec/src/codec/encode.rs "Encode for StaticSymbol" 
    closed spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, self.0.seq()) }
//@end
//@fn codec/src/codec/encode.rs encode_null
    ensures final(buf)@ == old(buf)@ + seq![0x40u8]
//@end
//@impl codec/src/codec/encode.rs "Encode for T" header="impl<T: FixedEncode> Encode for T" key="Encode for FixedEncode"
    closed spec fn enc(&self) -> Seq<u8> { seq![T::code()] + self.aenc() }
//@method encoded_size
//@start
    proof { T::ctor_is_code(); }
//@method encode
//@start
    proof { T::ctor_is_code(); }
//@end
impl Encode for OrderedFloat<f32> {
    closed spec fn enc(&self) -> Seq<u8> { self.0.enc() }
    fn encoded_size(&self) -> usize { self.0.encoded_size() }
    fn encode(&self, buf: &mut BytesMut) { self.0.encode(buf) }
}
impl Encode for OrderedFloat<f64> {
    closed spec fn enc(&self) -> Seq<u8> { self.0.enc() }
    fn encoded_size(&self) -> usize { self.0.encoded_size() }
    fn encode(&self, buf: &mut BytesMut) { self.0.encode(buf) }
}
/// descriptor: 0x00 followed by a ulong or a symbol
//@impl codec/src/codec/encode.rs "Encode for Descriptor" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> {
        seq![0u8] + match *self { Descriptor::Ulong(v) => v.enc(), Descriptor::Symbol(v) => v.enc() }
    }
//@end
//@impl codec/src/codec/encode.rs "Encode for Constructor" hint="let _ = self.enc().len();"
    closed spec fn enc(&self) -> Seq<u8> {
        match *self {
            Constructor::FormatCode(c) => seq![c],
            Constructor::Described { descriptor, format_code } => descriptor.enc() + seq![format_code],
        }
    }
//@end
//@impl codec/src/types/mod.rs Constructor
//@method format_code
    ensures r == ctor_code(*self)
//@end
pub open spec fn ctor_code(c: Constructor) -> u8 {
    match c { Constructor::FormatCode(x) => x, Constructor::Described { descriptor, format_code } => format_code }
}

// ---- decoding of constructors and compound headers
//@props C02 C04
//@impl codec/src/codec/mod.rs "Decode for T" header="impl<T: DecodeFormatted> Decode for T" key="Decode for T"
    open spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        match rd1(s) { Some((c, r)) => T::sdec(r, c), None => None }
    }
    open spec fn drej(s: Seq<u8>) -> bool {
        match rd1(s) { Some((c, r)) => T::srej(r, c), None => true }
    }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Descriptor"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x53 || fmt == 0x80 || fmt == 0x44 { match u64::sdec(s, fmt) { Some((v, r)) => Some((Descriptor::Ulong(v), r)), None => None } }
        else if fmt == 0xa3 || fmt == 0xb3 { match Symbol::sdec(s, fmt) { Some((v, r)) => Some((Descriptor::Symbol(v), r)), None => None } }
        else { None }
    }

    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Constructor"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0 {
            match Descriptor::dec(s) {
                Some((descriptor, r)) => match rd1(r) { Some((format_code, r2)) => Some((Constructor::Described { descriptor, format_code }, r2)), None => None },
                None => None,
            }
        } else { Some((Constructor::FormatCode(fmt), s)) }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { Descriptor::dec(s) is Some || Descriptor::drej(s) }
//@end
/// size (without the count field) and count of a compound value
pub open spec fn comp8(s: Seq<u8>) -> Option<((u32, u32), Seq<u8>)> {
    if s.len() >= 2 && s[0] >= 1 { Some((((s[0] - 1) as u32, s[1] as u32), s.skip(2))) } else { None }
}
pub open spec fn comp32(s: Seq<u8>) -> Option<((u32, u32), Seq<u8>)> {
    if s.len() >= 8 && be(s.subrange(0, 4)) >= 4 { Some((((be(s.subrange(0, 4)) - 4) as u32, be(s.subrange(4, 8)) as u32), s.skip(8))) } else { None }
}
pub open spec fn hdr(s: Seq<u8>, fmt: u8, c8: u8, c32: u8) -> Option<((u32, u32), Seq<u8>)> {
    if fmt == c8 { comp8(s) } else if fmt == c32 { comp32(s) } else { None }
}
//@fn codec/src/codec/decode.rs decode_compound8
    ensures
        suffix(final(input)@, old(input)@),
        match comp8(old(input)@) { Some((v, rest)) => r == Ok::<(u32, u32), AmqpParseError>(v) && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs decode_compound32
    ensures
        suffix(final(input)@, old(input)@),
        match comp32(old(input)@) { Some((v, rest)) => r == Ok::<(u32, u32), AmqpParseError>(v) && final(input)@ == rest, None => r is Err },
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for ListHeader"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x45 { Some((ListHeader { size: 0, count: 0 }, s)) }
        else { match hdr(s, fmt, 0xc0, 0xd0) { Some(((size, count), r)) => Some((ListHeader { size, count }, r)), None => None } }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for MapHeader"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match hdr(s, fmt, 0xc1, 0xd1) { Some(((size, count), r)) => Some((MapHeader { size, count }, r)), None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for ArrayHeader"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match hdr(s, fmt, 0xe0, 0xf0) { Some(((size, count), r)) => Some((ArrayHeader { size, count }, r)), None => None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
