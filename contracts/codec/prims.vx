// ===================================================================================
// Primitive types: specification (AMQP 1.0 part 1) and extracted code
// ===================================================================================
broadcast use gseq;
//@macros codec/src/codec/mod.rs
//@macros codec/src/codec/decode.rs
//@constfn ARRAY_CONSTRUCTOR
//@optfn from_u32 checked_sub
//@stripmod format_codes decode collections
//@props C01 C02 C03 C04
//@item codec/src/codec/mod.rs FORMATCODE_DESCRIBED
//@item codec/src/codec/mod.rs FORMATCODE_NULL
//@item codec/src/codec/mod.rs FORMATCODE_BOOLEAN
//@item codec/src/codec/mod.rs FORMATCODE_BOOLEAN_TRUE
//@item codec/src/codec/mod.rs FORMATCODE_BOOLEAN_FALSE
//@item codec/src/codec/mod.rs FORMATCODE_UINT_0
//@item codec/src/codec/mod.rs FORMATCODE_ULONG_0
//@item codec/src/codec/mod.rs FORMATCODE_UBYTE
//@item codec/src/codec/mod.rs FORMATCODE_USHORT
//@item codec/src/codec/mod.rs FORMATCODE_UINT
//@item codec/src/codec/mod.rs FORMATCODE_ULONG
//@item codec/src/codec/mod.rs FORMATCODE_BYTE
//@item codec/src/codec/mod.rs FORMATCODE_SHORT
//@item codec/src/codec/mod.rs FORMATCODE_INT
//@item codec/src/codec/mod.rs FORMATCODE_LONG
//@item codec/src/codec/mod.rs FORMATCODE_SMALLUINT
//@item codec/src/codec/mod.rs FORMATCODE_SMALLULONG
//@item codec/src/codec/mod.rs FORMATCODE_SMALLINT
//@item codec/src/codec/mod.rs FORMATCODE_SMALLLONG
//@item codec/src/codec/mod.rs FORMATCODE_FLOAT
//@item codec/src/codec/mod.rs FORMATCODE_DOUBLE
//@item codec/src/codec/mod.rs FORMATCODE_DECIMAL32
//@item codec/src/codec/mod.rs FORMATCODE_DECIMAL64
//@item codec/src/codec/mod.rs FORMATCODE_DECIMAL128
//@item codec/src/codec/mod.rs FORMATCODE_CHAR
//@item codec/src/codec/mod.rs FORMATCODE_TIMESTAMP
//@item codec/src/codec/mod.rs FORMATCODE_UUID
//@item codec/src/codec/mod.rs FORMATCODE_BINARY8
//@item codec/src/codec/mod.rs FORMATCODE_BINARY32
//@item codec/src/codec/mod.rs FORMATCODE_STRING8
//@item codec/src/codec/mod.rs FORMATCODE_STRING32
//@item codec/src/codec/mod.rs FORMATCODE_SYMBOL8
//@item codec/src/codec/mod.rs FORMATCODE_SYMBOL32
//@item codec/src/codec/mod.rs FORMATCODE_LIST0
//@item codec/src/codec/mod.rs FORMATCODE_LIST8
//@item codec/src/codec/mod.rs FORMATCODE_LIST32
//@item codec/src/codec/mod.rs FORMATCODE_MAP8
//@item codec/src/codec/mod.rs FORMATCODE_MAP32
//@item codec/src/codec/mod.rs FORMATCODE_ARRAY8
//@item codec/src/codec/mod.rs FORMATCODE_ARRAY32
//@fn codec/src/codec/mod.rs decode_format_code
    ensures
        suffix(final(input)@, old(input)@),
        match rd1(old(input)@) { Some((c, rest)) => r == Ok::<u8, AmqpParseError>(c) && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs read_u8
    ensures
        suffix(final(input)@, old(input)@),
        match rd1(old(input)@) { Some((c, rest)) => r == Ok::<u8, AmqpParseError>(c) && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs read_i8
    ensures
        suffix(final(input)@, old(input)@),
        match rd1(old(input)@) { Some((c, rest)) => r == Ok::<i8, AmqpParseError>(untw(c as nat, 0x100) as i8) && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs capacity
    ensures r <= input@.len(), r <= count
//@end
//@fn codec/src/codec/decode.rs read_bytes_u8
    ensures
        suffix(final(input)@, old(input)@),
        match rd_var(old(input)@, 1) { Some((b, rest)) => r matches Ok(v) && v@ == b && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs read_bytes_u32
    ensures
        suffix(final(input)@, old(input)@),
        match rd_var(old(input)@, 4) { Some((b, rest)) => r matches Ok(v) && v@ == b && final(input)@ == rest, None => r is Err },
//@end
//@fn codec/src/codec/decode.rs read_fixed_bytes
    ensures
        suffix(final(input)@, old(input)@),
        old(input)@.len() >= N ==> (r matches Ok(v) && v@ == old(input)@.subrange(0, N as int) && final(input)@ == old(input)@.skip(N as int)),
        old(input)@.len() < N ==> r is Err,
//@end
//@fn codec/src/codec/decode.rs datetime_from_millis
    ensures
        dt_in_range(millis as int / 1000) ==> r == Ok::<DateTime<Utc>, AmqpParseError>(dt_of_ms(millis as int)),
        !dt_in_range(millis as int / 1000) ==> r is Err,
//@end

// ---- specifications of the primitive types
//@impl codec/src/codec/decode.rs "DecodeFormatted for bool"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x56 { if s.len() >= 1 && s[0] <= 1 { Some((s[0] == 1, s.skip(1))) } else { None } }
        else if fmt == 0x41 { Some((true, s)) }
        else if fmt == 0x42 { Some((false, s)) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { fmt != 0x56 || s.len() == 0 }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for u8"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x50 { mapr(rd(s, 1), |n: nat| n as u8) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for u16"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x60 { mapr(rd(s, 2), |n: nat| n as u16) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for u32"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x70 { mapr(rd(s, 4), |n: nat| n as u32) }
        else if fmt == 0x52 { mapr(rd(s, 1), |n: nat| n as u32) }
        else if fmt == 0x43 { Some((0u32, s)) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for u64"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x80 { mapr(rd(s, 8), |n: nat| n as u64) }
        else if fmt == 0x53 { mapr(rd(s, 1), |n: nat| n as u64) }
        else if fmt == 0x44 { Some((0u64, s)) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for i8"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x51 { mapr(rd(s, 1), |n: nat| untw(n, 0x100) as i8) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for i16"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x61 { mapr(rd(s, 2), |n: nat| untw(n, 0x1_0000) as i16) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for i32"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x71 { mapr(rd(s, 4), |n: nat| untw(n, 0x1_0000_0000) as i32) }
        else if fmt == 0x54 { mapr(rd(s, 1), |n: nat| untw(n, 0x100) as i32) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for i64"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x81 { mapr(rd(s, 8), |n: nat| untw(n, 0x1_0000_0000_0000_0000) as i64) }
        else if fmt == 0x55 { mapr(rd(s, 1), |n: nat| untw(n, 0x100) as i64) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for f32"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x72 { mapr(rd(s, 4), |n: nat| bits_f32(n)) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for f64"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x82 { mapr(rd(s, 8), |n: nat| bits_f64(n)) }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for char"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x73 { match rd(s, 4) { Some((n, r)) => if is_char(n) { Some((u2c(n), r)) } else { None }, None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for DateTime<Utc>"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x83 { match rd(s, 8) { Some((n, r)) => if dt_in_range(untw(n, 0x1_0000_0000_0000_0000) / 1000) { Some((dt_of_ms(untw(n, 0x1_0000_0000_0000_0000)), r)) } else { None }, None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Uuid"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x98 { if s.len() >= 16 { Some((uuid_of(s.subrange(0, 16)), s.skip(16))) } else { None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Bytes"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0xa0 { match rd_var(s, 1) { Some((b, r)) => Some((Bytes { s: Ghost(b) }, r)), None => None } }
        else if fmt == 0xb0 { match rd_var(s, 4) { Some((b, r)) => Some((Bytes { s: Ghost(b) }, r)), None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for ByteString"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0xa1 { match rd_var(s, 1) { Some((b, r)) => if is_utf8(b) { Some((ByteString { s: Ghost(b) }, r)) } else { None }, None => None } }
        else if fmt == 0xb1 { match rd_var(s, 4) { Some((b, r)) => if is_utf8(b) { Some((ByteString { s: Ghost(b) }, r)) } else { None }, None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Str"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0xa1 { match rd_var(s, 1) { Some((b, r)) => if is_utf8(b) { Some((Str(ByteString { s: Ghost(b) }), r)) } else { None }, None => None } }
        else if fmt == 0xb1 { match rd_var(s, 4) { Some((b, r)) => if is_utf8(b) { Some((Str(ByteString { s: Ghost(b) }), r)) } else { None }, None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl codec/src/codec/decode.rs "DecodeFormatted for Symbol"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0xa3 { match rd_var(s, 1) { Some((b, r)) => if is_utf8(b) { Some((Symbol(Str(ByteString { s: Ghost(b) })), r)) } else { None }, None => None } }
        else if fmt == 0xb3 { match rd_var(s, 4) { Some((b, r)) => if is_utf8(b) { Some((Symbol(Str(ByteString { s: Ghost(b) })), r)) } else { None }, None => None } }
        else { None }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
