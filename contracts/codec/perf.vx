// GENERATED by tools/gen_perf.py from tools/amqp_types.json (AMQP 1.0 field tables). Do not edit.
//@props C03 C04 C06
//@constfn FIELD_COUNT
//@stripmod format_codes decode collections
// ---- Error
pub mod m_error {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn error_fapp(b: Seq<u8>, v: Error) -> Seq<u8> { b + v.0.condition.enc() + v.0.description.enc() + v.0.info.enc() }
pub closed spec fn error_fenc(v: Error) -> Seq<u8> { error_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn error_enc(v: Error) -> Seq<u8> { denc(29) + (enc_comp(0xc0, 0xd0, 3, error_fenc(v))) }
pub proof fn lemma_error_app(b: Seq<u8>, v: Error)
    ensures error_fapp(b, v) == b + error_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.condition.enc()); let p1 = p0 + v.0.condition.enc();
    seq_assoc(b, p1, v.0.description.enc()); let p2 = p1 + v.0.description.enc();
    seq_assoc(b, p2, v.0.info.enc()); let p3 = p2 + v.0.info.enc();
}
pub proof fn lemma_error_put(b: Seq<u8>, v: Error)
    ensures
        denc(29).len() == 3,
        error_fapp(comp_hdr(b + denc(29), 3, error_fenc(v).len()), v) == b + (denc(29) + enc_comp(0xc0, 0xd0, 3, error_fenc(v))),
        error_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 3, error_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 3, error_fenc(v)).len() == error_fenc(v).len() + (if error_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        error_fenc(v).len() == 0 + v.0.condition.enc().len() + v.0.description.enc().len() + v.0.info.enc().len(),
{
    let c = error_fenc(v);
    lemma_denc(29, Seq::empty());
    lemma_error_app(comp_hdr(b + denc(29), 3, c.len()), v);
    lemma_comp_hdr(b + denc(29), 3, c);
    seq_assoc(b, denc(29), enc_comp(0xc0, 0xd0, 3, c));
    lemma_comp_len(0xc0, 0xd0, 3, c);
}
pub closed spec fn error_fdec(s0: Seq<u8>, n: int) -> Option<(Error, Seq<u8>)> {
    match fman::<ErrorCondition>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<ByteString>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<VecSymbolMap>(s2, n - 2) { None => None, Some((f2, s3)) =>
    Some((Error(Box::new(ErrorInner { condition: f0, description: f1, info: f2 })), s3))
    }}}
}
pub closed spec fn error_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<ErrorCondition>(s0, n - 0) { None => fman_rej::<ErrorCondition>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<ByteString>(s1, n - 1) { None => fopt_rej::<ByteString>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<VecSymbolMap>(s2, n - 2) { None => fopt_rej::<VecSymbolMap>(s2, n - 2), Some((f2, s3)) =>
    false
    }}}
}
pub closed spec fn error_idec(s: Seq<u8>) -> Option<(Error, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match error_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 3 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn error_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => error_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Error
//@method FIELD_COUNT
    ensures r == 3
//@end
//@fn codec/src/protocol/definitions.rs decode_error_inner
    ensures
        suffix(final(input)@, old(input)@),
        match error_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Error, AmqpParseError>(v) && final(input)@ == rest,
            None => error_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_error_inner
    requires error_enc(*list).len() <= u32::MAX
    ensures r == error_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_error_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_error_inner
    requires error_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + error_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_error_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Error"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 29, lit!("amqp:error:list")) { error_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 29, lit!("amqp:error:list")) || error_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Error"
    closed spec fn enc(&self) -> Seq<u8> { error_enc(*self) }
//@end
pub proof fn lemma_error_nn(v: Error)
    ensures error_enc(v).len() >= 3, error_enc(v)[0] == 0, v.enc() == error_enc(v), v.wf() == error_wf(v)
{ lemma_denc(29, Seq::empty()); }
pub closed spec fn error_wf(v: Error) -> bool { v.0.condition.wf() && owf(v.0.description) && owf(v.0.info) }
pub proof fn lemma_error_fields(v: Error)
    requires error_wf(v), error_fenc(v).len() <= u32::MAX
    ensures error_fdec(error_fenc(v), 3) == Some((v, Seq::<u8>::empty())), error_fenc(v).len() >= 3
{
    let r3 = Seq::<u8>::empty();
    let r2 = v.0.info.enc() + r3;
    let r1 = v.0.description.enc() + r2;
    let r0 = v.0.condition.enc() + r1;
    lemma_error_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.condition.enc(), r1); let p1 = p0 + v.0.condition.enc();
    seq_assoc(p1, v.0.description.enc(), r2); let p2 = p1 + v.0.description.enc();
    seq_assoc(p2, v.0.info.enc(), r3); let p3 = p2 + v.0.info.enc();
    assert(p3 + r3 =~= p3);
    lemma_fman(v.0.condition, r1, 3 - 0);
    ErrorCondition::nn(v.0.condition);
    lemma_fopt(v.0.description, r2, 3 - 1);
    lemma_nn_opt(v.0.description);
    lemma_fopt(v.0.info, r3, 3 - 2);
    lemma_nn_opt(v.0.info);
    assert(error_fenc(v) == r0);
}
pub proof fn lemma_error_rt(v: Error, rest: Seq<u8>)
    requires error_wf(v), error_enc(v).len() <= u32::MAX
    ensures error_enc(v).len() >= 1, error_enc(v)[0] == 0, Descriptor::dec((error_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(29), enc_comp(0xc0, 0xd0, 3, error_fenc(v)) + rest)),
        error_idec(enc_comp(0xc0, 0xd0, 3, error_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 3, error_fenc(v)) + rest;
    lemma_denc(29, l);
    lemma_comp_len(0xc0, 0xd0, 3, error_fenc(v));
    lemma_error_fields(v);
    lemma_list_split(3, error_fenc(v), rest);
    assert(error_enc(v) + rest =~= denc(29) + l);
}
impl RoundTrip for Error {
    closed spec fn wf(&self) -> bool { error_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_error_rt(v, rest); }
}
impl NotNull for Error { proof fn nn(v: Self) { lemma_denc(29, Seq::empty()); } }

} // verus!
}
pub use m_error::*;
// ---- Open
pub mod m_open {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn open_fapp(b: Seq<u8>, v: Open) -> Seq<u8> { b + v.0.container_id.enc() + v.0.hostname.enc() + v.0.max_frame_size.enc() + v.0.channel_max.enc() + v.0.idle_time_out.enc() + v.0.outgoing_locales.enc() + v.0.incoming_locales.enc() + v.0.offered_capabilities.enc() + v.0.desired_capabilities.enc() + v.0.properties.enc() }
pub closed spec fn open_fenc(v: Open) -> Seq<u8> { open_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn open_enc(v: Open) -> Seq<u8> { denc(16) + (enc_comp(0xc0, 0xd0, 10, open_fenc(v))) }
pub proof fn lemma_open_app(b: Seq<u8>, v: Open)
    ensures open_fapp(b, v) == b + open_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.container_id.enc()); let p1 = p0 + v.0.container_id.enc();
    seq_assoc(b, p1, v.0.hostname.enc()); let p2 = p1 + v.0.hostname.enc();
    seq_assoc(b, p2, v.0.max_frame_size.enc()); let p3 = p2 + v.0.max_frame_size.enc();
    seq_assoc(b, p3, v.0.channel_max.enc()); let p4 = p3 + v.0.channel_max.enc();
    seq_assoc(b, p4, v.0.idle_time_out.enc()); let p5 = p4 + v.0.idle_time_out.enc();
    seq_assoc(b, p5, v.0.outgoing_locales.enc()); let p6 = p5 + v.0.outgoing_locales.enc();
    seq_assoc(b, p6, v.0.incoming_locales.enc()); let p7 = p6 + v.0.incoming_locales.enc();
    seq_assoc(b, p7, v.0.offered_capabilities.enc()); let p8 = p7 + v.0.offered_capabilities.enc();
    seq_assoc(b, p8, v.0.desired_capabilities.enc()); let p9 = p8 + v.0.desired_capabilities.enc();
    seq_assoc(b, p9, v.0.properties.enc()); let p10 = p9 + v.0.properties.enc();
}
pub proof fn lemma_open_put(b: Seq<u8>, v: Open)
    ensures
        denc(16).len() == 3,
        open_fapp(comp_hdr(b + denc(16), 10, open_fenc(v).len()), v) == b + (denc(16) + enc_comp(0xc0, 0xd0, 10, open_fenc(v))),
        open_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 10, open_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 10, open_fenc(v)).len() == open_fenc(v).len() + (if open_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        open_fenc(v).len() == 0 + v.0.container_id.enc().len() + v.0.hostname.enc().len() + v.0.max_frame_size.enc().len() + v.0.channel_max.enc().len() + v.0.idle_time_out.enc().len() + v.0.outgoing_locales.enc().len() + v.0.incoming_locales.enc().len() + v.0.offered_capabilities.enc().len() + v.0.desired_capabilities.enc().len() + v.0.properties.enc().len(),
{
    let c = open_fenc(v);
    lemma_denc(16, Seq::empty());
    lemma_open_app(comp_hdr(b + denc(16), 10, c.len()), v);
    lemma_comp_hdr(b + denc(16), 10, c);
    seq_assoc(b, denc(16), enc_comp(0xc0, 0xd0, 10, c));
    lemma_comp_len(0xc0, 0xd0, 10, c);
}
pub closed spec fn open_fdec(s0: Seq<u8>, n: int) -> Option<(Open, Seq<u8>)> {
    match fman::<ByteString>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<ByteString>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<u16>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<Multiple<Symbol>>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<Multiple<Symbol>>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<Multiple<Symbol>>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<HashMap<Symbol, Variant>>(s9, n - 9) { None => None, Some((f9, s10)) =>
    Some((Open(Box::new(OpenInner { container_id: f0, hostname: f1, max_frame_size: fdef(f2, 4294967295u32), channel_max: fdef(f3, 65535u16), idle_time_out: f4, outgoing_locales: f5, incoming_locales: f6, offered_capabilities: f7, desired_capabilities: f8, properties: f9 })), s10))
    }}}}}}}}}}
}
pub closed spec fn open_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<ByteString>(s0, n - 0) { None => fman_rej::<ByteString>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<ByteString>(s1, n - 1) { None => fopt_rej::<ByteString>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => fopt_rej::<u32>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<u16>(s3, n - 3) { None => fopt_rej::<u16>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => fopt_rej::<u32>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<Multiple<Symbol>>(s5, n - 5) { None => fopt_rej::<Multiple<Symbol>>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => fopt_rej::<Multiple<Symbol>>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<Multiple<Symbol>>(s7, n - 7) { None => fopt_rej::<Multiple<Symbol>>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<Multiple<Symbol>>(s8, n - 8) { None => fopt_rej::<Multiple<Symbol>>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<HashMap<Symbol, Variant>>(s9, n - 9) { None => fopt_rej::<HashMap<Symbol, Variant>>(s9, n - 9), Some((f9, s10)) =>
    false
    }}}}}}}}}}
}
pub closed spec fn open_idec(s: Seq<u8>) -> Option<(Open, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match open_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 10 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn open_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => open_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Open
//@method FIELD_COUNT
    ensures r == 10
//@end
//@fn codec/src/protocol/definitions.rs decode_open_inner
    ensures
        suffix(final(input)@, old(input)@),
        match open_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Open, AmqpParseError>(v) && final(input)@ == rest,
            None => open_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_open_inner
    requires open_enc(*list).len() <= u32::MAX
    ensures r == open_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_open_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_open_inner
    requires open_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + open_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_open_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Open"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 16, lit!("amqp:open:list")) { open_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 16, lit!("amqp:open:list")) || open_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Open"
    closed spec fn enc(&self) -> Seq<u8> { open_enc(*self) }
//@end
pub proof fn lemma_open_nn(v: Open)
    ensures open_enc(v).len() >= 3, open_enc(v)[0] == 0, v.enc() == open_enc(v), v.wf() == open_wf(v)
{ lemma_denc(16, Seq::empty()); }
pub closed spec fn open_wf(v: Open) -> bool { v.0.container_id.wf() && owf(v.0.hostname) && v.0.max_frame_size.wf() && v.0.channel_max.wf() && owf(v.0.idle_time_out) && owf(v.0.outgoing_locales) && owf(v.0.incoming_locales) && owf(v.0.offered_capabilities) && owf(v.0.desired_capabilities) && owf(v.0.properties) }
pub proof fn lemma_open_fields(v: Open)
    requires open_wf(v), open_fenc(v).len() <= u32::MAX
    ensures open_fdec(open_fenc(v), 10) == Some((v, Seq::<u8>::empty())), open_fenc(v).len() >= 10
{
    let r10 = Seq::<u8>::empty();
    let r9 = v.0.properties.enc() + r10;
    let r8 = v.0.desired_capabilities.enc() + r9;
    let r7 = v.0.offered_capabilities.enc() + r8;
    let r6 = v.0.incoming_locales.enc() + r7;
    let r5 = v.0.outgoing_locales.enc() + r6;
    let r4 = v.0.idle_time_out.enc() + r5;
    let r3 = v.0.channel_max.enc() + r4;
    let r2 = v.0.max_frame_size.enc() + r3;
    let r1 = v.0.hostname.enc() + r2;
    let r0 = v.0.container_id.enc() + r1;
    lemma_open_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.container_id.enc(), r1); let p1 = p0 + v.0.container_id.enc();
    seq_assoc(p1, v.0.hostname.enc(), r2); let p2 = p1 + v.0.hostname.enc();
    seq_assoc(p2, v.0.max_frame_size.enc(), r3); let p3 = p2 + v.0.max_frame_size.enc();
    seq_assoc(p3, v.0.channel_max.enc(), r4); let p4 = p3 + v.0.channel_max.enc();
    seq_assoc(p4, v.0.idle_time_out.enc(), r5); let p5 = p4 + v.0.idle_time_out.enc();
    seq_assoc(p5, v.0.outgoing_locales.enc(), r6); let p6 = p5 + v.0.outgoing_locales.enc();
    seq_assoc(p6, v.0.incoming_locales.enc(), r7); let p7 = p6 + v.0.incoming_locales.enc();
    seq_assoc(p7, v.0.offered_capabilities.enc(), r8); let p8 = p7 + v.0.offered_capabilities.enc();
    seq_assoc(p8, v.0.desired_capabilities.enc(), r9); let p9 = p8 + v.0.desired_capabilities.enc();
    seq_assoc(p9, v.0.properties.enc(), r10); let p10 = p9 + v.0.properties.enc();
    assert(p10 + r10 =~= p10);
    lemma_fman(v.0.container_id, r1, 10 - 0);
    ByteString::nn(v.0.container_id);
    lemma_fopt(v.0.hostname, r2, 10 - 1);
    lemma_nn_opt(v.0.hostname);
    lemma_fdef(v.0.max_frame_size, r3, 10 - 2);
    u32::nn(v.0.max_frame_size);
    lemma_fdef(v.0.channel_max, r4, 10 - 3);
    u16::nn(v.0.channel_max);
    lemma_fopt(v.0.idle_time_out, r5, 10 - 4);
    lemma_nn_opt(v.0.idle_time_out);
    lemma_fopt(v.0.outgoing_locales, r6, 10 - 5);
    lemma_nn_opt(v.0.outgoing_locales);
    lemma_fopt(v.0.incoming_locales, r7, 10 - 6);
    lemma_nn_opt(v.0.incoming_locales);
    lemma_fopt(v.0.offered_capabilities, r8, 10 - 7);
    lemma_nn_opt(v.0.offered_capabilities);
    lemma_fopt(v.0.desired_capabilities, r9, 10 - 8);
    lemma_nn_opt(v.0.desired_capabilities);
    lemma_fopt(v.0.properties, r10, 10 - 9);
    lemma_nn_opt(v.0.properties);
    assert(open_fenc(v) == r0);
}
pub proof fn lemma_open_rt(v: Open, rest: Seq<u8>)
    requires open_wf(v), open_enc(v).len() <= u32::MAX
    ensures open_enc(v).len() >= 1, open_enc(v)[0] == 0, Descriptor::dec((open_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(16), enc_comp(0xc0, 0xd0, 10, open_fenc(v)) + rest)),
        open_idec(enc_comp(0xc0, 0xd0, 10, open_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 10, open_fenc(v)) + rest;
    lemma_denc(16, l);
    lemma_comp_len(0xc0, 0xd0, 10, open_fenc(v));
    lemma_open_fields(v);
    lemma_list_split(10, open_fenc(v), rest);
    assert(open_enc(v) + rest =~= denc(16) + l);
}
impl RoundTrip for Open {
    closed spec fn wf(&self) -> bool { open_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_open_rt(v, rest); }
}
impl NotNull for Open { proof fn nn(v: Self) { lemma_denc(16, Seq::empty()); } }

} // verus!
}
pub use m_open::*;
// ---- Begin
pub mod m_begin {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn begin_fapp(b: Seq<u8>, v: Begin) -> Seq<u8> { b + v.0.remote_channel.enc() + v.0.next_outgoing_id.enc() + v.0.incoming_window.enc() + v.0.outgoing_window.enc() + v.0.handle_max.enc() + v.0.offered_capabilities.enc() + v.0.desired_capabilities.enc() + v.0.properties.enc() }
pub closed spec fn begin_fenc(v: Begin) -> Seq<u8> { begin_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn begin_enc(v: Begin) -> Seq<u8> { denc(17) + (enc_comp(0xc0, 0xd0, 8, begin_fenc(v))) }
pub proof fn lemma_begin_app(b: Seq<u8>, v: Begin)
    ensures begin_fapp(b, v) == b + begin_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.remote_channel.enc()); let p1 = p0 + v.0.remote_channel.enc();
    seq_assoc(b, p1, v.0.next_outgoing_id.enc()); let p2 = p1 + v.0.next_outgoing_id.enc();
    seq_assoc(b, p2, v.0.incoming_window.enc()); let p3 = p2 + v.0.incoming_window.enc();
    seq_assoc(b, p3, v.0.outgoing_window.enc()); let p4 = p3 + v.0.outgoing_window.enc();
    seq_assoc(b, p4, v.0.handle_max.enc()); let p5 = p4 + v.0.handle_max.enc();
    seq_assoc(b, p5, v.0.offered_capabilities.enc()); let p6 = p5 + v.0.offered_capabilities.enc();
    seq_assoc(b, p6, v.0.desired_capabilities.enc()); let p7 = p6 + v.0.desired_capabilities.enc();
    seq_assoc(b, p7, v.0.properties.enc()); let p8 = p7 + v.0.properties.enc();
}
pub proof fn lemma_begin_put(b: Seq<u8>, v: Begin)
    ensures
        denc(17).len() == 3,
        begin_fapp(comp_hdr(b + denc(17), 8, begin_fenc(v).len()), v) == b + (denc(17) + enc_comp(0xc0, 0xd0, 8, begin_fenc(v))),
        begin_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 8, begin_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 8, begin_fenc(v)).len() == begin_fenc(v).len() + (if begin_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        begin_fenc(v).len() == 0 + v.0.remote_channel.enc().len() + v.0.next_outgoing_id.enc().len() + v.0.incoming_window.enc().len() + v.0.outgoing_window.enc().len() + v.0.handle_max.enc().len() + v.0.offered_capabilities.enc().len() + v.0.desired_capabilities.enc().len() + v.0.properties.enc().len(),
{
    let c = begin_fenc(v);
    lemma_denc(17, Seq::empty());
    lemma_begin_app(comp_hdr(b + denc(17), 8, c.len()), v);
    lemma_comp_hdr(b + denc(17), 8, c);
    seq_assoc(b, denc(17), enc_comp(0xc0, 0xd0, 8, c));
    lemma_comp_len(0xc0, 0xd0, 8, c);
}
pub closed spec fn begin_fdec(s0: Seq<u8>, n: int) -> Option<(Begin, Seq<u8>)> {
    match fopt::<u16>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fman::<u32>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fman::<u32>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<Multiple<Symbol>>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<HashMap<Symbol, Variant>>(s7, n - 7) { None => None, Some((f7, s8)) =>
    Some((Begin(Box::new(BeginInner { remote_channel: f0, next_outgoing_id: f1, incoming_window: f2, outgoing_window: f3, handle_max: fdef(f4, 4294967295u32), offered_capabilities: f5, desired_capabilities: f6, properties: f7 })), s8))
    }}}}}}}}
}
pub closed spec fn begin_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<u16>(s0, n - 0) { None => fopt_rej::<u16>(s0, n - 0), Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => fman_rej::<u32>(s1, n - 1), Some((f1, s2)) =>
    match fman::<u32>(s2, n - 2) { None => fman_rej::<u32>(s2, n - 2), Some((f2, s3)) =>
    match fman::<u32>(s3, n - 3) { None => fman_rej::<u32>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => fopt_rej::<u32>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<Multiple<Symbol>>(s5, n - 5) { None => fopt_rej::<Multiple<Symbol>>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => fopt_rej::<Multiple<Symbol>>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<HashMap<Symbol, Variant>>(s7, n - 7) { None => fopt_rej::<HashMap<Symbol, Variant>>(s7, n - 7), Some((f7, s8)) =>
    false
    }}}}}}}}
}
pub closed spec fn begin_idec(s: Seq<u8>) -> Option<(Begin, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match begin_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 8 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn begin_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => begin_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Begin
//@method FIELD_COUNT
    ensures r == 8
//@end
//@fn codec/src/protocol/definitions.rs decode_begin_inner
    ensures
        suffix(final(input)@, old(input)@),
        match begin_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Begin, AmqpParseError>(v) && final(input)@ == rest,
            None => begin_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_begin_inner
    requires begin_enc(*list).len() <= u32::MAX
    ensures r == begin_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_begin_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_begin_inner
    requires begin_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + begin_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_begin_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Begin"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 17, lit!("amqp:begin:list")) { begin_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 17, lit!("amqp:begin:list")) || begin_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Begin"
    closed spec fn enc(&self) -> Seq<u8> { begin_enc(*self) }
//@end
pub proof fn lemma_begin_nn(v: Begin)
    ensures begin_enc(v).len() >= 3, begin_enc(v)[0] == 0, v.enc() == begin_enc(v), v.wf() == begin_wf(v)
{ lemma_denc(17, Seq::empty()); }
pub closed spec fn begin_wf(v: Begin) -> bool { owf(v.0.remote_channel) && v.0.next_outgoing_id.wf() && v.0.incoming_window.wf() && v.0.outgoing_window.wf() && v.0.handle_max.wf() && owf(v.0.offered_capabilities) && owf(v.0.desired_capabilities) && owf(v.0.properties) }
pub proof fn lemma_begin_fields(v: Begin)
    requires begin_wf(v), begin_fenc(v).len() <= u32::MAX
    ensures begin_fdec(begin_fenc(v), 8) == Some((v, Seq::<u8>::empty())), begin_fenc(v).len() >= 8
{
    let r8 = Seq::<u8>::empty();
    let r7 = v.0.properties.enc() + r8;
    let r6 = v.0.desired_capabilities.enc() + r7;
    let r5 = v.0.offered_capabilities.enc() + r6;
    let r4 = v.0.handle_max.enc() + r5;
    let r3 = v.0.outgoing_window.enc() + r4;
    let r2 = v.0.incoming_window.enc() + r3;
    let r1 = v.0.next_outgoing_id.enc() + r2;
    let r0 = v.0.remote_channel.enc() + r1;
    lemma_begin_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.remote_channel.enc(), r1); let p1 = p0 + v.0.remote_channel.enc();
    seq_assoc(p1, v.0.next_outgoing_id.enc(), r2); let p2 = p1 + v.0.next_outgoing_id.enc();
    seq_assoc(p2, v.0.incoming_window.enc(), r3); let p3 = p2 + v.0.incoming_window.enc();
    seq_assoc(p3, v.0.outgoing_window.enc(), r4); let p4 = p3 + v.0.outgoing_window.enc();
    seq_assoc(p4, v.0.handle_max.enc(), r5); let p5 = p4 + v.0.handle_max.enc();
    seq_assoc(p5, v.0.offered_capabilities.enc(), r6); let p6 = p5 + v.0.offered_capabilities.enc();
    seq_assoc(p6, v.0.desired_capabilities.enc(), r7); let p7 = p6 + v.0.desired_capabilities.enc();
    seq_assoc(p7, v.0.properties.enc(), r8); let p8 = p7 + v.0.properties.enc();
    assert(p8 + r8 =~= p8);
    lemma_fopt(v.0.remote_channel, r1, 8 - 0);
    lemma_nn_opt(v.0.remote_channel);
    lemma_fman(v.0.next_outgoing_id, r2, 8 - 1);
    u32::nn(v.0.next_outgoing_id);
    lemma_fman(v.0.incoming_window, r3, 8 - 2);
    u32::nn(v.0.incoming_window);
    lemma_fman(v.0.outgoing_window, r4, 8 - 3);
    u32::nn(v.0.outgoing_window);
    lemma_fdef(v.0.handle_max, r5, 8 - 4);
    u32::nn(v.0.handle_max);
    lemma_fopt(v.0.offered_capabilities, r6, 8 - 5);
    lemma_nn_opt(v.0.offered_capabilities);
    lemma_fopt(v.0.desired_capabilities, r7, 8 - 6);
    lemma_nn_opt(v.0.desired_capabilities);
    lemma_fopt(v.0.properties, r8, 8 - 7);
    lemma_nn_opt(v.0.properties);
    assert(begin_fenc(v) == r0);
}
pub proof fn lemma_begin_rt(v: Begin, rest: Seq<u8>)
    requires begin_wf(v), begin_enc(v).len() <= u32::MAX
    ensures begin_enc(v).len() >= 1, begin_enc(v)[0] == 0, Descriptor::dec((begin_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(17), enc_comp(0xc0, 0xd0, 8, begin_fenc(v)) + rest)),
        begin_idec(enc_comp(0xc0, 0xd0, 8, begin_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 8, begin_fenc(v)) + rest;
    lemma_denc(17, l);
    lemma_comp_len(0xc0, 0xd0, 8, begin_fenc(v));
    lemma_begin_fields(v);
    lemma_list_split(8, begin_fenc(v), rest);
    assert(begin_enc(v) + rest =~= denc(17) + l);
}
impl RoundTrip for Begin {
    closed spec fn wf(&self) -> bool { begin_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_begin_rt(v, rest); }
}
impl NotNull for Begin { proof fn nn(v: Self) { lemma_denc(17, Seq::empty()); } }

} // verus!
}
pub use m_begin::*;
// ---- Attach
pub mod m_attach {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn attach_fapp(b: Seq<u8>, v: Attach) -> Seq<u8> { b + v.0.name.enc() + v.0.handle.enc() + v.0.role.enc() + v.0.snd_settle_mode.enc() + v.0.rcv_settle_mode.enc() + v.0.source.enc() + v.0.target.enc() + v.0.unsettled.enc() + v.0.incomplete_unsettled.enc() + v.0.initial_delivery_count.enc() + v.0.max_message_size.enc() + v.0.offered_capabilities.enc() + v.0.desired_capabilities.enc() + v.0.properties.enc() }
pub closed spec fn attach_fenc(v: Attach) -> Seq<u8> { attach_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn attach_enc(v: Attach) -> Seq<u8> { denc(18) + (enc_comp(0xc0, 0xd0, 14, attach_fenc(v))) }
pub proof fn lemma_attach_app(b: Seq<u8>, v: Attach)
    ensures attach_fapp(b, v) == b + attach_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.name.enc()); let p1 = p0 + v.0.name.enc();
    seq_assoc(b, p1, v.0.handle.enc()); let p2 = p1 + v.0.handle.enc();
    seq_assoc(b, p2, v.0.role.enc()); let p3 = p2 + v.0.role.enc();
    seq_assoc(b, p3, v.0.snd_settle_mode.enc()); let p4 = p3 + v.0.snd_settle_mode.enc();
    seq_assoc(b, p4, v.0.rcv_settle_mode.enc()); let p5 = p4 + v.0.rcv_settle_mode.enc();
    seq_assoc(b, p5, v.0.source.enc()); let p6 = p5 + v.0.source.enc();
    seq_assoc(b, p6, v.0.target.enc()); let p7 = p6 + v.0.target.enc();
    seq_assoc(b, p7, v.0.unsettled.enc()); let p8 = p7 + v.0.unsettled.enc();
    seq_assoc(b, p8, v.0.incomplete_unsettled.enc()); let p9 = p8 + v.0.incomplete_unsettled.enc();
    seq_assoc(b, p9, v.0.initial_delivery_count.enc()); let p10 = p9 + v.0.initial_delivery_count.enc();
    seq_assoc(b, p10, v.0.max_message_size.enc()); let p11 = p10 + v.0.max_message_size.enc();
    seq_assoc(b, p11, v.0.offered_capabilities.enc()); let p12 = p11 + v.0.offered_capabilities.enc();
    seq_assoc(b, p12, v.0.desired_capabilities.enc()); let p13 = p12 + v.0.desired_capabilities.enc();
    seq_assoc(b, p13, v.0.properties.enc()); let p14 = p13 + v.0.properties.enc();
}
pub proof fn lemma_attach_put(b: Seq<u8>, v: Attach)
    ensures
        denc(18).len() == 3,
        attach_fapp(comp_hdr(b + denc(18), 14, attach_fenc(v).len()), v) == b + (denc(18) + enc_comp(0xc0, 0xd0, 14, attach_fenc(v))),
        attach_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 14, attach_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 14, attach_fenc(v)).len() == attach_fenc(v).len() + (if attach_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        attach_fenc(v).len() == 0 + v.0.name.enc().len() + v.0.handle.enc().len() + v.0.role.enc().len() + v.0.snd_settle_mode.enc().len() + v.0.rcv_settle_mode.enc().len() + v.0.source.enc().len() + v.0.target.enc().len() + v.0.unsettled.enc().len() + v.0.incomplete_unsettled.enc().len() + v.0.initial_delivery_count.enc().len() + v.0.max_message_size.enc().len() + v.0.offered_capabilities.enc().len() + v.0.desired_capabilities.enc().len() + v.0.properties.enc().len(),
{
    let c = attach_fenc(v);
    lemma_denc(18, Seq::empty());
    lemma_attach_app(comp_hdr(b + denc(18), 14, c.len()), v);
    lemma_comp_hdr(b + denc(18), 14, c);
    seq_assoc(b, denc(18), enc_comp(0xc0, 0xd0, 14, c));
    lemma_comp_len(0xc0, 0xd0, 14, c);
}
pub closed spec fn attach_fdec(s0: Seq<u8>, n: int) -> Option<(Attach, Seq<u8>)> {
    match fman::<ByteString>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fman::<Role>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<SenderSettleMode>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<ReceiverSettleMode>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<Source>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<Target>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<HashMap<Variant, Variant>>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<u32>(s9, n - 9) { None => None, Some((f9, s10)) =>
    match fopt::<u64>(s10, n - 10) { None => None, Some((f10, s11)) =>
    match fopt::<Multiple<Symbol>>(s11, n - 11) { None => None, Some((f11, s12)) =>
    match fopt::<Multiple<Symbol>>(s12, n - 12) { None => None, Some((f12, s13)) =>
    match fopt::<HashMap<Symbol, Variant>>(s13, n - 13) { None => None, Some((f13, s14)) =>
    Some((Attach(Box::new(AttachInner { name: f0, handle: f1, role: f2, snd_settle_mode: fdef(f3, SenderSettleMode::Mixed), rcv_settle_mode: fdef(f4, ReceiverSettleMode::First), source: f5, target: f6, unsettled: f7, incomplete_unsettled: fdef(f8, false), initial_delivery_count: f9, max_message_size: f10, offered_capabilities: f11, desired_capabilities: f12, properties: f13 })), s14))
    }}}}}}}}}}}}}}
}
pub closed spec fn attach_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<ByteString>(s0, n - 0) { None => fman_rej::<ByteString>(s0, n - 0), Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => fman_rej::<u32>(s1, n - 1), Some((f1, s2)) =>
    match fman::<Role>(s2, n - 2) { None => fman_rej::<Role>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<SenderSettleMode>(s3, n - 3) { None => fopt_rej::<SenderSettleMode>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<ReceiverSettleMode>(s4, n - 4) { None => fopt_rej::<ReceiverSettleMode>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<Source>(s5, n - 5) { None => fopt_rej::<Source>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<Target>(s6, n - 6) { None => fopt_rej::<Target>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<HashMap<Variant, Variant>>(s7, n - 7) { None => fopt_rej::<HashMap<Variant, Variant>>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => fopt_rej::<bool>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<u32>(s9, n - 9) { None => fopt_rej::<u32>(s9, n - 9), Some((f9, s10)) =>
    match fopt::<u64>(s10, n - 10) { None => fopt_rej::<u64>(s10, n - 10), Some((f10, s11)) =>
    match fopt::<Multiple<Symbol>>(s11, n - 11) { None => fopt_rej::<Multiple<Symbol>>(s11, n - 11), Some((f11, s12)) =>
    match fopt::<Multiple<Symbol>>(s12, n - 12) { None => fopt_rej::<Multiple<Symbol>>(s12, n - 12), Some((f12, s13)) =>
    match fopt::<HashMap<Symbol, Variant>>(s13, n - 13) { None => fopt_rej::<HashMap<Symbol, Variant>>(s13, n - 13), Some((f13, s14)) =>
    false
    }}}}}}}}}}}}}}
}
pub closed spec fn attach_idec(s: Seq<u8>) -> Option<(Attach, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match attach_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 14 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn attach_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => attach_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Attach
//@method FIELD_COUNT
    ensures r == 14
//@end
//@fn codec/src/protocol/definitions.rs decode_attach_inner
    ensures
        suffix(final(input)@, old(input)@),
        match attach_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Attach, AmqpParseError>(v) && final(input)@ == rest,
            None => attach_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_attach_inner
    requires attach_enc(*list).len() <= u32::MAX
    ensures r == attach_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_attach_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_attach_inner
    requires attach_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + attach_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_attach_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Attach"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 18, lit!("amqp:attach:list")) { attach_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 18, lit!("amqp:attach:list")) || attach_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Attach"
    closed spec fn enc(&self) -> Seq<u8> { attach_enc(*self) }
//@end
pub proof fn lemma_attach_nn(v: Attach)
    ensures attach_enc(v).len() >= 3, attach_enc(v)[0] == 0, v.enc() == attach_enc(v), v.wf() == attach_wf(v)
{ lemma_denc(18, Seq::empty()); }
pub closed spec fn attach_wf(v: Attach) -> bool { v.0.name.wf() && v.0.handle.wf() && v.0.role.wf() && v.0.snd_settle_mode.wf() && v.0.rcv_settle_mode.wf() && owf(v.0.source) && owf(v.0.target) && owf(v.0.unsettled) && v.0.incomplete_unsettled.wf() && owf(v.0.initial_delivery_count) && owf(v.0.max_message_size) && owf(v.0.offered_capabilities) && owf(v.0.desired_capabilities) && owf(v.0.properties) }
pub proof fn lemma_attach_fields(v: Attach)
    requires attach_wf(v), attach_fenc(v).len() <= u32::MAX
    ensures attach_fdec(attach_fenc(v), 14) == Some((v, Seq::<u8>::empty())), attach_fenc(v).len() >= 14
{
    let r14 = Seq::<u8>::empty();
    let r13 = v.0.properties.enc() + r14;
    let r12 = v.0.desired_capabilities.enc() + r13;
    let r11 = v.0.offered_capabilities.enc() + r12;
    let r10 = v.0.max_message_size.enc() + r11;
    let r9 = v.0.initial_delivery_count.enc() + r10;
    let r8 = v.0.incomplete_unsettled.enc() + r9;
    let r7 = v.0.unsettled.enc() + r8;
    let r6 = v.0.target.enc() + r7;
    let r5 = v.0.source.enc() + r6;
    let r4 = v.0.rcv_settle_mode.enc() + r5;
    let r3 = v.0.snd_settle_mode.enc() + r4;
    let r2 = v.0.role.enc() + r3;
    let r1 = v.0.handle.enc() + r2;
    let r0 = v.0.name.enc() + r1;
    lemma_attach_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.name.enc(), r1); let p1 = p0 + v.0.name.enc();
    seq_assoc(p1, v.0.handle.enc(), r2); let p2 = p1 + v.0.handle.enc();
    seq_assoc(p2, v.0.role.enc(), r3); let p3 = p2 + v.0.role.enc();
    seq_assoc(p3, v.0.snd_settle_mode.enc(), r4); let p4 = p3 + v.0.snd_settle_mode.enc();
    seq_assoc(p4, v.0.rcv_settle_mode.enc(), r5); let p5 = p4 + v.0.rcv_settle_mode.enc();
    seq_assoc(p5, v.0.source.enc(), r6); let p6 = p5 + v.0.source.enc();
    seq_assoc(p6, v.0.target.enc(), r7); let p7 = p6 + v.0.target.enc();
    seq_assoc(p7, v.0.unsettled.enc(), r8); let p8 = p7 + v.0.unsettled.enc();
    seq_assoc(p8, v.0.incomplete_unsettled.enc(), r9); let p9 = p8 + v.0.incomplete_unsettled.enc();
    seq_assoc(p9, v.0.initial_delivery_count.enc(), r10); let p10 = p9 + v.0.initial_delivery_count.enc();
    seq_assoc(p10, v.0.max_message_size.enc(), r11); let p11 = p10 + v.0.max_message_size.enc();
    seq_assoc(p11, v.0.offered_capabilities.enc(), r12); let p12 = p11 + v.0.offered_capabilities.enc();
    seq_assoc(p12, v.0.desired_capabilities.enc(), r13); let p13 = p12 + v.0.desired_capabilities.enc();
    seq_assoc(p13, v.0.properties.enc(), r14); let p14 = p13 + v.0.properties.enc();
    assert(p14 + r14 =~= p14);
    lemma_fman(v.0.name, r1, 14 - 0);
    ByteString::nn(v.0.name);
    lemma_fman(v.0.handle, r2, 14 - 1);
    u32::nn(v.0.handle);
    lemma_fman(v.0.role, r3, 14 - 2);
    Role::nn(v.0.role);
    lemma_fdef(v.0.snd_settle_mode, r4, 14 - 3);
    SenderSettleMode::nn(v.0.snd_settle_mode);
    lemma_fdef(v.0.rcv_settle_mode, r5, 14 - 4);
    ReceiverSettleMode::nn(v.0.rcv_settle_mode);
    lemma_fopt(v.0.source, r6, 14 - 5);
    lemma_nn_opt(v.0.source);
    lemma_fopt(v.0.target, r7, 14 - 6);
    lemma_nn_opt(v.0.target);
    lemma_fopt(v.0.unsettled, r8, 14 - 7);
    lemma_nn_opt(v.0.unsettled);
    lemma_fdef(v.0.incomplete_unsettled, r9, 14 - 8);
    bool::nn(v.0.incomplete_unsettled);
    lemma_fopt(v.0.initial_delivery_count, r10, 14 - 9);
    lemma_nn_opt(v.0.initial_delivery_count);
    lemma_fopt(v.0.max_message_size, r11, 14 - 10);
    lemma_nn_opt(v.0.max_message_size);
    lemma_fopt(v.0.offered_capabilities, r12, 14 - 11);
    lemma_nn_opt(v.0.offered_capabilities);
    lemma_fopt(v.0.desired_capabilities, r13, 14 - 12);
    lemma_nn_opt(v.0.desired_capabilities);
    lemma_fopt(v.0.properties, r14, 14 - 13);
    lemma_nn_opt(v.0.properties);
    assert(attach_fenc(v) == r0);
}
pub proof fn lemma_attach_rt(v: Attach, rest: Seq<u8>)
    requires attach_wf(v), attach_enc(v).len() <= u32::MAX
    ensures attach_enc(v).len() >= 1, attach_enc(v)[0] == 0, Descriptor::dec((attach_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(18), enc_comp(0xc0, 0xd0, 14, attach_fenc(v)) + rest)),
        attach_idec(enc_comp(0xc0, 0xd0, 14, attach_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 14, attach_fenc(v)) + rest;
    lemma_denc(18, l);
    lemma_comp_len(0xc0, 0xd0, 14, attach_fenc(v));
    lemma_attach_fields(v);
    lemma_list_split(14, attach_fenc(v), rest);
    assert(attach_enc(v) + rest =~= denc(18) + l);
}
impl RoundTrip for Attach {
    closed spec fn wf(&self) -> bool { attach_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_attach_rt(v, rest); }
}
impl NotNull for Attach { proof fn nn(v: Self) { lemma_denc(18, Seq::empty()); } }

} // verus!
}
pub use m_attach::*;
// ---- Flow
pub mod m_flow {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn flow_fapp(b: Seq<u8>, v: Flow) -> Seq<u8> { b + v.0.next_incoming_id.enc() + v.0.incoming_window.enc() + v.0.next_outgoing_id.enc() + v.0.outgoing_window.enc() + v.0.handle.enc() + v.0.delivery_count.enc() + v.0.link_credit.enc() + v.0.available.enc() + v.0.drain.enc() + v.0.echo.enc() + v.0.properties.enc() }
pub closed spec fn flow_fenc(v: Flow) -> Seq<u8> { flow_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn flow_enc(v: Flow) -> Seq<u8> { denc(19) + (enc_comp(0xc0, 0xd0, 11, flow_fenc(v))) }
pub proof fn lemma_flow_app(b: Seq<u8>, v: Flow)
    ensures flow_fapp(b, v) == b + flow_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.next_incoming_id.enc()); let p1 = p0 + v.0.next_incoming_id.enc();
    seq_assoc(b, p1, v.0.incoming_window.enc()); let p2 = p1 + v.0.incoming_window.enc();
    seq_assoc(b, p2, v.0.next_outgoing_id.enc()); let p3 = p2 + v.0.next_outgoing_id.enc();
    seq_assoc(b, p3, v.0.outgoing_window.enc()); let p4 = p3 + v.0.outgoing_window.enc();
    seq_assoc(b, p4, v.0.handle.enc()); let p5 = p4 + v.0.handle.enc();
    seq_assoc(b, p5, v.0.delivery_count.enc()); let p6 = p5 + v.0.delivery_count.enc();
    seq_assoc(b, p6, v.0.link_credit.enc()); let p7 = p6 + v.0.link_credit.enc();
    seq_assoc(b, p7, v.0.available.enc()); let p8 = p7 + v.0.available.enc();
    seq_assoc(b, p8, v.0.drain.enc()); let p9 = p8 + v.0.drain.enc();
    seq_assoc(b, p9, v.0.echo.enc()); let p10 = p9 + v.0.echo.enc();
    seq_assoc(b, p10, v.0.properties.enc()); let p11 = p10 + v.0.properties.enc();
}
pub proof fn lemma_flow_put(b: Seq<u8>, v: Flow)
    ensures
        denc(19).len() == 3,
        flow_fapp(comp_hdr(b + denc(19), 11, flow_fenc(v).len()), v) == b + (denc(19) + enc_comp(0xc0, 0xd0, 11, flow_fenc(v))),
        flow_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 11, flow_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 11, flow_fenc(v)).len() == flow_fenc(v).len() + (if flow_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        flow_fenc(v).len() == 0 + v.0.next_incoming_id.enc().len() + v.0.incoming_window.enc().len() + v.0.next_outgoing_id.enc().len() + v.0.outgoing_window.enc().len() + v.0.handle.enc().len() + v.0.delivery_count.enc().len() + v.0.link_credit.enc().len() + v.0.available.enc().len() + v.0.drain.enc().len() + v.0.echo.enc().len() + v.0.properties.enc().len(),
{
    let c = flow_fenc(v);
    lemma_denc(19, Seq::empty());
    lemma_flow_app(comp_hdr(b + denc(19), 11, c.len()), v);
    lemma_comp_hdr(b + denc(19), 11, c);
    seq_assoc(b, denc(19), enc_comp(0xc0, 0xd0, 11, c));
    lemma_comp_len(0xc0, 0xd0, 11, c);
}
pub closed spec fn flow_fdec(s0: Seq<u8>, n: int) -> Option<(Flow, Seq<u8>)> {
    match fopt::<u32>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fman::<u32>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fman::<u32>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<u32>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<u32>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<u32>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<bool>(s9, n - 9) { None => None, Some((f9, s10)) =>
    match fopt::<HashMap<Symbol, Variant>>(s10, n - 10) { None => None, Some((f10, s11)) =>
    Some((Flow(Box::new(FlowInner { next_incoming_id: f0, incoming_window: f1, next_outgoing_id: f2, outgoing_window: f3, handle: f4, delivery_count: f5, link_credit: f6, available: f7, drain: fdef(f8, false), echo: fdef(f9, false), properties: f10 })), s11))
    }}}}}}}}}}}
}
pub closed spec fn flow_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<u32>(s0, n - 0) { None => fopt_rej::<u32>(s0, n - 0), Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => fman_rej::<u32>(s1, n - 1), Some((f1, s2)) =>
    match fman::<u32>(s2, n - 2) { None => fman_rej::<u32>(s2, n - 2), Some((f2, s3)) =>
    match fman::<u32>(s3, n - 3) { None => fman_rej::<u32>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => fopt_rej::<u32>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<u32>(s5, n - 5) { None => fopt_rej::<u32>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<u32>(s6, n - 6) { None => fopt_rej::<u32>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<u32>(s7, n - 7) { None => fopt_rej::<u32>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => fopt_rej::<bool>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<bool>(s9, n - 9) { None => fopt_rej::<bool>(s9, n - 9), Some((f9, s10)) =>
    match fopt::<HashMap<Symbol, Variant>>(s10, n - 10) { None => fopt_rej::<HashMap<Symbol, Variant>>(s10, n - 10), Some((f10, s11)) =>
    false
    }}}}}}}}}}}
}
pub closed spec fn flow_idec(s: Seq<u8>) -> Option<(Flow, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match flow_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 11 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn flow_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => flow_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Flow
//@method FIELD_COUNT
    ensures r == 11
//@end
//@fn codec/src/protocol/definitions.rs decode_flow_inner
    ensures
        suffix(final(input)@, old(input)@),
        match flow_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Flow, AmqpParseError>(v) && final(input)@ == rest,
            None => flow_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_flow_inner
    requires flow_enc(*list).len() <= u32::MAX
    ensures r == flow_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_flow_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_flow_inner
    requires flow_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + flow_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_flow_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Flow"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 19, lit!("amqp:flow:list")) { flow_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 19, lit!("amqp:flow:list")) || flow_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Flow"
    closed spec fn enc(&self) -> Seq<u8> { flow_enc(*self) }
//@end
pub proof fn lemma_flow_nn(v: Flow)
    ensures flow_enc(v).len() >= 3, flow_enc(v)[0] == 0, v.enc() == flow_enc(v), v.wf() == flow_wf(v)
{ lemma_denc(19, Seq::empty()); }
pub closed spec fn flow_wf(v: Flow) -> bool { owf(v.0.next_incoming_id) && v.0.incoming_window.wf() && v.0.next_outgoing_id.wf() && v.0.outgoing_window.wf() && owf(v.0.handle) && owf(v.0.delivery_count) && owf(v.0.link_credit) && owf(v.0.available) && v.0.drain.wf() && v.0.echo.wf() && owf(v.0.properties) }
pub proof fn lemma_flow_fields(v: Flow)
    requires flow_wf(v), flow_fenc(v).len() <= u32::MAX
    ensures flow_fdec(flow_fenc(v), 11) == Some((v, Seq::<u8>::empty())), flow_fenc(v).len() >= 11
{
    let r11 = Seq::<u8>::empty();
    let r10 = v.0.properties.enc() + r11;
    let r9 = v.0.echo.enc() + r10;
    let r8 = v.0.drain.enc() + r9;
    let r7 = v.0.available.enc() + r8;
    let r6 = v.0.link_credit.enc() + r7;
    let r5 = v.0.delivery_count.enc() + r6;
    let r4 = v.0.handle.enc() + r5;
    let r3 = v.0.outgoing_window.enc() + r4;
    let r2 = v.0.next_outgoing_id.enc() + r3;
    let r1 = v.0.incoming_window.enc() + r2;
    let r0 = v.0.next_incoming_id.enc() + r1;
    lemma_flow_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.next_incoming_id.enc(), r1); let p1 = p0 + v.0.next_incoming_id.enc();
    seq_assoc(p1, v.0.incoming_window.enc(), r2); let p2 = p1 + v.0.incoming_window.enc();
    seq_assoc(p2, v.0.next_outgoing_id.enc(), r3); let p3 = p2 + v.0.next_outgoing_id.enc();
    seq_assoc(p3, v.0.outgoing_window.enc(), r4); let p4 = p3 + v.0.outgoing_window.enc();
    seq_assoc(p4, v.0.handle.enc(), r5); let p5 = p4 + v.0.handle.enc();
    seq_assoc(p5, v.0.delivery_count.enc(), r6); let p6 = p5 + v.0.delivery_count.enc();
    seq_assoc(p6, v.0.link_credit.enc(), r7); let p7 = p6 + v.0.link_credit.enc();
    seq_assoc(p7, v.0.available.enc(), r8); let p8 = p7 + v.0.available.enc();
    seq_assoc(p8, v.0.drain.enc(), r9); let p9 = p8 + v.0.drain.enc();
    seq_assoc(p9, v.0.echo.enc(), r10); let p10 = p9 + v.0.echo.enc();
    seq_assoc(p10, v.0.properties.enc(), r11); let p11 = p10 + v.0.properties.enc();
    assert(p11 + r11 =~= p11);
    lemma_fopt(v.0.next_incoming_id, r1, 11 - 0);
    lemma_nn_opt(v.0.next_incoming_id);
    lemma_fman(v.0.incoming_window, r2, 11 - 1);
    u32::nn(v.0.incoming_window);
    lemma_fman(v.0.next_outgoing_id, r3, 11 - 2);
    u32::nn(v.0.next_outgoing_id);
    lemma_fman(v.0.outgoing_window, r4, 11 - 3);
    u32::nn(v.0.outgoing_window);
    lemma_fopt(v.0.handle, r5, 11 - 4);
    lemma_nn_opt(v.0.handle);
    lemma_fopt(v.0.delivery_count, r6, 11 - 5);
    lemma_nn_opt(v.0.delivery_count);
    lemma_fopt(v.0.link_credit, r7, 11 - 6);
    lemma_nn_opt(v.0.link_credit);
    lemma_fopt(v.0.available, r8, 11 - 7);
    lemma_nn_opt(v.0.available);
    lemma_fdef(v.0.drain, r9, 11 - 8);
    bool::nn(v.0.drain);
    lemma_fdef(v.0.echo, r10, 11 - 9);
    bool::nn(v.0.echo);
    lemma_fopt(v.0.properties, r11, 11 - 10);
    lemma_nn_opt(v.0.properties);
    assert(flow_fenc(v) == r0);
}
pub proof fn lemma_flow_rt(v: Flow, rest: Seq<u8>)
    requires flow_wf(v), flow_enc(v).len() <= u32::MAX
    ensures flow_enc(v).len() >= 1, flow_enc(v)[0] == 0, Descriptor::dec((flow_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(19), enc_comp(0xc0, 0xd0, 11, flow_fenc(v)) + rest)),
        flow_idec(enc_comp(0xc0, 0xd0, 11, flow_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 11, flow_fenc(v)) + rest;
    lemma_denc(19, l);
    lemma_comp_len(0xc0, 0xd0, 11, flow_fenc(v));
    lemma_flow_fields(v);
    lemma_list_split(11, flow_fenc(v), rest);
    assert(flow_enc(v) + rest =~= denc(19) + l);
}
impl RoundTrip for Flow {
    closed spec fn wf(&self) -> bool { flow_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_flow_rt(v, rest); }
}
impl NotNull for Flow { proof fn nn(v: Self) { lemma_denc(19, Seq::empty()); } }

} // verus!
}
pub use m_flow::*;
// ---- Transfer
pub mod m_transfer {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn transfer_fapp(b: Seq<u8>, v: Transfer) -> Seq<u8> { b + v.0.handle.enc() + v.0.delivery_id.enc() + v.0.delivery_tag.enc() + v.0.message_format.enc() + v.0.settled.enc() + v.0.more.enc() + v.0.rcv_settle_mode.enc() + v.0.state.enc() + v.0.resume.enc() + v.0.aborted.enc() + v.0.batchable.enc() }
pub closed spec fn transfer_fenc(v: Transfer) -> Seq<u8> { transfer_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn transfer_enc(v: Transfer) -> Seq<u8> { denc(20) + (enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)) + (match v.0.body { Some(b) => b.enc(), None => Seq::<u8>::empty() })) }
pub proof fn lemma_transfer_app(b: Seq<u8>, v: Transfer)
    ensures transfer_fapp(b, v) == b + transfer_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.handle.enc()); let p1 = p0 + v.0.handle.enc();
    seq_assoc(b, p1, v.0.delivery_id.enc()); let p2 = p1 + v.0.delivery_id.enc();
    seq_assoc(b, p2, v.0.delivery_tag.enc()); let p3 = p2 + v.0.delivery_tag.enc();
    seq_assoc(b, p3, v.0.message_format.enc()); let p4 = p3 + v.0.message_format.enc();
    seq_assoc(b, p4, v.0.settled.enc()); let p5 = p4 + v.0.settled.enc();
    seq_assoc(b, p5, v.0.more.enc()); let p6 = p5 + v.0.more.enc();
    seq_assoc(b, p6, v.0.rcv_settle_mode.enc()); let p7 = p6 + v.0.rcv_settle_mode.enc();
    seq_assoc(b, p7, v.0.state.enc()); let p8 = p7 + v.0.state.enc();
    seq_assoc(b, p8, v.0.resume.enc()); let p9 = p8 + v.0.resume.enc();
    seq_assoc(b, p9, v.0.aborted.enc()); let p10 = p9 + v.0.aborted.enc();
    seq_assoc(b, p10, v.0.batchable.enc()); let p11 = p10 + v.0.batchable.enc();
}
pub proof fn lemma_transfer_put(b: Seq<u8>, v: Transfer)
    ensures
        denc(20).len() == 3,
        transfer_fapp(comp_hdr(b + denc(20), 11, transfer_fenc(v).len()), v) == b + (denc(20) + enc_comp(0xc0, 0xd0, 11, transfer_fenc(v))),
        transfer_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)).len() + (match v.0.body { Some(b) => b.enc().len(), None => 0nat }),
        enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)).len() == transfer_fenc(v).len() + (if transfer_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        transfer_fenc(v).len() == 0 + v.0.handle.enc().len() + v.0.delivery_id.enc().len() + v.0.delivery_tag.enc().len() + v.0.message_format.enc().len() + v.0.settled.enc().len() + v.0.more.enc().len() + v.0.rcv_settle_mode.enc().len() + v.0.state.enc().len() + v.0.resume.enc().len() + v.0.aborted.enc().len() + v.0.batchable.enc().len(),
{
    let c = transfer_fenc(v);
    lemma_denc(20, Seq::empty());
    lemma_transfer_app(comp_hdr(b + denc(20), 11, c.len()), v);
    lemma_comp_hdr(b + denc(20), 11, c);
    seq_assoc(b, denc(20), enc_comp(0xc0, 0xd0, 11, c));
    lemma_comp_len(0xc0, 0xd0, 11, c);
}
pub closed spec fn transfer_fdec(s0: Seq<u8>, n: int, body: Option<TransferBody>) -> Option<(Transfer, Seq<u8>)> {
    match fman::<u32>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<u32>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<Bytes>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<bool>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<ReceiverSettleMode>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<DeliveryState>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<bool>(s9, n - 9) { None => None, Some((f9, s10)) =>
    match fopt::<bool>(s10, n - 10) { None => None, Some((f10, s11)) =>
    Some((Transfer(Box::new(TransferInner { handle: f0, delivery_id: f1, delivery_tag: f2, message_format: f3, settled: f4, more: fdef(f5, false), rcv_settle_mode: f6, state: f7, resume: fdef(f8, false), aborted: fdef(f9, false), batchable: fdef(f10, false), body })), s11))
    }}}}}}}}}}}
}
pub closed spec fn transfer_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<u32>(s0, n - 0) { None => fman_rej::<u32>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<u32>(s1, n - 1) { None => fopt_rej::<u32>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<Bytes>(s2, n - 2) { None => fopt_rej::<Bytes>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => fopt_rej::<u32>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => fopt_rej::<bool>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<bool>(s5, n - 5) { None => fopt_rej::<bool>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<ReceiverSettleMode>(s6, n - 6) { None => fopt_rej::<ReceiverSettleMode>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<DeliveryState>(s7, n - 7) { None => fopt_rej::<DeliveryState>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<bool>(s8, n - 8) { None => fopt_rej::<bool>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<bool>(s9, n - 9) { None => fopt_rej::<bool>(s9, n - 9), Some((f9, s10)) =>
    match fopt::<bool>(s10, n - 10) { None => fopt_rej::<bool>(s10, n - 10), Some((f10, s11)) =>
    false
    }}}}}}}}}}}
}
pub closed spec fn transfer_idec(s: Seq<u8>) -> Option<(Transfer, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match transfer_fdec(data, count as int, if r.len() == 0 { None } else { Some(TransferBody::Data(Bytes { s: Ghost(r) })) }) { Some((v, r2)) => if r2.len() == 0 && count <= 11 { Some((v, Seq::<u8>::empty())) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn transfer_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => transfer_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Transfer
//@method FIELD_COUNT
    ensures r == 11
//@end
//@fn codec/src/protocol/definitions.rs decode_transfer_inner
    ensures
        suffix(final(input)@, old(input)@),
        match transfer_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Transfer, AmqpParseError>(v) && final(input)@ == rest,
            None => transfer_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_transfer_inner
    requires transfer_enc(*list).len() <= u32::MAX
    ensures r == transfer_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_transfer_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_transfer_inner
    requires transfer_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + transfer_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_transfer_put(buf@, v); if v.0.body is Some { seq_assoc(buf@, denc(20) + enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)), v.0.body.unwrap().enc()); seq_assoc(denc(20), enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)), v.0.body.unwrap().enc()); } else { assert(enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)) + Seq::<u8>::empty() =~= enc_comp(0xc0, 0xd0, 11, transfer_fenc(v))); } }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Transfer"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 20, lit!("amqp:transfer:list")) { transfer_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 20, lit!("amqp:transfer:list")) || transfer_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Transfer"
    closed spec fn enc(&self) -> Seq<u8> { transfer_enc(*self) }
//@end
pub proof fn lemma_transfer_nn(v: Transfer)
    ensures transfer_enc(v).len() >= 3, transfer_enc(v)[0] == 0, v.enc() == transfer_enc(v)
{ lemma_denc(20, Seq::empty()); }
pub closed spec fn transfer_wf(v: Transfer) -> bool { v.0.handle.wf() && owf(v.0.delivery_id) && owf(v.0.delivery_tag) && owf(v.0.message_format) && owf(v.0.settled) && v.0.more.wf() && owf(v.0.rcv_settle_mode) && owf(v.0.state) && v.0.resume.wf() && v.0.aborted.wf() && v.0.batchable.wf() && !(v.0.body is Some && v.0.body.unwrap().enc().len() == 0) && (v.0.body is Some ==> v.0.body.unwrap() is Data) }
pub proof fn lemma_transfer_fields(v: Transfer)
    requires transfer_wf(v), transfer_fenc(v).len() <= u32::MAX
    ensures transfer_fdec(transfer_fenc(v), 11, v.0.body) == Some((v, Seq::<u8>::empty())), transfer_fenc(v).len() >= 11
{
    let r11 = Seq::<u8>::empty();
    let r10 = v.0.batchable.enc() + r11;
    let r9 = v.0.aborted.enc() + r10;
    let r8 = v.0.resume.enc() + r9;
    let r7 = v.0.state.enc() + r8;
    let r6 = v.0.rcv_settle_mode.enc() + r7;
    let r5 = v.0.more.enc() + r6;
    let r4 = v.0.settled.enc() + r5;
    let r3 = v.0.message_format.enc() + r4;
    let r2 = v.0.delivery_tag.enc() + r3;
    let r1 = v.0.delivery_id.enc() + r2;
    let r0 = v.0.handle.enc() + r1;
    lemma_transfer_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.handle.enc(), r1); let p1 = p0 + v.0.handle.enc();
    seq_assoc(p1, v.0.delivery_id.enc(), r2); let p2 = p1 + v.0.delivery_id.enc();
    seq_assoc(p2, v.0.delivery_tag.enc(), r3); let p3 = p2 + v.0.delivery_tag.enc();
    seq_assoc(p3, v.0.message_format.enc(), r4); let p4 = p3 + v.0.message_format.enc();
    seq_assoc(p4, v.0.settled.enc(), r5); let p5 = p4 + v.0.settled.enc();
    seq_assoc(p5, v.0.more.enc(), r6); let p6 = p5 + v.0.more.enc();
    seq_assoc(p6, v.0.rcv_settle_mode.enc(), r7); let p7 = p6 + v.0.rcv_settle_mode.enc();
    seq_assoc(p7, v.0.state.enc(), r8); let p8 = p7 + v.0.state.enc();
    seq_assoc(p8, v.0.resume.enc(), r9); let p9 = p8 + v.0.resume.enc();
    seq_assoc(p9, v.0.aborted.enc(), r10); let p10 = p9 + v.0.aborted.enc();
    seq_assoc(p10, v.0.batchable.enc(), r11); let p11 = p10 + v.0.batchable.enc();
    assert(p11 + r11 =~= p11);
    lemma_fman(v.0.handle, r1, 11 - 0);
    u32::nn(v.0.handle);
    lemma_fopt(v.0.delivery_id, r2, 11 - 1);
    lemma_nn_opt(v.0.delivery_id);
    lemma_fopt(v.0.delivery_tag, r3, 11 - 2);
    lemma_nn_opt(v.0.delivery_tag);
    lemma_fopt(v.0.message_format, r4, 11 - 3);
    lemma_nn_opt(v.0.message_format);
    lemma_fopt(v.0.settled, r5, 11 - 4);
    lemma_nn_opt(v.0.settled);
    lemma_fdef(v.0.more, r6, 11 - 5);
    bool::nn(v.0.more);
    lemma_fopt(v.0.rcv_settle_mode, r7, 11 - 6);
    lemma_nn_opt(v.0.rcv_settle_mode);
    lemma_fopt(v.0.state, r8, 11 - 7);
    lemma_nn_opt(v.0.state);
    lemma_fdef(v.0.resume, r9, 11 - 8);
    bool::nn(v.0.resume);
    lemma_fdef(v.0.aborted, r10, 11 - 9);
    bool::nn(v.0.aborted);
    lemma_fdef(v.0.batchable, r11, 11 - 10);
    bool::nn(v.0.batchable);
    assert(transfer_fenc(v) == r0);
}
pub proof fn lemma_transfer_rt(v: Transfer)
    requires transfer_wf(v), v.enc().len() <= u32::MAX
    ensures v.enc().len() >= 1, v.enc()[0] == 0, Descriptor::dec(v.enc().skip(1)) is Some,
        Descriptor::dec(v.enc().skip(1)).unwrap().0 == Descriptor::Ulong(20),
        transfer_idec(Descriptor::dec(v.enc().skip(1)).unwrap().1) == Some((v, Seq::<u8>::empty())),
{
    let b = match v.0.body { Some(b) => b.enc(), None => Seq::<u8>::empty() };
    let l = enc_comp(0xc0, 0xd0, 11, transfer_fenc(v)) + b;
    lemma_denc(20, l);
    lemma_comp_len(0xc0, 0xd0, 11, transfer_fenc(v));
    lemma_transfer_fields(v);
    lemma_list_split(11, transfer_fenc(v), b);
    if v.0.body is Some { lemma_tb_data(v.0.body.unwrap()); }
    if b.len() > 0 { assert(TransferBody::Data(Bytes { s: Ghost(b) }) == v.0.body.unwrap()); }
}
} // verus!
}
pub use m_transfer::*;
// ---- Disposition
pub mod m_disposition {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn disposition_fapp(b: Seq<u8>, v: Disposition) -> Seq<u8> { b + v.0.role.enc() + v.0.first.enc() + v.0.last.enc() + v.0.settled.enc() + v.0.state.enc() + v.0.batchable.enc() }
pub closed spec fn disposition_fenc(v: Disposition) -> Seq<u8> { disposition_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn disposition_enc(v: Disposition) -> Seq<u8> { denc(21) + (enc_comp(0xc0, 0xd0, 6, disposition_fenc(v))) }
pub proof fn lemma_disposition_app(b: Seq<u8>, v: Disposition)
    ensures disposition_fapp(b, v) == b + disposition_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.role.enc()); let p1 = p0 + v.0.role.enc();
    seq_assoc(b, p1, v.0.first.enc()); let p2 = p1 + v.0.first.enc();
    seq_assoc(b, p2, v.0.last.enc()); let p3 = p2 + v.0.last.enc();
    seq_assoc(b, p3, v.0.settled.enc()); let p4 = p3 + v.0.settled.enc();
    seq_assoc(b, p4, v.0.state.enc()); let p5 = p4 + v.0.state.enc();
    seq_assoc(b, p5, v.0.batchable.enc()); let p6 = p5 + v.0.batchable.enc();
}
pub proof fn lemma_disposition_put(b: Seq<u8>, v: Disposition)
    ensures
        denc(21).len() == 3,
        disposition_fapp(comp_hdr(b + denc(21), 6, disposition_fenc(v).len()), v) == b + (denc(21) + enc_comp(0xc0, 0xd0, 6, disposition_fenc(v))),
        disposition_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 6, disposition_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 6, disposition_fenc(v)).len() == disposition_fenc(v).len() + (if disposition_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        disposition_fenc(v).len() == 0 + v.0.role.enc().len() + v.0.first.enc().len() + v.0.last.enc().len() + v.0.settled.enc().len() + v.0.state.enc().len() + v.0.batchable.enc().len(),
{
    let c = disposition_fenc(v);
    lemma_denc(21, Seq::empty());
    lemma_disposition_app(comp_hdr(b + denc(21), 6, c.len()), v);
    lemma_comp_hdr(b + denc(21), 6, c);
    seq_assoc(b, denc(21), enc_comp(0xc0, 0xd0, 6, c));
    lemma_comp_len(0xc0, 0xd0, 6, c);
}
pub closed spec fn disposition_fdec(s0: Seq<u8>, n: int) -> Option<(Disposition, Seq<u8>)> {
    match fman::<Role>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<bool>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<DeliveryState>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<bool>(s5, n - 5) { None => None, Some((f5, s6)) =>
    Some((Disposition(Box::new(DispositionInner { role: f0, first: f1, last: f2, settled: fdef(f3, false), state: f4, batchable: fdef(f5, false) })), s6))
    }}}}}}
}
pub closed spec fn disposition_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<Role>(s0, n - 0) { None => fman_rej::<Role>(s0, n - 0), Some((f0, s1)) =>
    match fman::<u32>(s1, n - 1) { None => fman_rej::<u32>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => fopt_rej::<u32>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<bool>(s3, n - 3) { None => fopt_rej::<bool>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<DeliveryState>(s4, n - 4) { None => fopt_rej::<DeliveryState>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<bool>(s5, n - 5) { None => fopt_rej::<bool>(s5, n - 5), Some((f5, s6)) =>
    false
    }}}}}}
}
pub closed spec fn disposition_idec(s: Seq<u8>) -> Option<(Disposition, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match disposition_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 6 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn disposition_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => disposition_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Disposition
//@method FIELD_COUNT
    ensures r == 6
//@end
//@fn codec/src/protocol/definitions.rs decode_disposition_inner
    ensures
        suffix(final(input)@, old(input)@),
        match disposition_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Disposition, AmqpParseError>(v) && final(input)@ == rest,
            None => disposition_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_disposition_inner
    requires disposition_enc(*list).len() <= u32::MAX
    ensures r == disposition_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_disposition_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_disposition_inner
    requires disposition_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + disposition_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_disposition_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Disposition"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 21, lit!("amqp:disposition:list")) { disposition_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 21, lit!("amqp:disposition:list")) || disposition_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Disposition"
    closed spec fn enc(&self) -> Seq<u8> { disposition_enc(*self) }
//@end
pub proof fn lemma_disposition_nn(v: Disposition)
    ensures disposition_enc(v).len() >= 3, disposition_enc(v)[0] == 0, v.enc() == disposition_enc(v), v.wf() == disposition_wf(v)
{ lemma_denc(21, Seq::empty()); }
pub closed spec fn disposition_wf(v: Disposition) -> bool { v.0.role.wf() && v.0.first.wf() && owf(v.0.last) && v.0.settled.wf() && owf(v.0.state) && v.0.batchable.wf() }
pub proof fn lemma_disposition_fields(v: Disposition)
    requires disposition_wf(v), disposition_fenc(v).len() <= u32::MAX
    ensures disposition_fdec(disposition_fenc(v), 6) == Some((v, Seq::<u8>::empty())), disposition_fenc(v).len() >= 6
{
    let r6 = Seq::<u8>::empty();
    let r5 = v.0.batchable.enc() + r6;
    let r4 = v.0.state.enc() + r5;
    let r3 = v.0.settled.enc() + r4;
    let r2 = v.0.last.enc() + r3;
    let r1 = v.0.first.enc() + r2;
    let r0 = v.0.role.enc() + r1;
    lemma_disposition_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.role.enc(), r1); let p1 = p0 + v.0.role.enc();
    seq_assoc(p1, v.0.first.enc(), r2); let p2 = p1 + v.0.first.enc();
    seq_assoc(p2, v.0.last.enc(), r3); let p3 = p2 + v.0.last.enc();
    seq_assoc(p3, v.0.settled.enc(), r4); let p4 = p3 + v.0.settled.enc();
    seq_assoc(p4, v.0.state.enc(), r5); let p5 = p4 + v.0.state.enc();
    seq_assoc(p5, v.0.batchable.enc(), r6); let p6 = p5 + v.0.batchable.enc();
    assert(p6 + r6 =~= p6);
    lemma_fman(v.0.role, r1, 6 - 0);
    Role::nn(v.0.role);
    lemma_fman(v.0.first, r2, 6 - 1);
    u32::nn(v.0.first);
    lemma_fopt(v.0.last, r3, 6 - 2);
    lemma_nn_opt(v.0.last);
    lemma_fdef(v.0.settled, r4, 6 - 3);
    bool::nn(v.0.settled);
    lemma_fopt(v.0.state, r5, 6 - 4);
    lemma_nn_opt(v.0.state);
    lemma_fdef(v.0.batchable, r6, 6 - 5);
    bool::nn(v.0.batchable);
    assert(disposition_fenc(v) == r0);
}
pub proof fn lemma_disposition_rt(v: Disposition, rest: Seq<u8>)
    requires disposition_wf(v), disposition_enc(v).len() <= u32::MAX
    ensures disposition_enc(v).len() >= 1, disposition_enc(v)[0] == 0, Descriptor::dec((disposition_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(21), enc_comp(0xc0, 0xd0, 6, disposition_fenc(v)) + rest)),
        disposition_idec(enc_comp(0xc0, 0xd0, 6, disposition_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 6, disposition_fenc(v)) + rest;
    lemma_denc(21, l);
    lemma_comp_len(0xc0, 0xd0, 6, disposition_fenc(v));
    lemma_disposition_fields(v);
    lemma_list_split(6, disposition_fenc(v), rest);
    assert(disposition_enc(v) + rest =~= denc(21) + l);
}
impl RoundTrip for Disposition {
    closed spec fn wf(&self) -> bool { disposition_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_disposition_rt(v, rest); }
}
impl NotNull for Disposition { proof fn nn(v: Self) { lemma_denc(21, Seq::empty()); } }

} // verus!
}
pub use m_disposition::*;
// ---- Detach
pub mod m_detach {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn detach_fapp(b: Seq<u8>, v: Detach) -> Seq<u8> { b + v.0.handle.enc() + v.0.closed.enc() + v.0.error.enc() }
pub closed spec fn detach_fenc(v: Detach) -> Seq<u8> { detach_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn detach_enc(v: Detach) -> Seq<u8> { denc(22) + (enc_comp(0xc0, 0xd0, 3, detach_fenc(v))) }
pub proof fn lemma_detach_app(b: Seq<u8>, v: Detach)
    ensures detach_fapp(b, v) == b + detach_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.0.handle.enc()); let p1 = p0 + v.0.handle.enc();
    seq_assoc(b, p1, v.0.closed.enc()); let p2 = p1 + v.0.closed.enc();
    seq_assoc(b, p2, v.0.error.enc()); let p3 = p2 + v.0.error.enc();
}
pub proof fn lemma_detach_put(b: Seq<u8>, v: Detach)
    ensures
        denc(22).len() == 3,
        detach_fapp(comp_hdr(b + denc(22), 3, detach_fenc(v).len()), v) == b + (denc(22) + enc_comp(0xc0, 0xd0, 3, detach_fenc(v))),
        detach_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 3, detach_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 3, detach_fenc(v)).len() == detach_fenc(v).len() + (if detach_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        detach_fenc(v).len() == 0 + v.0.handle.enc().len() + v.0.closed.enc().len() + v.0.error.enc().len(),
{
    let c = detach_fenc(v);
    lemma_denc(22, Seq::empty());
    lemma_detach_app(comp_hdr(b + denc(22), 3, c.len()), v);
    lemma_comp_hdr(b + denc(22), 3, c);
    seq_assoc(b, denc(22), enc_comp(0xc0, 0xd0, 3, c));
    lemma_comp_len(0xc0, 0xd0, 3, c);
}
pub closed spec fn detach_fdec(s0: Seq<u8>, n: int) -> Option<(Detach, Seq<u8>)> {
    match fman::<u32>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<bool>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<Error>(s2, n - 2) { None => None, Some((f2, s3)) =>
    Some((Detach(Box::new(DetachInner { handle: f0, closed: fdef(f1, false), error: f2 })), s3))
    }}}
}
pub closed spec fn detach_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<u32>(s0, n - 0) { None => fman_rej::<u32>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<bool>(s1, n - 1) { None => fopt_rej::<bool>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<Error>(s2, n - 2) { None => fopt_rej::<Error>(s2, n - 2), Some((f2, s3)) =>
    false
    }}}
}
pub closed spec fn detach_idec(s: Seq<u8>) -> Option<(Detach, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match detach_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 3 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn detach_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => detach_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Detach
//@method FIELD_COUNT
    ensures r == 3
//@end
//@fn codec/src/protocol/definitions.rs decode_detach_inner
    ensures
        suffix(final(input)@, old(input)@),
        match detach_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Detach, AmqpParseError>(v) && final(input)@ == rest,
            None => detach_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_detach_inner
    requires detach_enc(*list).len() <= u32::MAX
    ensures r == detach_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_detach_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_detach_inner
    requires detach_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + detach_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_detach_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Detach"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 22, lit!("amqp:detach:list")) { detach_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 22, lit!("amqp:detach:list")) || detach_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Detach"
    closed spec fn enc(&self) -> Seq<u8> { detach_enc(*self) }
//@end
pub proof fn lemma_detach_nn(v: Detach)
    ensures detach_enc(v).len() >= 3, detach_enc(v)[0] == 0, v.enc() == detach_enc(v), v.wf() == detach_wf(v)
{ lemma_denc(22, Seq::empty()); }
pub closed spec fn detach_wf(v: Detach) -> bool { v.0.handle.wf() && v.0.closed.wf() && owf(v.0.error) }
pub proof fn lemma_detach_fields(v: Detach)
    requires detach_wf(v), detach_fenc(v).len() <= u32::MAX
    ensures detach_fdec(detach_fenc(v), 3) == Some((v, Seq::<u8>::empty())), detach_fenc(v).len() >= 3
{
    let r3 = Seq::<u8>::empty();
    let r2 = v.0.error.enc() + r3;
    let r1 = v.0.closed.enc() + r2;
    let r0 = v.0.handle.enc() + r1;
    lemma_detach_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.0.handle.enc(), r1); let p1 = p0 + v.0.handle.enc();
    seq_assoc(p1, v.0.closed.enc(), r2); let p2 = p1 + v.0.closed.enc();
    seq_assoc(p2, v.0.error.enc(), r3); let p3 = p2 + v.0.error.enc();
    assert(p3 + r3 =~= p3);
    lemma_fman(v.0.handle, r1, 3 - 0);
    u32::nn(v.0.handle);
    lemma_fdef(v.0.closed, r2, 3 - 1);
    bool::nn(v.0.closed);
    lemma_fopt(v.0.error, r3, 3 - 2);
    lemma_nn_opt(v.0.error);
    assert(detach_fenc(v) == r0);
}
pub proof fn lemma_detach_rt(v: Detach, rest: Seq<u8>)
    requires detach_wf(v), detach_enc(v).len() <= u32::MAX
    ensures detach_enc(v).len() >= 1, detach_enc(v)[0] == 0, Descriptor::dec((detach_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(22), enc_comp(0xc0, 0xd0, 3, detach_fenc(v)) + rest)),
        detach_idec(enc_comp(0xc0, 0xd0, 3, detach_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 3, detach_fenc(v)) + rest;
    lemma_denc(22, l);
    lemma_comp_len(0xc0, 0xd0, 3, detach_fenc(v));
    lemma_detach_fields(v);
    lemma_list_split(3, detach_fenc(v), rest);
    assert(detach_enc(v) + rest =~= denc(22) + l);
}
impl RoundTrip for Detach {
    closed spec fn wf(&self) -> bool { detach_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_detach_rt(v, rest); }
}
impl NotNull for Detach { proof fn nn(v: Self) { lemma_denc(22, Seq::empty()); } }

} // verus!
}
pub use m_detach::*;
// ---- End
pub mod m_end {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn end_fapp(b: Seq<u8>, v: End) -> Seq<u8> { b + v.error.enc() }
pub closed spec fn end_fenc(v: End) -> Seq<u8> { end_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn end_enc(v: End) -> Seq<u8> { denc(23) + (enc_comp(0xc0, 0xd0, 1, end_fenc(v))) }
pub proof fn lemma_end_app(b: Seq<u8>, v: End)
    ensures end_fapp(b, v) == b + end_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.error.enc()); let p1 = p0 + v.error.enc();
}
pub proof fn lemma_end_put(b: Seq<u8>, v: End)
    ensures
        denc(23).len() == 3,
        end_fapp(comp_hdr(b + denc(23), 1, end_fenc(v).len()), v) == b + (denc(23) + enc_comp(0xc0, 0xd0, 1, end_fenc(v))),
        end_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, end_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, end_fenc(v)).len() == end_fenc(v).len() + (if end_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        end_fenc(v).len() == 0 + v.error.enc().len(),
{
    let c = end_fenc(v);
    lemma_denc(23, Seq::empty());
    lemma_end_app(comp_hdr(b + denc(23), 1, c.len()), v);
    lemma_comp_hdr(b + denc(23), 1, c);
    seq_assoc(b, denc(23), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn end_fdec(s0: Seq<u8>, n: int) -> Option<(End, Seq<u8>)> {
    match fopt::<Error>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((End { error: f0 }, s1))
    }
}
pub closed spec fn end_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<Error>(s0, n - 0) { None => fopt_rej::<Error>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn end_idec(s: Seq<u8>) -> Option<(End, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match end_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn end_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => end_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs End
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_end_inner
    ensures
        suffix(final(input)@, old(input)@),
        match end_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<End, AmqpParseError>(v) && final(input)@ == rest,
            None => end_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_end_inner
    requires end_enc(*list).len() <= u32::MAX
    ensures r == end_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_end_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_end_inner
    requires end_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + end_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_end_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for End"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 23, lit!("amqp:end:list")) { end_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 23, lit!("amqp:end:list")) || end_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for End"
    closed spec fn enc(&self) -> Seq<u8> { end_enc(*self) }
//@end
pub proof fn lemma_end_nn(v: End)
    ensures end_enc(v).len() >= 3, end_enc(v)[0] == 0, v.enc() == end_enc(v), v.wf() == end_wf(v)
{ lemma_denc(23, Seq::empty()); }
pub closed spec fn end_wf(v: End) -> bool { owf(v.error) }
pub proof fn lemma_end_fields(v: End)
    requires end_wf(v), end_fenc(v).len() <= u32::MAX
    ensures end_fdec(end_fenc(v), 1) == Some((v, Seq::<u8>::empty())), end_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.error.enc() + r1;
    lemma_end_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.error.enc(), r1); let p1 = p0 + v.error.enc();
    assert(p1 + r1 =~= p1);
    lemma_fopt(v.error, r1, 1 - 0);
    lemma_nn_opt(v.error);
    assert(end_fenc(v) == r0);
}
pub proof fn lemma_end_rt(v: End, rest: Seq<u8>)
    requires end_wf(v), end_enc(v).len() <= u32::MAX
    ensures end_enc(v).len() >= 1, end_enc(v)[0] == 0, Descriptor::dec((end_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(23), enc_comp(0xc0, 0xd0, 1, end_fenc(v)) + rest)),
        end_idec(enc_comp(0xc0, 0xd0, 1, end_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, end_fenc(v)) + rest;
    lemma_denc(23, l);
    lemma_comp_len(0xc0, 0xd0, 1, end_fenc(v));
    lemma_end_fields(v);
    lemma_list_split(1, end_fenc(v), rest);
    assert(end_enc(v) + rest =~= denc(23) + l);
}
impl RoundTrip for End {
    closed spec fn wf(&self) -> bool { end_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_end_rt(v, rest); }
}
impl NotNull for End { proof fn nn(v: Self) { lemma_denc(23, Seq::empty()); } }

} // verus!
}
pub use m_end::*;
// ---- Close
pub mod m_close {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn close_fapp(b: Seq<u8>, v: Close) -> Seq<u8> { b + v.error.enc() }
pub closed spec fn close_fenc(v: Close) -> Seq<u8> { close_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn close_enc(v: Close) -> Seq<u8> { denc(24) + (enc_comp(0xc0, 0xd0, 1, close_fenc(v))) }
pub proof fn lemma_close_app(b: Seq<u8>, v: Close)
    ensures close_fapp(b, v) == b + close_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.error.enc()); let p1 = p0 + v.error.enc();
}
pub proof fn lemma_close_put(b: Seq<u8>, v: Close)
    ensures
        denc(24).len() == 3,
        close_fapp(comp_hdr(b + denc(24), 1, close_fenc(v).len()), v) == b + (denc(24) + enc_comp(0xc0, 0xd0, 1, close_fenc(v))),
        close_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, close_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, close_fenc(v)).len() == close_fenc(v).len() + (if close_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        close_fenc(v).len() == 0 + v.error.enc().len(),
{
    let c = close_fenc(v);
    lemma_denc(24, Seq::empty());
    lemma_close_app(comp_hdr(b + denc(24), 1, c.len()), v);
    lemma_comp_hdr(b + denc(24), 1, c);
    seq_assoc(b, denc(24), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn close_fdec(s0: Seq<u8>, n: int) -> Option<(Close, Seq<u8>)> {
    match fopt::<Error>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((Close { error: f0 }, s1))
    }
}
pub closed spec fn close_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<Error>(s0, n - 0) { None => fopt_rej::<Error>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn close_idec(s: Seq<u8>) -> Option<(Close, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match close_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn close_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => close_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Close
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_close_inner
    ensures
        suffix(final(input)@, old(input)@),
        match close_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Close, AmqpParseError>(v) && final(input)@ == rest,
            None => close_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_close_inner
    requires close_enc(*list).len() <= u32::MAX
    ensures r == close_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_close_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_close_inner
    requires close_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + close_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_close_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Close"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 24, lit!("amqp:close:list")) { close_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 24, lit!("amqp:close:list")) || close_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Close"
    closed spec fn enc(&self) -> Seq<u8> { close_enc(*self) }
//@end
pub proof fn lemma_close_nn(v: Close)
    ensures close_enc(v).len() >= 3, close_enc(v)[0] == 0, v.enc() == close_enc(v), v.wf() == close_wf(v)
{ lemma_denc(24, Seq::empty()); }
pub closed spec fn close_wf(v: Close) -> bool { owf(v.error) }
pub proof fn lemma_close_fields(v: Close)
    requires close_wf(v), close_fenc(v).len() <= u32::MAX
    ensures close_fdec(close_fenc(v), 1) == Some((v, Seq::<u8>::empty())), close_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.error.enc() + r1;
    lemma_close_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.error.enc(), r1); let p1 = p0 + v.error.enc();
    assert(p1 + r1 =~= p1);
    lemma_fopt(v.error, r1, 1 - 0);
    lemma_nn_opt(v.error);
    assert(close_fenc(v) == r0);
}
pub proof fn lemma_close_rt(v: Close, rest: Seq<u8>)
    requires close_wf(v), close_enc(v).len() <= u32::MAX
    ensures close_enc(v).len() >= 1, close_enc(v)[0] == 0, Descriptor::dec((close_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(24), enc_comp(0xc0, 0xd0, 1, close_fenc(v)) + rest)),
        close_idec(enc_comp(0xc0, 0xd0, 1, close_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, close_fenc(v)) + rest;
    lemma_denc(24, l);
    lemma_comp_len(0xc0, 0xd0, 1, close_fenc(v));
    lemma_close_fields(v);
    lemma_list_split(1, close_fenc(v), rest);
    assert(close_enc(v) + rest =~= denc(24) + l);
}
impl RoundTrip for Close {
    closed spec fn wf(&self) -> bool { close_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_close_rt(v, rest); }
}
impl NotNull for Close { proof fn nn(v: Self) { lemma_denc(24, Seq::empty()); } }

} // verus!
}
pub use m_close::*;
// ---- SaslMechanisms
pub mod m_sasl_mechanisms {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn sasl_mechanisms_fapp(b: Seq<u8>, v: SaslMechanisms) -> Seq<u8> { b + v.sasl_server_mechanisms.enc() }
pub closed spec fn sasl_mechanisms_fenc(v: SaslMechanisms) -> Seq<u8> { sasl_mechanisms_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn sasl_mechanisms_enc(v: SaslMechanisms) -> Seq<u8> { denc(64) + (enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v))) }
pub proof fn lemma_sasl_mechanisms_app(b: Seq<u8>, v: SaslMechanisms)
    ensures sasl_mechanisms_fapp(b, v) == b + sasl_mechanisms_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.sasl_server_mechanisms.enc()); let p1 = p0 + v.sasl_server_mechanisms.enc();
}
pub proof fn lemma_sasl_mechanisms_put(b: Seq<u8>, v: SaslMechanisms)
    ensures
        denc(64).len() == 3,
        sasl_mechanisms_fapp(comp_hdr(b + denc(64), 1, sasl_mechanisms_fenc(v).len()), v) == b + (denc(64) + enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v))),
        sasl_mechanisms_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v)).len() == sasl_mechanisms_fenc(v).len() + (if sasl_mechanisms_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        sasl_mechanisms_fenc(v).len() == 0 + v.sasl_server_mechanisms.enc().len(),
{
    let c = sasl_mechanisms_fenc(v);
    lemma_denc(64, Seq::empty());
    lemma_sasl_mechanisms_app(comp_hdr(b + denc(64), 1, c.len()), v);
    lemma_comp_hdr(b + denc(64), 1, c);
    seq_assoc(b, denc(64), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn sasl_mechanisms_fdec(s0: Seq<u8>, n: int) -> Option<(SaslMechanisms, Seq<u8>)> {
    match fman::<Multiple<Symbol>>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((SaslMechanisms { sasl_server_mechanisms: f0 }, s1))
    }
}
pub closed spec fn sasl_mechanisms_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<Multiple<Symbol>>(s0, n - 0) { None => fman_rej::<Multiple<Symbol>>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn sasl_mechanisms_idec(s: Seq<u8>) -> Option<(SaslMechanisms, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match sasl_mechanisms_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn sasl_mechanisms_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => sasl_mechanisms_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs SaslMechanisms
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_sasl_mechanisms_inner
    ensures
        suffix(final(input)@, old(input)@),
        match sasl_mechanisms_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<SaslMechanisms, AmqpParseError>(v) && final(input)@ == rest,
            None => sasl_mechanisms_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_sasl_mechanisms_inner
    requires sasl_mechanisms_enc(*list).len() <= u32::MAX
    ensures r == sasl_mechanisms_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_sasl_mechanisms_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_sasl_mechanisms_inner
    requires sasl_mechanisms_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + sasl_mechanisms_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_sasl_mechanisms_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslMechanisms"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 64, lit!("amqp:sasl-mechanisms:list")) { sasl_mechanisms_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 64, lit!("amqp:sasl-mechanisms:list")) || sasl_mechanisms_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslMechanisms"
    closed spec fn enc(&self) -> Seq<u8> { sasl_mechanisms_enc(*self) }
//@end
pub proof fn lemma_sasl_mechanisms_nn(v: SaslMechanisms)
    ensures sasl_mechanisms_enc(v).len() >= 3, sasl_mechanisms_enc(v)[0] == 0, v.enc() == sasl_mechanisms_enc(v), v.wf() == sasl_mechanisms_wf(v)
{ lemma_denc(64, Seq::empty()); }
pub closed spec fn sasl_mechanisms_wf(v: SaslMechanisms) -> bool { v.sasl_server_mechanisms.wf() }
pub proof fn lemma_sasl_mechanisms_fields(v: SaslMechanisms)
    requires sasl_mechanisms_wf(v), sasl_mechanisms_fenc(v).len() <= u32::MAX
    ensures sasl_mechanisms_fdec(sasl_mechanisms_fenc(v), 1) == Some((v, Seq::<u8>::empty())), sasl_mechanisms_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.sasl_server_mechanisms.enc() + r1;
    lemma_sasl_mechanisms_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.sasl_server_mechanisms.enc(), r1); let p1 = p0 + v.sasl_server_mechanisms.enc();
    assert(p1 + r1 =~= p1);
    lemma_fman(v.sasl_server_mechanisms, r1, 1 - 0);
    Multiple::<Symbol>::nn(v.sasl_server_mechanisms);
    assert(sasl_mechanisms_fenc(v) == r0);
}
pub proof fn lemma_sasl_mechanisms_rt(v: SaslMechanisms, rest: Seq<u8>)
    requires sasl_mechanisms_wf(v), sasl_mechanisms_enc(v).len() <= u32::MAX
    ensures sasl_mechanisms_enc(v).len() >= 1, sasl_mechanisms_enc(v)[0] == 0, Descriptor::dec((sasl_mechanisms_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(64), enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v)) + rest)),
        sasl_mechanisms_idec(enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v)) + rest;
    lemma_denc(64, l);
    lemma_comp_len(0xc0, 0xd0, 1, sasl_mechanisms_fenc(v));
    lemma_sasl_mechanisms_fields(v);
    lemma_list_split(1, sasl_mechanisms_fenc(v), rest);
    assert(sasl_mechanisms_enc(v) + rest =~= denc(64) + l);
}
impl RoundTrip for SaslMechanisms {
    closed spec fn wf(&self) -> bool { sasl_mechanisms_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_sasl_mechanisms_rt(v, rest); }
}
impl NotNull for SaslMechanisms { proof fn nn(v: Self) { lemma_denc(64, Seq::empty()); } }

} // verus!
}
pub use m_sasl_mechanisms::*;
// ---- SaslInit
pub mod m_sasl_init {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn sasl_init_fapp(b: Seq<u8>, v: SaslInit) -> Seq<u8> { b + v.mechanism.enc() + v.initial_response.enc() + v.hostname.enc() }
pub closed spec fn sasl_init_fenc(v: SaslInit) -> Seq<u8> { sasl_init_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn sasl_init_enc(v: SaslInit) -> Seq<u8> { denc(65) + (enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v))) }
pub proof fn lemma_sasl_init_app(b: Seq<u8>, v: SaslInit)
    ensures sasl_init_fapp(b, v) == b + sasl_init_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.mechanism.enc()); let p1 = p0 + v.mechanism.enc();
    seq_assoc(b, p1, v.initial_response.enc()); let p2 = p1 + v.initial_response.enc();
    seq_assoc(b, p2, v.hostname.enc()); let p3 = p2 + v.hostname.enc();
}
pub proof fn lemma_sasl_init_put(b: Seq<u8>, v: SaslInit)
    ensures
        denc(65).len() == 3,
        sasl_init_fapp(comp_hdr(b + denc(65), 3, sasl_init_fenc(v).len()), v) == b + (denc(65) + enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v))),
        sasl_init_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v)).len() == sasl_init_fenc(v).len() + (if sasl_init_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        sasl_init_fenc(v).len() == 0 + v.mechanism.enc().len() + v.initial_response.enc().len() + v.hostname.enc().len(),
{
    let c = sasl_init_fenc(v);
    lemma_denc(65, Seq::empty());
    lemma_sasl_init_app(comp_hdr(b + denc(65), 3, c.len()), v);
    lemma_comp_hdr(b + denc(65), 3, c);
    seq_assoc(b, denc(65), enc_comp(0xc0, 0xd0, 3, c));
    lemma_comp_len(0xc0, 0xd0, 3, c);
}
pub closed spec fn sasl_init_fdec(s0: Seq<u8>, n: int) -> Option<(SaslInit, Seq<u8>)> {
    match fman::<Symbol>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<ByteString>(s2, n - 2) { None => None, Some((f2, s3)) =>
    Some((SaslInit { mechanism: f0, initial_response: f1, hostname: f2 }, s3))
    }}}
}
pub closed spec fn sasl_init_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<Symbol>(s0, n - 0) { None => fman_rej::<Symbol>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => fopt_rej::<Bytes>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<ByteString>(s2, n - 2) { None => fopt_rej::<ByteString>(s2, n - 2), Some((f2, s3)) =>
    false
    }}}
}
pub closed spec fn sasl_init_idec(s: Seq<u8>) -> Option<(SaslInit, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match sasl_init_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 3 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn sasl_init_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => sasl_init_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs SaslInit
//@method FIELD_COUNT
    ensures r == 3
//@end
//@fn codec/src/protocol/definitions.rs decode_sasl_init_inner
    ensures
        suffix(final(input)@, old(input)@),
        match sasl_init_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<SaslInit, AmqpParseError>(v) && final(input)@ == rest,
            None => sasl_init_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_sasl_init_inner
    requires sasl_init_enc(*list).len() <= u32::MAX
    ensures r == sasl_init_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_sasl_init_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_sasl_init_inner
    requires sasl_init_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + sasl_init_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_sasl_init_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslInit"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 65, lit!("amqp:sasl-init:list")) { sasl_init_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 65, lit!("amqp:sasl-init:list")) || sasl_init_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslInit"
    closed spec fn enc(&self) -> Seq<u8> { sasl_init_enc(*self) }
//@end
pub proof fn lemma_sasl_init_nn(v: SaslInit)
    ensures sasl_init_enc(v).len() >= 3, sasl_init_enc(v)[0] == 0, v.enc() == sasl_init_enc(v), v.wf() == sasl_init_wf(v)
{ lemma_denc(65, Seq::empty()); }
pub closed spec fn sasl_init_wf(v: SaslInit) -> bool { v.mechanism.wf() && owf(v.initial_response) && owf(v.hostname) }
pub proof fn lemma_sasl_init_fields(v: SaslInit)
    requires sasl_init_wf(v), sasl_init_fenc(v).len() <= u32::MAX
    ensures sasl_init_fdec(sasl_init_fenc(v), 3) == Some((v, Seq::<u8>::empty())), sasl_init_fenc(v).len() >= 3
{
    let r3 = Seq::<u8>::empty();
    let r2 = v.hostname.enc() + r3;
    let r1 = v.initial_response.enc() + r2;
    let r0 = v.mechanism.enc() + r1;
    lemma_sasl_init_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.mechanism.enc(), r1); let p1 = p0 + v.mechanism.enc();
    seq_assoc(p1, v.initial_response.enc(), r2); let p2 = p1 + v.initial_response.enc();
    seq_assoc(p2, v.hostname.enc(), r3); let p3 = p2 + v.hostname.enc();
    assert(p3 + r3 =~= p3);
    lemma_fman(v.mechanism, r1, 3 - 0);
    Symbol::nn(v.mechanism);
    lemma_fopt(v.initial_response, r2, 3 - 1);
    lemma_nn_opt(v.initial_response);
    lemma_fopt(v.hostname, r3, 3 - 2);
    lemma_nn_opt(v.hostname);
    assert(sasl_init_fenc(v) == r0);
}
pub proof fn lemma_sasl_init_rt(v: SaslInit, rest: Seq<u8>)
    requires sasl_init_wf(v), sasl_init_enc(v).len() <= u32::MAX
    ensures sasl_init_enc(v).len() >= 1, sasl_init_enc(v)[0] == 0, Descriptor::dec((sasl_init_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(65), enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v)) + rest)),
        sasl_init_idec(enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 3, sasl_init_fenc(v)) + rest;
    lemma_denc(65, l);
    lemma_comp_len(0xc0, 0xd0, 3, sasl_init_fenc(v));
    lemma_sasl_init_fields(v);
    lemma_list_split(3, sasl_init_fenc(v), rest);
    assert(sasl_init_enc(v) + rest =~= denc(65) + l);
}
impl RoundTrip for SaslInit {
    closed spec fn wf(&self) -> bool { sasl_init_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_sasl_init_rt(v, rest); }
}
impl NotNull for SaslInit { proof fn nn(v: Self) { lemma_denc(65, Seq::empty()); } }

} // verus!
}
pub use m_sasl_init::*;
// ---- SaslChallenge
pub mod m_sasl_challenge {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn sasl_challenge_fapp(b: Seq<u8>, v: SaslChallenge) -> Seq<u8> { b + v.challenge.enc() }
pub closed spec fn sasl_challenge_fenc(v: SaslChallenge) -> Seq<u8> { sasl_challenge_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn sasl_challenge_enc(v: SaslChallenge) -> Seq<u8> { denc(66) + (enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v))) }
pub proof fn lemma_sasl_challenge_app(b: Seq<u8>, v: SaslChallenge)
    ensures sasl_challenge_fapp(b, v) == b + sasl_challenge_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.challenge.enc()); let p1 = p0 + v.challenge.enc();
}
pub proof fn lemma_sasl_challenge_put(b: Seq<u8>, v: SaslChallenge)
    ensures
        denc(66).len() == 3,
        sasl_challenge_fapp(comp_hdr(b + denc(66), 1, sasl_challenge_fenc(v).len()), v) == b + (denc(66) + enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v))),
        sasl_challenge_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v)).len() == sasl_challenge_fenc(v).len() + (if sasl_challenge_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        sasl_challenge_fenc(v).len() == 0 + v.challenge.enc().len(),
{
    let c = sasl_challenge_fenc(v);
    lemma_denc(66, Seq::empty());
    lemma_sasl_challenge_app(comp_hdr(b + denc(66), 1, c.len()), v);
    lemma_comp_hdr(b + denc(66), 1, c);
    seq_assoc(b, denc(66), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn sasl_challenge_fdec(s0: Seq<u8>, n: int) -> Option<(SaslChallenge, Seq<u8>)> {
    match fman::<Bytes>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((SaslChallenge { challenge: f0 }, s1))
    }
}
pub closed spec fn sasl_challenge_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<Bytes>(s0, n - 0) { None => fman_rej::<Bytes>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn sasl_challenge_idec(s: Seq<u8>) -> Option<(SaslChallenge, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match sasl_challenge_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn sasl_challenge_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => sasl_challenge_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs SaslChallenge
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_sasl_challenge_inner
    ensures
        suffix(final(input)@, old(input)@),
        match sasl_challenge_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<SaslChallenge, AmqpParseError>(v) && final(input)@ == rest,
            None => sasl_challenge_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_sasl_challenge_inner
    requires sasl_challenge_enc(*list).len() <= u32::MAX
    ensures r == sasl_challenge_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_sasl_challenge_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_sasl_challenge_inner
    requires sasl_challenge_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + sasl_challenge_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_sasl_challenge_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslChallenge"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 66, lit!("amqp:sasl-challenge:list")) { sasl_challenge_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 66, lit!("amqp:sasl-challenge:list")) || sasl_challenge_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslChallenge"
    closed spec fn enc(&self) -> Seq<u8> { sasl_challenge_enc(*self) }
//@end
pub proof fn lemma_sasl_challenge_nn(v: SaslChallenge)
    ensures sasl_challenge_enc(v).len() >= 3, sasl_challenge_enc(v)[0] == 0, v.enc() == sasl_challenge_enc(v), v.wf() == sasl_challenge_wf(v)
{ lemma_denc(66, Seq::empty()); }
pub closed spec fn sasl_challenge_wf(v: SaslChallenge) -> bool { v.challenge.wf() }
pub proof fn lemma_sasl_challenge_fields(v: SaslChallenge)
    requires sasl_challenge_wf(v), sasl_challenge_fenc(v).len() <= u32::MAX
    ensures sasl_challenge_fdec(sasl_challenge_fenc(v), 1) == Some((v, Seq::<u8>::empty())), sasl_challenge_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.challenge.enc() + r1;
    lemma_sasl_challenge_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.challenge.enc(), r1); let p1 = p0 + v.challenge.enc();
    assert(p1 + r1 =~= p1);
    lemma_fman(v.challenge, r1, 1 - 0);
    Bytes::nn(v.challenge);
    assert(sasl_challenge_fenc(v) == r0);
}
pub proof fn lemma_sasl_challenge_rt(v: SaslChallenge, rest: Seq<u8>)
    requires sasl_challenge_wf(v), sasl_challenge_enc(v).len() <= u32::MAX
    ensures sasl_challenge_enc(v).len() >= 1, sasl_challenge_enc(v)[0] == 0, Descriptor::dec((sasl_challenge_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(66), enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v)) + rest)),
        sasl_challenge_idec(enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, sasl_challenge_fenc(v)) + rest;
    lemma_denc(66, l);
    lemma_comp_len(0xc0, 0xd0, 1, sasl_challenge_fenc(v));
    lemma_sasl_challenge_fields(v);
    lemma_list_split(1, sasl_challenge_fenc(v), rest);
    assert(sasl_challenge_enc(v) + rest =~= denc(66) + l);
}
impl RoundTrip for SaslChallenge {
    closed spec fn wf(&self) -> bool { sasl_challenge_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_sasl_challenge_rt(v, rest); }
}
impl NotNull for SaslChallenge { proof fn nn(v: Self) { lemma_denc(66, Seq::empty()); } }

} // verus!
}
pub use m_sasl_challenge::*;
// ---- SaslResponse
pub mod m_sasl_response {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn sasl_response_fapp(b: Seq<u8>, v: SaslResponse) -> Seq<u8> { b + v.response.enc() }
pub closed spec fn sasl_response_fenc(v: SaslResponse) -> Seq<u8> { sasl_response_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn sasl_response_enc(v: SaslResponse) -> Seq<u8> { denc(67) + (enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v))) }
pub proof fn lemma_sasl_response_app(b: Seq<u8>, v: SaslResponse)
    ensures sasl_response_fapp(b, v) == b + sasl_response_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.response.enc()); let p1 = p0 + v.response.enc();
}
pub proof fn lemma_sasl_response_put(b: Seq<u8>, v: SaslResponse)
    ensures
        denc(67).len() == 3,
        sasl_response_fapp(comp_hdr(b + denc(67), 1, sasl_response_fenc(v).len()), v) == b + (denc(67) + enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v))),
        sasl_response_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v)).len() == sasl_response_fenc(v).len() + (if sasl_response_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        sasl_response_fenc(v).len() == 0 + v.response.enc().len(),
{
    let c = sasl_response_fenc(v);
    lemma_denc(67, Seq::empty());
    lemma_sasl_response_app(comp_hdr(b + denc(67), 1, c.len()), v);
    lemma_comp_hdr(b + denc(67), 1, c);
    seq_assoc(b, denc(67), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn sasl_response_fdec(s0: Seq<u8>, n: int) -> Option<(SaslResponse, Seq<u8>)> {
    match fman::<Bytes>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((SaslResponse { response: f0 }, s1))
    }
}
pub closed spec fn sasl_response_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<Bytes>(s0, n - 0) { None => fman_rej::<Bytes>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn sasl_response_idec(s: Seq<u8>) -> Option<(SaslResponse, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match sasl_response_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn sasl_response_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => sasl_response_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs SaslResponse
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_sasl_response_inner
    ensures
        suffix(final(input)@, old(input)@),
        match sasl_response_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<SaslResponse, AmqpParseError>(v) && final(input)@ == rest,
            None => sasl_response_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_sasl_response_inner
    requires sasl_response_enc(*list).len() <= u32::MAX
    ensures r == sasl_response_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_sasl_response_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_sasl_response_inner
    requires sasl_response_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + sasl_response_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_sasl_response_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslResponse"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 67, lit!("amqp:sasl-response:list")) { sasl_response_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 67, lit!("amqp:sasl-response:list")) || sasl_response_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslResponse"
    closed spec fn enc(&self) -> Seq<u8> { sasl_response_enc(*self) }
//@end
pub proof fn lemma_sasl_response_nn(v: SaslResponse)
    ensures sasl_response_enc(v).len() >= 3, sasl_response_enc(v)[0] == 0, v.enc() == sasl_response_enc(v), v.wf() == sasl_response_wf(v)
{ lemma_denc(67, Seq::empty()); }
pub closed spec fn sasl_response_wf(v: SaslResponse) -> bool { v.response.wf() }
pub proof fn lemma_sasl_response_fields(v: SaslResponse)
    requires sasl_response_wf(v), sasl_response_fenc(v).len() <= u32::MAX
    ensures sasl_response_fdec(sasl_response_fenc(v), 1) == Some((v, Seq::<u8>::empty())), sasl_response_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.response.enc() + r1;
    lemma_sasl_response_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.response.enc(), r1); let p1 = p0 + v.response.enc();
    assert(p1 + r1 =~= p1);
    lemma_fman(v.response, r1, 1 - 0);
    Bytes::nn(v.response);
    assert(sasl_response_fenc(v) == r0);
}
pub proof fn lemma_sasl_response_rt(v: SaslResponse, rest: Seq<u8>)
    requires sasl_response_wf(v), sasl_response_enc(v).len() <= u32::MAX
    ensures sasl_response_enc(v).len() >= 1, sasl_response_enc(v)[0] == 0, Descriptor::dec((sasl_response_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(67), enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v)) + rest)),
        sasl_response_idec(enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, sasl_response_fenc(v)) + rest;
    lemma_denc(67, l);
    lemma_comp_len(0xc0, 0xd0, 1, sasl_response_fenc(v));
    lemma_sasl_response_fields(v);
    lemma_list_split(1, sasl_response_fenc(v), rest);
    assert(sasl_response_enc(v) + rest =~= denc(67) + l);
}
impl RoundTrip for SaslResponse {
    closed spec fn wf(&self) -> bool { sasl_response_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_sasl_response_rt(v, rest); }
}
impl NotNull for SaslResponse { proof fn nn(v: Self) { lemma_denc(67, Seq::empty()); } }

} // verus!
}
pub use m_sasl_response::*;
// ---- SaslOutcome
pub mod m_sasl_outcome {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn sasl_outcome_fapp(b: Seq<u8>, v: SaslOutcome) -> Seq<u8> { b + v.code.enc() + v.additional_data.enc() }
pub closed spec fn sasl_outcome_fenc(v: SaslOutcome) -> Seq<u8> { sasl_outcome_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn sasl_outcome_enc(v: SaslOutcome) -> Seq<u8> { denc(68) + (enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v))) }
pub proof fn lemma_sasl_outcome_app(b: Seq<u8>, v: SaslOutcome)
    ensures sasl_outcome_fapp(b, v) == b + sasl_outcome_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.code.enc()); let p1 = p0 + v.code.enc();
    seq_assoc(b, p1, v.additional_data.enc()); let p2 = p1 + v.additional_data.enc();
}
pub proof fn lemma_sasl_outcome_put(b: Seq<u8>, v: SaslOutcome)
    ensures
        denc(68).len() == 3,
        sasl_outcome_fapp(comp_hdr(b + denc(68), 2, sasl_outcome_fenc(v).len()), v) == b + (denc(68) + enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v))),
        sasl_outcome_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v)).len() == sasl_outcome_fenc(v).len() + (if sasl_outcome_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        sasl_outcome_fenc(v).len() == 0 + v.code.enc().len() + v.additional_data.enc().len(),
{
    let c = sasl_outcome_fenc(v);
    lemma_denc(68, Seq::empty());
    lemma_sasl_outcome_app(comp_hdr(b + denc(68), 2, c.len()), v);
    lemma_comp_hdr(b + denc(68), 2, c);
    seq_assoc(b, denc(68), enc_comp(0xc0, 0xd0, 2, c));
    lemma_comp_len(0xc0, 0xd0, 2, c);
}
pub closed spec fn sasl_outcome_fdec(s0: Seq<u8>, n: int) -> Option<(SaslOutcome, Seq<u8>)> {
    match fman::<SaslCode>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => None, Some((f1, s2)) =>
    Some((SaslOutcome { code: f0, additional_data: f1 }, s2))
    }}
}
pub closed spec fn sasl_outcome_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<SaslCode>(s0, n - 0) { None => fman_rej::<SaslCode>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => fopt_rej::<Bytes>(s1, n - 1), Some((f1, s2)) =>
    false
    }}
}
pub closed spec fn sasl_outcome_idec(s: Seq<u8>) -> Option<(SaslOutcome, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match sasl_outcome_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 2 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn sasl_outcome_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => sasl_outcome_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs SaslOutcome
//@method FIELD_COUNT
    ensures r == 2
//@end
//@fn codec/src/protocol/definitions.rs decode_sasl_outcome_inner
    ensures
        suffix(final(input)@, old(input)@),
        match sasl_outcome_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<SaslOutcome, AmqpParseError>(v) && final(input)@ == rest,
            None => sasl_outcome_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_sasl_outcome_inner
    requires sasl_outcome_enc(*list).len() <= u32::MAX
    ensures r == sasl_outcome_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_sasl_outcome_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_sasl_outcome_inner
    requires sasl_outcome_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + sasl_outcome_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_sasl_outcome_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslOutcome"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 68, lit!("amqp:sasl-outcome:list")) { sasl_outcome_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 68, lit!("amqp:sasl-outcome:list")) || sasl_outcome_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslOutcome"
    closed spec fn enc(&self) -> Seq<u8> { sasl_outcome_enc(*self) }
//@end
pub proof fn lemma_sasl_outcome_nn(v: SaslOutcome)
    ensures sasl_outcome_enc(v).len() >= 3, sasl_outcome_enc(v)[0] == 0, v.enc() == sasl_outcome_enc(v), v.wf() == sasl_outcome_wf(v)
{ lemma_denc(68, Seq::empty()); }
pub closed spec fn sasl_outcome_wf(v: SaslOutcome) -> bool { v.code.wf() && owf(v.additional_data) }
pub proof fn lemma_sasl_outcome_fields(v: SaslOutcome)
    requires sasl_outcome_wf(v), sasl_outcome_fenc(v).len() <= u32::MAX
    ensures sasl_outcome_fdec(sasl_outcome_fenc(v), 2) == Some((v, Seq::<u8>::empty())), sasl_outcome_fenc(v).len() >= 2
{
    let r2 = Seq::<u8>::empty();
    let r1 = v.additional_data.enc() + r2;
    let r0 = v.code.enc() + r1;
    lemma_sasl_outcome_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.code.enc(), r1); let p1 = p0 + v.code.enc();
    seq_assoc(p1, v.additional_data.enc(), r2); let p2 = p1 + v.additional_data.enc();
    assert(p2 + r2 =~= p2);
    lemma_fman(v.code, r1, 2 - 0);
    SaslCode::nn(v.code);
    lemma_fopt(v.additional_data, r2, 2 - 1);
    lemma_nn_opt(v.additional_data);
    assert(sasl_outcome_fenc(v) == r0);
}
pub proof fn lemma_sasl_outcome_rt(v: SaslOutcome, rest: Seq<u8>)
    requires sasl_outcome_wf(v), sasl_outcome_enc(v).len() <= u32::MAX
    ensures sasl_outcome_enc(v).len() >= 1, sasl_outcome_enc(v)[0] == 0, Descriptor::dec((sasl_outcome_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(68), enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v)) + rest)),
        sasl_outcome_idec(enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 2, sasl_outcome_fenc(v)) + rest;
    lemma_denc(68, l);
    lemma_comp_len(0xc0, 0xd0, 2, sasl_outcome_fenc(v));
    lemma_sasl_outcome_fields(v);
    lemma_list_split(2, sasl_outcome_fenc(v), rest);
    assert(sasl_outcome_enc(v) + rest =~= denc(68) + l);
}
impl RoundTrip for SaslOutcome {
    closed spec fn wf(&self) -> bool { sasl_outcome_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_sasl_outcome_rt(v, rest); }
}
impl NotNull for SaslOutcome { proof fn nn(v: Self) { lemma_denc(68, Seq::empty()); } }

} // verus!
}
pub use m_sasl_outcome::*;
// ---- Source
pub mod m_source {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn source_fapp(b: Seq<u8>, v: Source) -> Seq<u8> { b + v.address.enc() + v.durable.enc() + v.expiry_policy.enc() + v.timeout.enc() + v.dynamic.enc() + v.dynamic_node_properties.enc() + v.distribution_mode.enc() + v.filter.enc() + v.default_outcome.enc() + v.outcomes.enc() + v.capabilities.enc() }
pub closed spec fn source_fenc(v: Source) -> Seq<u8> { source_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn source_enc(v: Source) -> Seq<u8> { denc(40) + (enc_comp(0xc0, 0xd0, 11, source_fenc(v))) }
pub proof fn lemma_source_app(b: Seq<u8>, v: Source)
    ensures source_fapp(b, v) == b + source_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.address.enc()); let p1 = p0 + v.address.enc();
    seq_assoc(b, p1, v.durable.enc()); let p2 = p1 + v.durable.enc();
    seq_assoc(b, p2, v.expiry_policy.enc()); let p3 = p2 + v.expiry_policy.enc();
    seq_assoc(b, p3, v.timeout.enc()); let p4 = p3 + v.timeout.enc();
    seq_assoc(b, p4, v.dynamic.enc()); let p5 = p4 + v.dynamic.enc();
    seq_assoc(b, p5, v.dynamic_node_properties.enc()); let p6 = p5 + v.dynamic_node_properties.enc();
    seq_assoc(b, p6, v.distribution_mode.enc()); let p7 = p6 + v.distribution_mode.enc();
    seq_assoc(b, p7, v.filter.enc()); let p8 = p7 + v.filter.enc();
    seq_assoc(b, p8, v.default_outcome.enc()); let p9 = p8 + v.default_outcome.enc();
    seq_assoc(b, p9, v.outcomes.enc()); let p10 = p9 + v.outcomes.enc();
    seq_assoc(b, p10, v.capabilities.enc()); let p11 = p10 + v.capabilities.enc();
}
pub proof fn lemma_source_put(b: Seq<u8>, v: Source)
    ensures
        denc(40).len() == 3,
        source_fapp(comp_hdr(b + denc(40), 11, source_fenc(v).len()), v) == b + (denc(40) + enc_comp(0xc0, 0xd0, 11, source_fenc(v))),
        source_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 11, source_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 11, source_fenc(v)).len() == source_fenc(v).len() + (if source_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        source_fenc(v).len() == 0 + v.address.enc().len() + v.durable.enc().len() + v.expiry_policy.enc().len() + v.timeout.enc().len() + v.dynamic.enc().len() + v.dynamic_node_properties.enc().len() + v.distribution_mode.enc().len() + v.filter.enc().len() + v.default_outcome.enc().len() + v.outcomes.enc().len() + v.capabilities.enc().len(),
{
    let c = source_fenc(v);
    lemma_denc(40, Seq::empty());
    lemma_source_app(comp_hdr(b + denc(40), 11, c.len()), v);
    lemma_comp_hdr(b + denc(40), 11, c);
    seq_assoc(b, denc(40), enc_comp(0xc0, 0xd0, 11, c));
    lemma_comp_len(0xc0, 0xd0, 11, c);
}
pub closed spec fn source_fdec(s0: Seq<u8>, n: int) -> Option<(Source, Seq<u8>)> {
    match fopt::<ByteString>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<TerminusDurability>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<TerminusExpiryPolicy>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<HashMap<Symbol, Variant>>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<DistributionMode>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<HashMap<Symbol, Option<ByteString>>>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<Outcome>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<Multiple<Symbol>>(s9, n - 9) { None => None, Some((f9, s10)) =>
    match fopt::<Multiple<Symbol>>(s10, n - 10) { None => None, Some((f10, s11)) =>
    Some((Source { address: f0, durable: fdef(f1, TerminusDurability::None), expiry_policy: fdef(f2, TerminusExpiryPolicy::SessionEnd), timeout: fdef(f3, 0u32), dynamic: fdef(f4, false), dynamic_node_properties: f5, distribution_mode: f6, filter: f7, default_outcome: f8, outcomes: f9, capabilities: f10 }, s11))
    }}}}}}}}}}}
}
pub closed spec fn source_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<ByteString>(s0, n - 0) { None => fopt_rej::<ByteString>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<TerminusDurability>(s1, n - 1) { None => fopt_rej::<TerminusDurability>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<TerminusExpiryPolicy>(s2, n - 2) { None => fopt_rej::<TerminusExpiryPolicy>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => fopt_rej::<u32>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => fopt_rej::<bool>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<HashMap<Symbol, Variant>>(s5, n - 5) { None => fopt_rej::<HashMap<Symbol, Variant>>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<DistributionMode>(s6, n - 6) { None => fopt_rej::<DistributionMode>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<HashMap<Symbol, Option<ByteString>>>(s7, n - 7) { None => fopt_rej::<HashMap<Symbol, Option<ByteString>>>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<Outcome>(s8, n - 8) { None => fopt_rej::<Outcome>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<Multiple<Symbol>>(s9, n - 9) { None => fopt_rej::<Multiple<Symbol>>(s9, n - 9), Some((f9, s10)) =>
    match fopt::<Multiple<Symbol>>(s10, n - 10) { None => fopt_rej::<Multiple<Symbol>>(s10, n - 10), Some((f10, s11)) =>
    false
    }}}}}}}}}}}
}
pub closed spec fn source_idec(s: Seq<u8>) -> Option<(Source, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match source_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 11 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn source_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => source_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Source
//@method FIELD_COUNT
    ensures r == 11
//@end
//@fn codec/src/protocol/definitions.rs decode_source_inner
    ensures
        suffix(final(input)@, old(input)@),
        match source_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Source, AmqpParseError>(v) && final(input)@ == rest,
            None => source_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_source_inner
    requires source_enc(*list).len() <= u32::MAX
    ensures r == source_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_source_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_source_inner
    requires source_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + source_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_source_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Source"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 40, lit!("amqp:source:list")) { source_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 40, lit!("amqp:source:list")) || source_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Source"
    closed spec fn enc(&self) -> Seq<u8> { source_enc(*self) }
//@end
pub proof fn lemma_source_nn(v: Source)
    ensures source_enc(v).len() >= 3, source_enc(v)[0] == 0, v.enc() == source_enc(v), v.wf() == source_wf(v)
{ lemma_denc(40, Seq::empty()); }
pub closed spec fn source_wf(v: Source) -> bool { owf(v.address) && v.durable.wf() && v.expiry_policy.wf() && v.timeout.wf() && v.dynamic.wf() && owf(v.dynamic_node_properties) && owf(v.distribution_mode) && owf(v.filter) && owf(v.default_outcome) && owf(v.outcomes) && owf(v.capabilities) }
pub proof fn lemma_source_fields(v: Source)
    requires source_wf(v), source_fenc(v).len() <= u32::MAX
    ensures source_fdec(source_fenc(v), 11) == Some((v, Seq::<u8>::empty())), source_fenc(v).len() >= 11
{
    let r11 = Seq::<u8>::empty();
    let r10 = v.capabilities.enc() + r11;
    let r9 = v.outcomes.enc() + r10;
    let r8 = v.default_outcome.enc() + r9;
    let r7 = v.filter.enc() + r8;
    let r6 = v.distribution_mode.enc() + r7;
    let r5 = v.dynamic_node_properties.enc() + r6;
    let r4 = v.dynamic.enc() + r5;
    let r3 = v.timeout.enc() + r4;
    let r2 = v.expiry_policy.enc() + r3;
    let r1 = v.durable.enc() + r2;
    let r0 = v.address.enc() + r1;
    lemma_source_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.address.enc(), r1); let p1 = p0 + v.address.enc();
    seq_assoc(p1, v.durable.enc(), r2); let p2 = p1 + v.durable.enc();
    seq_assoc(p2, v.expiry_policy.enc(), r3); let p3 = p2 + v.expiry_policy.enc();
    seq_assoc(p3, v.timeout.enc(), r4); let p4 = p3 + v.timeout.enc();
    seq_assoc(p4, v.dynamic.enc(), r5); let p5 = p4 + v.dynamic.enc();
    seq_assoc(p5, v.dynamic_node_properties.enc(), r6); let p6 = p5 + v.dynamic_node_properties.enc();
    seq_assoc(p6, v.distribution_mode.enc(), r7); let p7 = p6 + v.distribution_mode.enc();
    seq_assoc(p7, v.filter.enc(), r8); let p8 = p7 + v.filter.enc();
    seq_assoc(p8, v.default_outcome.enc(), r9); let p9 = p8 + v.default_outcome.enc();
    seq_assoc(p9, v.outcomes.enc(), r10); let p10 = p9 + v.outcomes.enc();
    seq_assoc(p10, v.capabilities.enc(), r11); let p11 = p10 + v.capabilities.enc();
    assert(p11 + r11 =~= p11);
    lemma_fopt(v.address, r1, 11 - 0);
    lemma_nn_opt(v.address);
    lemma_fdef(v.durable, r2, 11 - 1);
    TerminusDurability::nn(v.durable);
    lemma_fdef(v.expiry_policy, r3, 11 - 2);
    TerminusExpiryPolicy::nn(v.expiry_policy);
    lemma_fdef(v.timeout, r4, 11 - 3);
    u32::nn(v.timeout);
    lemma_fdef(v.dynamic, r5, 11 - 4);
    bool::nn(v.dynamic);
    lemma_fopt(v.dynamic_node_properties, r6, 11 - 5);
    lemma_nn_opt(v.dynamic_node_properties);
    lemma_fopt(v.distribution_mode, r7, 11 - 6);
    lemma_nn_opt(v.distribution_mode);
    lemma_fopt(v.filter, r8, 11 - 7);
    lemma_nn_opt(v.filter);
    lemma_fopt(v.default_outcome, r9, 11 - 8);
    lemma_nn_opt(v.default_outcome);
    lemma_fopt(v.outcomes, r10, 11 - 9);
    lemma_nn_opt(v.outcomes);
    lemma_fopt(v.capabilities, r11, 11 - 10);
    lemma_nn_opt(v.capabilities);
    assert(source_fenc(v) == r0);
}
pub proof fn lemma_source_rt(v: Source, rest: Seq<u8>)
    requires source_wf(v), source_enc(v).len() <= u32::MAX
    ensures source_enc(v).len() >= 1, source_enc(v)[0] == 0, Descriptor::dec((source_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(40), enc_comp(0xc0, 0xd0, 11, source_fenc(v)) + rest)),
        source_idec(enc_comp(0xc0, 0xd0, 11, source_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 11, source_fenc(v)) + rest;
    lemma_denc(40, l);
    lemma_comp_len(0xc0, 0xd0, 11, source_fenc(v));
    lemma_source_fields(v);
    lemma_list_split(11, source_fenc(v), rest);
    assert(source_enc(v) + rest =~= denc(40) + l);
}
impl RoundTrip for Source {
    closed spec fn wf(&self) -> bool { source_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_source_rt(v, rest); }
}
impl NotNull for Source { proof fn nn(v: Self) { lemma_denc(40, Seq::empty()); } }

} // verus!
}
pub use m_source::*;
// ---- Target
pub mod m_target {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn target_fapp(b: Seq<u8>, v: Target) -> Seq<u8> { b + v.address.enc() + v.durable.enc() + v.expiry_policy.enc() + v.timeout.enc() + v.dynamic.enc() + v.dynamic_node_properties.enc() + v.capabilities.enc() }
pub closed spec fn target_fenc(v: Target) -> Seq<u8> { target_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn target_enc(v: Target) -> Seq<u8> { denc(41) + (enc_comp(0xc0, 0xd0, 7, target_fenc(v))) }
pub proof fn lemma_target_app(b: Seq<u8>, v: Target)
    ensures target_fapp(b, v) == b + target_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.address.enc()); let p1 = p0 + v.address.enc();
    seq_assoc(b, p1, v.durable.enc()); let p2 = p1 + v.durable.enc();
    seq_assoc(b, p2, v.expiry_policy.enc()); let p3 = p2 + v.expiry_policy.enc();
    seq_assoc(b, p3, v.timeout.enc()); let p4 = p3 + v.timeout.enc();
    seq_assoc(b, p4, v.dynamic.enc()); let p5 = p4 + v.dynamic.enc();
    seq_assoc(b, p5, v.dynamic_node_properties.enc()); let p6 = p5 + v.dynamic_node_properties.enc();
    seq_assoc(b, p6, v.capabilities.enc()); let p7 = p6 + v.capabilities.enc();
}
pub proof fn lemma_target_put(b: Seq<u8>, v: Target)
    ensures
        denc(41).len() == 3,
        target_fapp(comp_hdr(b + denc(41), 7, target_fenc(v).len()), v) == b + (denc(41) + enc_comp(0xc0, 0xd0, 7, target_fenc(v))),
        target_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 7, target_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 7, target_fenc(v)).len() == target_fenc(v).len() + (if target_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        target_fenc(v).len() == 0 + v.address.enc().len() + v.durable.enc().len() + v.expiry_policy.enc().len() + v.timeout.enc().len() + v.dynamic.enc().len() + v.dynamic_node_properties.enc().len() + v.capabilities.enc().len(),
{
    let c = target_fenc(v);
    lemma_denc(41, Seq::empty());
    lemma_target_app(comp_hdr(b + denc(41), 7, c.len()), v);
    lemma_comp_hdr(b + denc(41), 7, c);
    seq_assoc(b, denc(41), enc_comp(0xc0, 0xd0, 7, c));
    lemma_comp_len(0xc0, 0xd0, 7, c);
}
pub closed spec fn target_fdec(s0: Seq<u8>, n: int) -> Option<(Target, Seq<u8>)> {
    match fopt::<ByteString>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<TerminusDurability>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<TerminusExpiryPolicy>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<HashMap<Symbol, Variant>>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => None, Some((f6, s7)) =>
    Some((Target { address: f0, durable: fdef(f1, TerminusDurability::None), expiry_policy: fdef(f2, TerminusExpiryPolicy::SessionEnd), timeout: fdef(f3, 0u32), dynamic: fdef(f4, false), dynamic_node_properties: f5, capabilities: f6 }, s7))
    }}}}}}}
}
pub closed spec fn target_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<ByteString>(s0, n - 0) { None => fopt_rej::<ByteString>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<TerminusDurability>(s1, n - 1) { None => fopt_rej::<TerminusDurability>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<TerminusExpiryPolicy>(s2, n - 2) { None => fopt_rej::<TerminusExpiryPolicy>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<u32>(s3, n - 3) { None => fopt_rej::<u32>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<bool>(s4, n - 4) { None => fopt_rej::<bool>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<HashMap<Symbol, Variant>>(s5, n - 5) { None => fopt_rej::<HashMap<Symbol, Variant>>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<Multiple<Symbol>>(s6, n - 6) { None => fopt_rej::<Multiple<Symbol>>(s6, n - 6), Some((f6, s7)) =>
    false
    }}}}}}}
}
pub closed spec fn target_idec(s: Seq<u8>) -> Option<(Target, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match target_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 7 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn target_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => target_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Target
//@method FIELD_COUNT
    ensures r == 7
//@end
//@fn codec/src/protocol/definitions.rs decode_target_inner
    ensures
        suffix(final(input)@, old(input)@),
        match target_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Target, AmqpParseError>(v) && final(input)@ == rest,
            None => target_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_target_inner
    requires target_enc(*list).len() <= u32::MAX
    ensures r == target_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_target_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_target_inner
    requires target_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + target_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_target_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Target"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 41, lit!("amqp:target:list")) { target_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 41, lit!("amqp:target:list")) || target_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Target"
    closed spec fn enc(&self) -> Seq<u8> { target_enc(*self) }
//@end
pub proof fn lemma_target_nn(v: Target)
    ensures target_enc(v).len() >= 3, target_enc(v)[0] == 0, v.enc() == target_enc(v), v.wf() == target_wf(v)
{ lemma_denc(41, Seq::empty()); }
pub closed spec fn target_wf(v: Target) -> bool { owf(v.address) && v.durable.wf() && v.expiry_policy.wf() && v.timeout.wf() && v.dynamic.wf() && owf(v.dynamic_node_properties) && owf(v.capabilities) }
pub proof fn lemma_target_fields(v: Target)
    requires target_wf(v), target_fenc(v).len() <= u32::MAX
    ensures target_fdec(target_fenc(v), 7) == Some((v, Seq::<u8>::empty())), target_fenc(v).len() >= 7
{
    let r7 = Seq::<u8>::empty();
    let r6 = v.capabilities.enc() + r7;
    let r5 = v.dynamic_node_properties.enc() + r6;
    let r4 = v.dynamic.enc() + r5;
    let r3 = v.timeout.enc() + r4;
    let r2 = v.expiry_policy.enc() + r3;
    let r1 = v.durable.enc() + r2;
    let r0 = v.address.enc() + r1;
    lemma_target_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.address.enc(), r1); let p1 = p0 + v.address.enc();
    seq_assoc(p1, v.durable.enc(), r2); let p2 = p1 + v.durable.enc();
    seq_assoc(p2, v.expiry_policy.enc(), r3); let p3 = p2 + v.expiry_policy.enc();
    seq_assoc(p3, v.timeout.enc(), r4); let p4 = p3 + v.timeout.enc();
    seq_assoc(p4, v.dynamic.enc(), r5); let p5 = p4 + v.dynamic.enc();
    seq_assoc(p5, v.dynamic_node_properties.enc(), r6); let p6 = p5 + v.dynamic_node_properties.enc();
    seq_assoc(p6, v.capabilities.enc(), r7); let p7 = p6 + v.capabilities.enc();
    assert(p7 + r7 =~= p7);
    lemma_fopt(v.address, r1, 7 - 0);
    lemma_nn_opt(v.address);
    lemma_fdef(v.durable, r2, 7 - 1);
    TerminusDurability::nn(v.durable);
    lemma_fdef(v.expiry_policy, r3, 7 - 2);
    TerminusExpiryPolicy::nn(v.expiry_policy);
    lemma_fdef(v.timeout, r4, 7 - 3);
    u32::nn(v.timeout);
    lemma_fdef(v.dynamic, r5, 7 - 4);
    bool::nn(v.dynamic);
    lemma_fopt(v.dynamic_node_properties, r6, 7 - 5);
    lemma_nn_opt(v.dynamic_node_properties);
    lemma_fopt(v.capabilities, r7, 7 - 6);
    lemma_nn_opt(v.capabilities);
    assert(target_fenc(v) == r0);
}
pub proof fn lemma_target_rt(v: Target, rest: Seq<u8>)
    requires target_wf(v), target_enc(v).len() <= u32::MAX
    ensures target_enc(v).len() >= 1, target_enc(v)[0] == 0, Descriptor::dec((target_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(41), enc_comp(0xc0, 0xd0, 7, target_fenc(v)) + rest)),
        target_idec(enc_comp(0xc0, 0xd0, 7, target_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 7, target_fenc(v)) + rest;
    lemma_denc(41, l);
    lemma_comp_len(0xc0, 0xd0, 7, target_fenc(v));
    lemma_target_fields(v);
    lemma_list_split(7, target_fenc(v), rest);
    assert(target_enc(v) + rest =~= denc(41) + l);
}
impl RoundTrip for Target {
    closed spec fn wf(&self) -> bool { target_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_target_rt(v, rest); }
}
impl NotNull for Target { proof fn nn(v: Self) { lemma_denc(41, Seq::empty()); } }

} // verus!
}
pub use m_target::*;
// ---- Header
pub mod m_header {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn header_fapp(b: Seq<u8>, v: Header) -> Seq<u8> { b + v.durable.enc() + v.priority.enc() + v.ttl.enc() + v.first_acquirer.enc() + v.delivery_count.enc() }
pub closed spec fn header_fenc(v: Header) -> Seq<u8> { header_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn header_enc(v: Header) -> Seq<u8> { denc(112) + (enc_comp(0xc0, 0xd0, 5, header_fenc(v))) }
pub proof fn lemma_header_app(b: Seq<u8>, v: Header)
    ensures header_fapp(b, v) == b + header_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.durable.enc()); let p1 = p0 + v.durable.enc();
    seq_assoc(b, p1, v.priority.enc()); let p2 = p1 + v.priority.enc();
    seq_assoc(b, p2, v.ttl.enc()); let p3 = p2 + v.ttl.enc();
    seq_assoc(b, p3, v.first_acquirer.enc()); let p4 = p3 + v.first_acquirer.enc();
    seq_assoc(b, p4, v.delivery_count.enc()); let p5 = p4 + v.delivery_count.enc();
}
pub proof fn lemma_header_put(b: Seq<u8>, v: Header)
    ensures
        denc(112).len() == 3,
        header_fapp(comp_hdr(b + denc(112), 5, header_fenc(v).len()), v) == b + (denc(112) + enc_comp(0xc0, 0xd0, 5, header_fenc(v))),
        header_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 5, header_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 5, header_fenc(v)).len() == header_fenc(v).len() + (if header_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        header_fenc(v).len() == 0 + v.durable.enc().len() + v.priority.enc().len() + v.ttl.enc().len() + v.first_acquirer.enc().len() + v.delivery_count.enc().len(),
{
    let c = header_fenc(v);
    lemma_denc(112, Seq::empty());
    lemma_header_app(comp_hdr(b + denc(112), 5, c.len()), v);
    lemma_comp_hdr(b + denc(112), 5, c);
    seq_assoc(b, denc(112), enc_comp(0xc0, 0xd0, 5, c));
    lemma_comp_len(0xc0, 0xd0, 5, c);
}
pub closed spec fn header_fdec(s0: Seq<u8>, n: int) -> Option<(Header, Seq<u8>)> {
    match fopt::<bool>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<u8>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<bool>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => None, Some((f4, s5)) =>
    Some((Header { durable: fdef(f0, false), priority: fdef(f1, 4u8), ttl: f2, first_acquirer: fdef(f3, false), delivery_count: fdef(f4, 0u32) }, s5))
    }}}}}
}
pub closed spec fn header_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<bool>(s0, n - 0) { None => fopt_rej::<bool>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<u8>(s1, n - 1) { None => fopt_rej::<u8>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<u32>(s2, n - 2) { None => fopt_rej::<u32>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<bool>(s3, n - 3) { None => fopt_rej::<bool>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<u32>(s4, n - 4) { None => fopt_rej::<u32>(s4, n - 4), Some((f4, s5)) =>
    false
    }}}}}
}
pub closed spec fn header_idec(s: Seq<u8>) -> Option<(Header, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match header_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 5 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn header_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => header_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Header
//@method FIELD_COUNT
    ensures r == 5
//@end
//@fn codec/src/protocol/definitions.rs decode_header_inner
    ensures
        suffix(final(input)@, old(input)@),
        match header_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Header, AmqpParseError>(v) && final(input)@ == rest,
            None => header_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_header_inner
    requires header_enc(*list).len() <= u32::MAX
    ensures r == header_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_header_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_header_inner
    requires header_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + header_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_header_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Header"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 112, lit!("amqp:header:list")) { header_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 112, lit!("amqp:header:list")) || header_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Header"
    closed spec fn enc(&self) -> Seq<u8> { header_enc(*self) }
//@end
pub proof fn lemma_header_nn(v: Header)
    ensures header_enc(v).len() >= 3, header_enc(v)[0] == 0, v.enc() == header_enc(v), v.wf() == header_wf(v)
{ lemma_denc(112, Seq::empty()); }
pub closed spec fn header_wf(v: Header) -> bool { v.durable.wf() && v.priority.wf() && owf(v.ttl) && v.first_acquirer.wf() && v.delivery_count.wf() }
pub proof fn lemma_header_fields(v: Header)
    requires header_wf(v), header_fenc(v).len() <= u32::MAX
    ensures header_fdec(header_fenc(v), 5) == Some((v, Seq::<u8>::empty())), header_fenc(v).len() >= 5
{
    let r5 = Seq::<u8>::empty();
    let r4 = v.delivery_count.enc() + r5;
    let r3 = v.first_acquirer.enc() + r4;
    let r2 = v.ttl.enc() + r3;
    let r1 = v.priority.enc() + r2;
    let r0 = v.durable.enc() + r1;
    lemma_header_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.durable.enc(), r1); let p1 = p0 + v.durable.enc();
    seq_assoc(p1, v.priority.enc(), r2); let p2 = p1 + v.priority.enc();
    seq_assoc(p2, v.ttl.enc(), r3); let p3 = p2 + v.ttl.enc();
    seq_assoc(p3, v.first_acquirer.enc(), r4); let p4 = p3 + v.first_acquirer.enc();
    seq_assoc(p4, v.delivery_count.enc(), r5); let p5 = p4 + v.delivery_count.enc();
    assert(p5 + r5 =~= p5);
    lemma_fdef(v.durable, r1, 5 - 0);
    bool::nn(v.durable);
    lemma_fdef(v.priority, r2, 5 - 1);
    u8::nn(v.priority);
    lemma_fopt(v.ttl, r3, 5 - 2);
    lemma_nn_opt(v.ttl);
    lemma_fdef(v.first_acquirer, r4, 5 - 3);
    bool::nn(v.first_acquirer);
    lemma_fdef(v.delivery_count, r5, 5 - 4);
    u32::nn(v.delivery_count);
    assert(header_fenc(v) == r0);
}
pub proof fn lemma_header_rt(v: Header, rest: Seq<u8>)
    requires header_wf(v), header_enc(v).len() <= u32::MAX
    ensures header_enc(v).len() >= 1, header_enc(v)[0] == 0, Descriptor::dec((header_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(112), enc_comp(0xc0, 0xd0, 5, header_fenc(v)) + rest)),
        header_idec(enc_comp(0xc0, 0xd0, 5, header_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 5, header_fenc(v)) + rest;
    lemma_denc(112, l);
    lemma_comp_len(0xc0, 0xd0, 5, header_fenc(v));
    lemma_header_fields(v);
    lemma_list_split(5, header_fenc(v), rest);
    assert(header_enc(v) + rest =~= denc(112) + l);
}
impl RoundTrip for Header {
    closed spec fn wf(&self) -> bool { header_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_header_rt(v, rest); }
}
impl NotNull for Header { proof fn nn(v: Self) { lemma_denc(112, Seq::empty()); } }

} // verus!
}
pub use m_header::*;
// ---- Properties
pub mod m_properties {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn properties_fapp(b: Seq<u8>, v: Properties) -> Seq<u8> { b + v.message_id.enc() + v.user_id.enc() + v.to.enc() + v.subject.enc() + v.reply_to.enc() + v.correlation_id.enc() + v.content_type.enc() + v.content_encoding.enc() + v.absolute_expiry_time.enc() + v.creation_time.enc() + v.group_id.enc() + v.group_sequence.enc() + v.reply_to_group_id.enc() }
pub closed spec fn properties_fenc(v: Properties) -> Seq<u8> { properties_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn properties_enc(v: Properties) -> Seq<u8> { denc(115) + (enc_comp(0xc0, 0xd0, 13, properties_fenc(v))) }
pub proof fn lemma_properties_app(b: Seq<u8>, v: Properties)
    ensures properties_fapp(b, v) == b + properties_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.message_id.enc()); let p1 = p0 + v.message_id.enc();
    seq_assoc(b, p1, v.user_id.enc()); let p2 = p1 + v.user_id.enc();
    seq_assoc(b, p2, v.to.enc()); let p3 = p2 + v.to.enc();
    seq_assoc(b, p3, v.subject.enc()); let p4 = p3 + v.subject.enc();
    seq_assoc(b, p4, v.reply_to.enc()); let p5 = p4 + v.reply_to.enc();
    seq_assoc(b, p5, v.correlation_id.enc()); let p6 = p5 + v.correlation_id.enc();
    seq_assoc(b, p6, v.content_type.enc()); let p7 = p6 + v.content_type.enc();
    seq_assoc(b, p7, v.content_encoding.enc()); let p8 = p7 + v.content_encoding.enc();
    seq_assoc(b, p8, v.absolute_expiry_time.enc()); let p9 = p8 + v.absolute_expiry_time.enc();
    seq_assoc(b, p9, v.creation_time.enc()); let p10 = p9 + v.creation_time.enc();
    seq_assoc(b, p10, v.group_id.enc()); let p11 = p10 + v.group_id.enc();
    seq_assoc(b, p11, v.group_sequence.enc()); let p12 = p11 + v.group_sequence.enc();
    seq_assoc(b, p12, v.reply_to_group_id.enc()); let p13 = p12 + v.reply_to_group_id.enc();
}
pub proof fn lemma_properties_put(b: Seq<u8>, v: Properties)
    ensures
        denc(115).len() == 3,
        properties_fapp(comp_hdr(b + denc(115), 13, properties_fenc(v).len()), v) == b + (denc(115) + enc_comp(0xc0, 0xd0, 13, properties_fenc(v))),
        properties_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 13, properties_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 13, properties_fenc(v)).len() == properties_fenc(v).len() + (if properties_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        properties_fenc(v).len() == 0 + v.message_id.enc().len() + v.user_id.enc().len() + v.to.enc().len() + v.subject.enc().len() + v.reply_to.enc().len() + v.correlation_id.enc().len() + v.content_type.enc().len() + v.content_encoding.enc().len() + v.absolute_expiry_time.enc().len() + v.creation_time.enc().len() + v.group_id.enc().len() + v.group_sequence.enc().len() + v.reply_to_group_id.enc().len(),
{
    let c = properties_fenc(v);
    lemma_denc(115, Seq::empty());
    lemma_properties_app(comp_hdr(b + denc(115), 13, c.len()), v);
    lemma_comp_hdr(b + denc(115), 13, c);
    seq_assoc(b, denc(115), enc_comp(0xc0, 0xd0, 13, c));
    lemma_comp_len(0xc0, 0xd0, 13, c);
}
pub closed spec fn properties_fdec(s0: Seq<u8>, n: int) -> Option<(Properties, Seq<u8>)> {
    match fopt::<MessageId>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<ByteString>(s2, n - 2) { None => None, Some((f2, s3)) =>
    match fopt::<ByteString>(s3, n - 3) { None => None, Some((f3, s4)) =>
    match fopt::<ByteString>(s4, n - 4) { None => None, Some((f4, s5)) =>
    match fopt::<MessageId>(s5, n - 5) { None => None, Some((f5, s6)) =>
    match fopt::<Symbol>(s6, n - 6) { None => None, Some((f6, s7)) =>
    match fopt::<Symbol>(s7, n - 7) { None => None, Some((f7, s8)) =>
    match fopt::<DateTime<Utc>>(s8, n - 8) { None => None, Some((f8, s9)) =>
    match fopt::<DateTime<Utc>>(s9, n - 9) { None => None, Some((f9, s10)) =>
    match fopt::<ByteString>(s10, n - 10) { None => None, Some((f10, s11)) =>
    match fopt::<u32>(s11, n - 11) { None => None, Some((f11, s12)) =>
    match fopt::<ByteString>(s12, n - 12) { None => None, Some((f12, s13)) =>
    Some((Properties { message_id: f0, user_id: f1, to: f2, subject: f3, reply_to: f4, correlation_id: f5, content_type: f6, content_encoding: f7, absolute_expiry_time: f8, creation_time: f9, group_id: f10, group_sequence: f11, reply_to_group_id: f12 }, s13))
    }}}}}}}}}}}}}
}
pub closed spec fn properties_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<MessageId>(s0, n - 0) { None => fopt_rej::<MessageId>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<Bytes>(s1, n - 1) { None => fopt_rej::<Bytes>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<ByteString>(s2, n - 2) { None => fopt_rej::<ByteString>(s2, n - 2), Some((f2, s3)) =>
    match fopt::<ByteString>(s3, n - 3) { None => fopt_rej::<ByteString>(s3, n - 3), Some((f3, s4)) =>
    match fopt::<ByteString>(s4, n - 4) { None => fopt_rej::<ByteString>(s4, n - 4), Some((f4, s5)) =>
    match fopt::<MessageId>(s5, n - 5) { None => fopt_rej::<MessageId>(s5, n - 5), Some((f5, s6)) =>
    match fopt::<Symbol>(s6, n - 6) { None => fopt_rej::<Symbol>(s6, n - 6), Some((f6, s7)) =>
    match fopt::<Symbol>(s7, n - 7) { None => fopt_rej::<Symbol>(s7, n - 7), Some((f7, s8)) =>
    match fopt::<DateTime<Utc>>(s8, n - 8) { None => fopt_rej::<DateTime<Utc>>(s8, n - 8), Some((f8, s9)) =>
    match fopt::<DateTime<Utc>>(s9, n - 9) { None => fopt_rej::<DateTime<Utc>>(s9, n - 9), Some((f9, s10)) =>
    match fopt::<ByteString>(s10, n - 10) { None => fopt_rej::<ByteString>(s10, n - 10), Some((f10, s11)) =>
    match fopt::<u32>(s11, n - 11) { None => fopt_rej::<u32>(s11, n - 11), Some((f11, s12)) =>
    match fopt::<ByteString>(s12, n - 12) { None => fopt_rej::<ByteString>(s12, n - 12), Some((f12, s13)) =>
    false
    }}}}}}}}}}}}}
}
pub closed spec fn properties_idec(s: Seq<u8>) -> Option<(Properties, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match properties_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 13 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn properties_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => properties_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Properties
//@method FIELD_COUNT
    ensures r == 13
//@end
//@fn codec/src/protocol/definitions.rs decode_properties_inner
    ensures
        suffix(final(input)@, old(input)@),
        match properties_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Properties, AmqpParseError>(v) && final(input)@ == rest,
            None => properties_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_properties_inner
    requires properties_enc(*list).len() <= u32::MAX
    ensures r == properties_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_properties_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_properties_inner
    requires properties_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + properties_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_properties_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Properties"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 115, lit!("amqp:properties:list")) { properties_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 115, lit!("amqp:properties:list")) || properties_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Properties"
    closed spec fn enc(&self) -> Seq<u8> { properties_enc(*self) }
//@end
pub proof fn lemma_properties_nn(v: Properties)
    ensures properties_enc(v).len() >= 3, properties_enc(v)[0] == 0, v.enc() == properties_enc(v), v.wf() == properties_wf(v)
{ lemma_denc(115, Seq::empty()); }
pub closed spec fn properties_wf(v: Properties) -> bool { owf(v.message_id) && owf(v.user_id) && owf(v.to) && owf(v.subject) && owf(v.reply_to) && owf(v.correlation_id) && owf(v.content_type) && owf(v.content_encoding) && owf(v.absolute_expiry_time) && owf(v.creation_time) && owf(v.group_id) && owf(v.group_sequence) && owf(v.reply_to_group_id) }
pub proof fn lemma_properties_fields(v: Properties)
    requires properties_wf(v), properties_fenc(v).len() <= u32::MAX
    ensures properties_fdec(properties_fenc(v), 13) == Some((v, Seq::<u8>::empty())), properties_fenc(v).len() >= 13
{
    let r13 = Seq::<u8>::empty();
    let r12 = v.reply_to_group_id.enc() + r13;
    let r11 = v.group_sequence.enc() + r12;
    let r10 = v.group_id.enc() + r11;
    let r9 = v.creation_time.enc() + r10;
    let r8 = v.absolute_expiry_time.enc() + r9;
    let r7 = v.content_encoding.enc() + r8;
    let r6 = v.content_type.enc() + r7;
    let r5 = v.correlation_id.enc() + r6;
    let r4 = v.reply_to.enc() + r5;
    let r3 = v.subject.enc() + r4;
    let r2 = v.to.enc() + r3;
    let r1 = v.user_id.enc() + r2;
    let r0 = v.message_id.enc() + r1;
    lemma_properties_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.message_id.enc(), r1); let p1 = p0 + v.message_id.enc();
    seq_assoc(p1, v.user_id.enc(), r2); let p2 = p1 + v.user_id.enc();
    seq_assoc(p2, v.to.enc(), r3); let p3 = p2 + v.to.enc();
    seq_assoc(p3, v.subject.enc(), r4); let p4 = p3 + v.subject.enc();
    seq_assoc(p4, v.reply_to.enc(), r5); let p5 = p4 + v.reply_to.enc();
    seq_assoc(p5, v.correlation_id.enc(), r6); let p6 = p5 + v.correlation_id.enc();
    seq_assoc(p6, v.content_type.enc(), r7); let p7 = p6 + v.content_type.enc();
    seq_assoc(p7, v.content_encoding.enc(), r8); let p8 = p7 + v.content_encoding.enc();
    seq_assoc(p8, v.absolute_expiry_time.enc(), r9); let p9 = p8 + v.absolute_expiry_time.enc();
    seq_assoc(p9, v.creation_time.enc(), r10); let p10 = p9 + v.creation_time.enc();
    seq_assoc(p10, v.group_id.enc(), r11); let p11 = p10 + v.group_id.enc();
    seq_assoc(p11, v.group_sequence.enc(), r12); let p12 = p11 + v.group_sequence.enc();
    seq_assoc(p12, v.reply_to_group_id.enc(), r13); let p13 = p12 + v.reply_to_group_id.enc();
    assert(p13 + r13 =~= p13);
    lemma_fopt(v.message_id, r1, 13 - 0);
    lemma_nn_opt(v.message_id);
    lemma_fopt(v.user_id, r2, 13 - 1);
    lemma_nn_opt(v.user_id);
    lemma_fopt(v.to, r3, 13 - 2);
    lemma_nn_opt(v.to);
    lemma_fopt(v.subject, r4, 13 - 3);
    lemma_nn_opt(v.subject);
    lemma_fopt(v.reply_to, r5, 13 - 4);
    lemma_nn_opt(v.reply_to);
    lemma_fopt(v.correlation_id, r6, 13 - 5);
    lemma_nn_opt(v.correlation_id);
    lemma_fopt(v.content_type, r7, 13 - 6);
    lemma_nn_opt(v.content_type);
    lemma_fopt(v.content_encoding, r8, 13 - 7);
    lemma_nn_opt(v.content_encoding);
    lemma_fopt(v.absolute_expiry_time, r9, 13 - 8);
    lemma_nn_opt(v.absolute_expiry_time);
    lemma_fopt(v.creation_time, r10, 13 - 9);
    lemma_nn_opt(v.creation_time);
    lemma_fopt(v.group_id, r11, 13 - 10);
    lemma_nn_opt(v.group_id);
    lemma_fopt(v.group_sequence, r12, 13 - 11);
    lemma_nn_opt(v.group_sequence);
    lemma_fopt(v.reply_to_group_id, r13, 13 - 12);
    lemma_nn_opt(v.reply_to_group_id);
    assert(properties_fenc(v) == r0);
}
pub proof fn lemma_properties_rt(v: Properties, rest: Seq<u8>)
    requires properties_wf(v), properties_enc(v).len() <= u32::MAX
    ensures properties_enc(v).len() >= 1, properties_enc(v)[0] == 0, Descriptor::dec((properties_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(115), enc_comp(0xc0, 0xd0, 13, properties_fenc(v)) + rest)),
        properties_idec(enc_comp(0xc0, 0xd0, 13, properties_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 13, properties_fenc(v)) + rest;
    lemma_denc(115, l);
    lemma_comp_len(0xc0, 0xd0, 13, properties_fenc(v));
    lemma_properties_fields(v);
    lemma_list_split(13, properties_fenc(v), rest);
    assert(properties_enc(v) + rest =~= denc(115) + l);
}
impl RoundTrip for Properties {
    closed spec fn wf(&self) -> bool { properties_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_properties_rt(v, rest); }
}
impl NotNull for Properties { proof fn nn(v: Self) { lemma_denc(115, Seq::empty()); } }

} // verus!
}
pub use m_properties::*;
// ---- Received
pub mod m_received {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn received_fapp(b: Seq<u8>, v: Received) -> Seq<u8> { b + v.section_number.enc() + v.section_offset.enc() }
pub closed spec fn received_fenc(v: Received) -> Seq<u8> { received_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn received_enc(v: Received) -> Seq<u8> { denc(35) + (enc_comp(0xc0, 0xd0, 2, received_fenc(v))) }
pub proof fn lemma_received_app(b: Seq<u8>, v: Received)
    ensures received_fapp(b, v) == b + received_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.section_number.enc()); let p1 = p0 + v.section_number.enc();
    seq_assoc(b, p1, v.section_offset.enc()); let p2 = p1 + v.section_offset.enc();
}
pub proof fn lemma_received_put(b: Seq<u8>, v: Received)
    ensures
        denc(35).len() == 3,
        received_fapp(comp_hdr(b + denc(35), 2, received_fenc(v).len()), v) == b + (denc(35) + enc_comp(0xc0, 0xd0, 2, received_fenc(v))),
        received_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 2, received_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 2, received_fenc(v)).len() == received_fenc(v).len() + (if received_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        received_fenc(v).len() == 0 + v.section_number.enc().len() + v.section_offset.enc().len(),
{
    let c = received_fenc(v);
    lemma_denc(35, Seq::empty());
    lemma_received_app(comp_hdr(b + denc(35), 2, c.len()), v);
    lemma_comp_hdr(b + denc(35), 2, c);
    seq_assoc(b, denc(35), enc_comp(0xc0, 0xd0, 2, c));
    lemma_comp_len(0xc0, 0xd0, 2, c);
}
pub closed spec fn received_fdec(s0: Seq<u8>, n: int) -> Option<(Received, Seq<u8>)> {
    match fman::<u32>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fman::<u64>(s1, n - 1) { None => None, Some((f1, s2)) =>
    Some((Received { section_number: f0, section_offset: f1 }, s2))
    }}
}
pub closed spec fn received_frej(s0: Seq<u8>, n: int) -> bool {
    match fman::<u32>(s0, n - 0) { None => fman_rej::<u32>(s0, n - 0), Some((f0, s1)) =>
    match fman::<u64>(s1, n - 1) { None => fman_rej::<u64>(s1, n - 1), Some((f1, s2)) =>
    false
    }}
}
pub closed spec fn received_idec(s: Seq<u8>) -> Option<(Received, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match received_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 2 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn received_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => received_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Received
//@method FIELD_COUNT
    ensures r == 2
//@end
//@fn codec/src/protocol/definitions.rs decode_received_inner
    ensures
        suffix(final(input)@, old(input)@),
        match received_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Received, AmqpParseError>(v) && final(input)@ == rest,
            None => received_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_received_inner
    requires received_enc(*list).len() <= u32::MAX
    ensures r == received_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_received_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_received_inner
    requires received_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + received_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_received_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Received"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 35, lit!("amqp:received:list")) { received_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 35, lit!("amqp:received:list")) || received_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Received"
    closed spec fn enc(&self) -> Seq<u8> { received_enc(*self) }
//@end
pub proof fn lemma_received_nn(v: Received)
    ensures received_enc(v).len() >= 3, received_enc(v)[0] == 0, v.enc() == received_enc(v), v.wf() == received_wf(v)
{ lemma_denc(35, Seq::empty()); }
pub closed spec fn received_wf(v: Received) -> bool { v.section_number.wf() && v.section_offset.wf() }
pub proof fn lemma_received_fields(v: Received)
    requires received_wf(v), received_fenc(v).len() <= u32::MAX
    ensures received_fdec(received_fenc(v), 2) == Some((v, Seq::<u8>::empty())), received_fenc(v).len() >= 2
{
    let r2 = Seq::<u8>::empty();
    let r1 = v.section_offset.enc() + r2;
    let r0 = v.section_number.enc() + r1;
    lemma_received_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.section_number.enc(), r1); let p1 = p0 + v.section_number.enc();
    seq_assoc(p1, v.section_offset.enc(), r2); let p2 = p1 + v.section_offset.enc();
    assert(p2 + r2 =~= p2);
    lemma_fman(v.section_number, r1, 2 - 0);
    u32::nn(v.section_number);
    lemma_fman(v.section_offset, r2, 2 - 1);
    u64::nn(v.section_offset);
    assert(received_fenc(v) == r0);
}
pub proof fn lemma_received_rt(v: Received, rest: Seq<u8>)
    requires received_wf(v), received_enc(v).len() <= u32::MAX
    ensures received_enc(v).len() >= 1, received_enc(v)[0] == 0, Descriptor::dec((received_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(35), enc_comp(0xc0, 0xd0, 2, received_fenc(v)) + rest)),
        received_idec(enc_comp(0xc0, 0xd0, 2, received_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 2, received_fenc(v)) + rest;
    lemma_denc(35, l);
    lemma_comp_len(0xc0, 0xd0, 2, received_fenc(v));
    lemma_received_fields(v);
    lemma_list_split(2, received_fenc(v), rest);
    assert(received_enc(v) + rest =~= denc(35) + l);
}
impl RoundTrip for Received {
    closed spec fn wf(&self) -> bool { received_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_received_rt(v, rest); }
}
impl NotNull for Received { proof fn nn(v: Self) { lemma_denc(35, Seq::empty()); } }

} // verus!
}
pub use m_received::*;
// ---- Accepted
pub mod m_accepted {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn accepted_fapp(b: Seq<u8>, v: Accepted) -> Seq<u8> { b }
pub closed spec fn accepted_fenc(v: Accepted) -> Seq<u8> { accepted_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn accepted_enc(v: Accepted) -> Seq<u8> { denc(36) + (enc_comp(0xc0, 0xd0, 0, accepted_fenc(v))) }
pub proof fn lemma_accepted_app(b: Seq<u8>, v: Accepted)
    ensures accepted_fapp(b, v) == b + accepted_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
}
pub proof fn lemma_accepted_put(b: Seq<u8>, v: Accepted)
    ensures
        denc(36).len() == 3,
        accepted_fapp(comp_hdr(b + denc(36), 0, accepted_fenc(v).len()), v) == b + (denc(36) + enc_comp(0xc0, 0xd0, 0, accepted_fenc(v))),
        accepted_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 0, accepted_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 0, accepted_fenc(v)).len() == accepted_fenc(v).len() + (if accepted_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        accepted_fenc(v).len() == 0,
{
    let c = accepted_fenc(v);
    lemma_denc(36, Seq::empty());
    lemma_accepted_app(comp_hdr(b + denc(36), 0, c.len()), v);
    lemma_comp_hdr(b + denc(36), 0, c);
    seq_assoc(b, denc(36), enc_comp(0xc0, 0xd0, 0, c));
    lemma_comp_len(0xc0, 0xd0, 0, c);
}
pub closed spec fn accepted_fdec(s0: Seq<u8>, n: int) -> Option<(Accepted, Seq<u8>)> {
    Some((Accepted {  }, s0))
    
}
pub closed spec fn accepted_frej(s0: Seq<u8>, n: int) -> bool {
    false
    
}
pub closed spec fn accepted_idec(s: Seq<u8>) -> Option<(Accepted, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match accepted_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 0 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn accepted_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => accepted_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Accepted
//@method FIELD_COUNT
    ensures r == 0
//@end
//@fn codec/src/protocol/definitions.rs decode_accepted_inner
    ensures
        suffix(final(input)@, old(input)@),
        match accepted_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Accepted, AmqpParseError>(v) && final(input)@ == rest,
            None => accepted_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_accepted_inner
    requires accepted_enc(*list).len() <= u32::MAX
    ensures r == accepted_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_accepted_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_accepted_inner
    requires accepted_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + accepted_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_accepted_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Accepted"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 36, lit!("amqp:accepted:list")) { accepted_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 36, lit!("amqp:accepted:list")) || accepted_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Accepted"
    closed spec fn enc(&self) -> Seq<u8> { accepted_enc(*self) }
//@end
pub proof fn lemma_accepted_nn(v: Accepted)
    ensures accepted_enc(v).len() >= 3, accepted_enc(v)[0] == 0, v.enc() == accepted_enc(v), v.wf() == accepted_wf(v)
{ lemma_denc(36, Seq::empty()); }
pub closed spec fn accepted_wf(v: Accepted) -> bool { true }
pub proof fn lemma_accepted_fields(v: Accepted)
    requires accepted_wf(v), accepted_fenc(v).len() <= u32::MAX
    ensures accepted_fdec(accepted_fenc(v), 0) == Some((v, Seq::<u8>::empty())), accepted_fenc(v).len() >= 0
{
    let r0 = Seq::<u8>::empty();
    lemma_accepted_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    assert(p0 + r0 =~= p0);
    assert(accepted_fenc(v) == r0);
}
pub proof fn lemma_accepted_rt(v: Accepted, rest: Seq<u8>)
    requires accepted_wf(v), accepted_enc(v).len() <= u32::MAX
    ensures accepted_enc(v).len() >= 1, accepted_enc(v)[0] == 0, Descriptor::dec((accepted_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(36), enc_comp(0xc0, 0xd0, 0, accepted_fenc(v)) + rest)),
        accepted_idec(enc_comp(0xc0, 0xd0, 0, accepted_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 0, accepted_fenc(v)) + rest;
    lemma_denc(36, l);
    lemma_comp_len(0xc0, 0xd0, 0, accepted_fenc(v));
    lemma_accepted_fields(v);
    lemma_list_split(0, accepted_fenc(v), rest);
    assert(accepted_enc(v) + rest =~= denc(36) + l);
}
impl RoundTrip for Accepted {
    closed spec fn wf(&self) -> bool { accepted_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_accepted_rt(v, rest); }
}
impl NotNull for Accepted { proof fn nn(v: Self) { lemma_denc(36, Seq::empty()); } }

} // verus!
}
pub use m_accepted::*;
// ---- Rejected
pub mod m_rejected {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn rejected_fapp(b: Seq<u8>, v: Rejected) -> Seq<u8> { b + v.error.enc() }
pub closed spec fn rejected_fenc(v: Rejected) -> Seq<u8> { rejected_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn rejected_enc(v: Rejected) -> Seq<u8> { denc(37) + (enc_comp(0xc0, 0xd0, 1, rejected_fenc(v))) }
pub proof fn lemma_rejected_app(b: Seq<u8>, v: Rejected)
    ensures rejected_fapp(b, v) == b + rejected_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.error.enc()); let p1 = p0 + v.error.enc();
}
pub proof fn lemma_rejected_put(b: Seq<u8>, v: Rejected)
    ensures
        denc(37).len() == 3,
        rejected_fapp(comp_hdr(b + denc(37), 1, rejected_fenc(v).len()), v) == b + (denc(37) + enc_comp(0xc0, 0xd0, 1, rejected_fenc(v))),
        rejected_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 1, rejected_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 1, rejected_fenc(v)).len() == rejected_fenc(v).len() + (if rejected_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        rejected_fenc(v).len() == 0 + v.error.enc().len(),
{
    let c = rejected_fenc(v);
    lemma_denc(37, Seq::empty());
    lemma_rejected_app(comp_hdr(b + denc(37), 1, c.len()), v);
    lemma_comp_hdr(b + denc(37), 1, c);
    seq_assoc(b, denc(37), enc_comp(0xc0, 0xd0, 1, c));
    lemma_comp_len(0xc0, 0xd0, 1, c);
}
pub closed spec fn rejected_fdec(s0: Seq<u8>, n: int) -> Option<(Rejected, Seq<u8>)> {
    match fopt::<Error>(s0, n - 0) { None => None, Some((f0, s1)) =>
    Some((Rejected { error: f0 }, s1))
    }
}
pub closed spec fn rejected_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<Error>(s0, n - 0) { None => fopt_rej::<Error>(s0, n - 0), Some((f0, s1)) =>
    false
    }
}
pub closed spec fn rejected_idec(s: Seq<u8>) -> Option<(Rejected, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match rejected_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 1 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn rejected_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => rejected_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Rejected
//@method FIELD_COUNT
    ensures r == 1
//@end
//@fn codec/src/protocol/definitions.rs decode_rejected_inner
    ensures
        suffix(final(input)@, old(input)@),
        match rejected_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Rejected, AmqpParseError>(v) && final(input)@ == rest,
            None => rejected_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_rejected_inner
    requires rejected_enc(*list).len() <= u32::MAX
    ensures r == rejected_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_rejected_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_rejected_inner
    requires rejected_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + rejected_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_rejected_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Rejected"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 37, lit!("amqp:rejected:list")) { rejected_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 37, lit!("amqp:rejected:list")) || rejected_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Rejected"
    closed spec fn enc(&self) -> Seq<u8> { rejected_enc(*self) }
//@end
pub proof fn lemma_rejected_nn(v: Rejected)
    ensures rejected_enc(v).len() >= 3, rejected_enc(v)[0] == 0, v.enc() == rejected_enc(v), v.wf() == rejected_wf(v)
{ lemma_denc(37, Seq::empty()); }
pub closed spec fn rejected_wf(v: Rejected) -> bool { owf(v.error) }
pub proof fn lemma_rejected_fields(v: Rejected)
    requires rejected_wf(v), rejected_fenc(v).len() <= u32::MAX
    ensures rejected_fdec(rejected_fenc(v), 1) == Some((v, Seq::<u8>::empty())), rejected_fenc(v).len() >= 1
{
    let r1 = Seq::<u8>::empty();
    let r0 = v.error.enc() + r1;
    lemma_rejected_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.error.enc(), r1); let p1 = p0 + v.error.enc();
    assert(p1 + r1 =~= p1);
    lemma_fopt(v.error, r1, 1 - 0);
    lemma_nn_opt(v.error);
    assert(rejected_fenc(v) == r0);
}
pub proof fn lemma_rejected_rt(v: Rejected, rest: Seq<u8>)
    requires rejected_wf(v), rejected_enc(v).len() <= u32::MAX
    ensures rejected_enc(v).len() >= 1, rejected_enc(v)[0] == 0, Descriptor::dec((rejected_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(37), enc_comp(0xc0, 0xd0, 1, rejected_fenc(v)) + rest)),
        rejected_idec(enc_comp(0xc0, 0xd0, 1, rejected_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 1, rejected_fenc(v)) + rest;
    lemma_denc(37, l);
    lemma_comp_len(0xc0, 0xd0, 1, rejected_fenc(v));
    lemma_rejected_fields(v);
    lemma_list_split(1, rejected_fenc(v), rest);
    assert(rejected_enc(v) + rest =~= denc(37) + l);
}
impl RoundTrip for Rejected {
    closed spec fn wf(&self) -> bool { rejected_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_rejected_rt(v, rest); }
}
impl NotNull for Rejected { proof fn nn(v: Self) { lemma_denc(37, Seq::empty()); } }

} // verus!
}
pub use m_rejected::*;
// ---- Released
pub mod m_released {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn released_fapp(b: Seq<u8>, v: Released) -> Seq<u8> { b }
pub closed spec fn released_fenc(v: Released) -> Seq<u8> { released_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn released_enc(v: Released) -> Seq<u8> { denc(38) + (enc_comp(0xc0, 0xd0, 0, released_fenc(v))) }
pub proof fn lemma_released_app(b: Seq<u8>, v: Released)
    ensures released_fapp(b, v) == b + released_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
}
pub proof fn lemma_released_put(b: Seq<u8>, v: Released)
    ensures
        denc(38).len() == 3,
        released_fapp(comp_hdr(b + denc(38), 0, released_fenc(v).len()), v) == b + (denc(38) + enc_comp(0xc0, 0xd0, 0, released_fenc(v))),
        released_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 0, released_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 0, released_fenc(v)).len() == released_fenc(v).len() + (if released_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        released_fenc(v).len() == 0,
{
    let c = released_fenc(v);
    lemma_denc(38, Seq::empty());
    lemma_released_app(comp_hdr(b + denc(38), 0, c.len()), v);
    lemma_comp_hdr(b + denc(38), 0, c);
    seq_assoc(b, denc(38), enc_comp(0xc0, 0xd0, 0, c));
    lemma_comp_len(0xc0, 0xd0, 0, c);
}
pub closed spec fn released_fdec(s0: Seq<u8>, n: int) -> Option<(Released, Seq<u8>)> {
    Some((Released {  }, s0))
    
}
pub closed spec fn released_frej(s0: Seq<u8>, n: int) -> bool {
    false
    
}
pub closed spec fn released_idec(s: Seq<u8>) -> Option<(Released, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match released_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 0 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn released_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => released_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Released
//@method FIELD_COUNT
    ensures r == 0
//@end
//@fn codec/src/protocol/definitions.rs decode_released_inner
    ensures
        suffix(final(input)@, old(input)@),
        match released_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Released, AmqpParseError>(v) && final(input)@ == rest,
            None => released_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_released_inner
    requires released_enc(*list).len() <= u32::MAX
    ensures r == released_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_released_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_released_inner
    requires released_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + released_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_released_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Released"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 38, lit!("amqp:released:list")) { released_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 38, lit!("amqp:released:list")) || released_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Released"
    closed spec fn enc(&self) -> Seq<u8> { released_enc(*self) }
//@end
pub proof fn lemma_released_nn(v: Released)
    ensures released_enc(v).len() >= 3, released_enc(v)[0] == 0, v.enc() == released_enc(v), v.wf() == released_wf(v)
{ lemma_denc(38, Seq::empty()); }
pub closed spec fn released_wf(v: Released) -> bool { true }
pub proof fn lemma_released_fields(v: Released)
    requires released_wf(v), released_fenc(v).len() <= u32::MAX
    ensures released_fdec(released_fenc(v), 0) == Some((v, Seq::<u8>::empty())), released_fenc(v).len() >= 0
{
    let r0 = Seq::<u8>::empty();
    lemma_released_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    assert(p0 + r0 =~= p0);
    assert(released_fenc(v) == r0);
}
pub proof fn lemma_released_rt(v: Released, rest: Seq<u8>)
    requires released_wf(v), released_enc(v).len() <= u32::MAX
    ensures released_enc(v).len() >= 1, released_enc(v)[0] == 0, Descriptor::dec((released_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(38), enc_comp(0xc0, 0xd0, 0, released_fenc(v)) + rest)),
        released_idec(enc_comp(0xc0, 0xd0, 0, released_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 0, released_fenc(v)) + rest;
    lemma_denc(38, l);
    lemma_comp_len(0xc0, 0xd0, 0, released_fenc(v));
    lemma_released_fields(v);
    lemma_list_split(0, released_fenc(v), rest);
    assert(released_enc(v) + rest =~= denc(38) + l);
}
impl RoundTrip for Released {
    closed spec fn wf(&self) -> bool { released_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_released_rt(v, rest); }
}
impl NotNull for Released { proof fn nn(v: Self) { lemma_denc(38, Seq::empty()); } }

} // verus!
}
pub use m_released::*;
// ---- Modified
pub mod m_modified {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
pub closed spec fn modified_fapp(b: Seq<u8>, v: Modified) -> Seq<u8> { b + v.delivery_failed.enc() + v.undeliverable_here.enc() + v.message_annotations.enc() }
pub closed spec fn modified_fenc(v: Modified) -> Seq<u8> { modified_fapp(Seq::<u8>::empty(), v) }
pub closed spec fn modified_enc(v: Modified) -> Seq<u8> { denc(39) + (enc_comp(0xc0, 0xd0, 3, modified_fenc(v))) }
pub proof fn lemma_modified_app(b: Seq<u8>, v: Modified)
    ensures modified_fapp(b, v) == b + modified_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);
    seq_assoc(b, p0, v.delivery_failed.enc()); let p1 = p0 + v.delivery_failed.enc();
    seq_assoc(b, p1, v.undeliverable_here.enc()); let p2 = p1 + v.undeliverable_here.enc();
    seq_assoc(b, p2, v.message_annotations.enc()); let p3 = p2 + v.message_annotations.enc();
}
pub proof fn lemma_modified_put(b: Seq<u8>, v: Modified)
    ensures
        denc(39).len() == 3,
        modified_fapp(comp_hdr(b + denc(39), 3, modified_fenc(v).len()), v) == b + (denc(39) + enc_comp(0xc0, 0xd0, 3, modified_fenc(v))),
        modified_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, 3, modified_fenc(v)).len(),
        enc_comp(0xc0, 0xd0, 3, modified_fenc(v)).len() == modified_fenc(v).len() + (if modified_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        modified_fenc(v).len() == 0 + v.delivery_failed.enc().len() + v.undeliverable_here.enc().len() + v.message_annotations.enc().len(),
{
    let c = modified_fenc(v);
    lemma_denc(39, Seq::empty());
    lemma_modified_app(comp_hdr(b + denc(39), 3, c.len()), v);
    lemma_comp_hdr(b + denc(39), 3, c);
    seq_assoc(b, denc(39), enc_comp(0xc0, 0xd0, 3, c));
    lemma_comp_len(0xc0, 0xd0, 3, c);
}
pub closed spec fn modified_fdec(s0: Seq<u8>, n: int) -> Option<(Modified, Seq<u8>)> {
    match fopt::<bool>(s0, n - 0) { None => None, Some((f0, s1)) =>
    match fopt::<bool>(s1, n - 1) { None => None, Some((f1, s2)) =>
    match fopt::<VecSymbolMap>(s2, n - 2) { None => None, Some((f2, s3)) =>
    Some((Modified { delivery_failed: f0, undeliverable_here: f1, message_annotations: f2 }, s3))
    }}}
}
pub closed spec fn modified_frej(s0: Seq<u8>, n: int) -> bool {
    match fopt::<bool>(s0, n - 0) { None => fopt_rej::<bool>(s0, n - 0), Some((f0, s1)) =>
    match fopt::<bool>(s1, n - 1) { None => fopt_rej::<bool>(s1, n - 1), Some((f1, s2)) =>
    match fopt::<VecSymbolMap>(s2, n - 2) { None => fopt_rej::<VecSymbolMap>(s2, n - 2), Some((f2, s3)) =>
    false
    }}}
}
pub closed spec fn modified_idec(s: Seq<u8>) -> Option<(Modified, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match modified_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= 3 { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}
pub closed spec fn modified_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => modified_frej(data, count as int), None => true } }
//@impl codec/src/protocol/definitions.rs Modified
//@method FIELD_COUNT
    ensures r == 3
//@end
//@fn codec/src/protocol/definitions.rs decode_modified_inner
    ensures
        suffix(final(input)@, old(input)@),
        match modified_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<Modified, AmqpParseError>(v) && final(input)@ == rest,
            None => modified_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_modified_inner
    requires modified_enc(*list).len() <= u32::MAX
    ensures r == modified_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_modified_put(Seq::empty(), v); }
//@end
//@fn codec/src/protocol/definitions.rs encode_modified_inner
    requires modified_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + modified_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_modified_put(buf@, v); }
//@end
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Modified"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, 39, lit!("amqp:modified:list")) { modified_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, 39, lit!("amqp:modified:list")) || modified_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Modified"
    closed spec fn enc(&self) -> Seq<u8> { modified_enc(*self) }
//@end
pub proof fn lemma_modified_nn(v: Modified)
    ensures modified_enc(v).len() >= 3, modified_enc(v)[0] == 0, v.enc() == modified_enc(v), v.wf() == modified_wf(v)
{ lemma_denc(39, Seq::empty()); }
pub closed spec fn modified_wf(v: Modified) -> bool { owf(v.delivery_failed) && owf(v.undeliverable_here) && owf(v.message_annotations) }
pub proof fn lemma_modified_fields(v: Modified)
    requires modified_wf(v), modified_fenc(v).len() <= u32::MAX
    ensures modified_fdec(modified_fenc(v), 3) == Some((v, Seq::<u8>::empty())), modified_fenc(v).len() >= 3
{
    let r3 = Seq::<u8>::empty();
    let r2 = v.message_annotations.enc() + r3;
    let r1 = v.undeliverable_here.enc() + r2;
    let r0 = v.delivery_failed.enc() + r1;
    lemma_modified_put(Seq::empty(), v);
    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);
    seq_assoc(p0, v.delivery_failed.enc(), r1); let p1 = p0 + v.delivery_failed.enc();
    seq_assoc(p1, v.undeliverable_here.enc(), r2); let p2 = p1 + v.undeliverable_here.enc();
    seq_assoc(p2, v.message_annotations.enc(), r3); let p3 = p2 + v.message_annotations.enc();
    assert(p3 + r3 =~= p3);
    lemma_fopt(v.delivery_failed, r1, 3 - 0);
    lemma_nn_opt(v.delivery_failed);
    lemma_fopt(v.undeliverable_here, r2, 3 - 1);
    lemma_nn_opt(v.undeliverable_here);
    lemma_fopt(v.message_annotations, r3, 3 - 2);
    lemma_nn_opt(v.message_annotations);
    assert(modified_fenc(v) == r0);
}
pub proof fn lemma_modified_rt(v: Modified, rest: Seq<u8>)
    requires modified_wf(v), modified_enc(v).len() <= u32::MAX
    ensures modified_enc(v).len() >= 1, modified_enc(v)[0] == 0, Descriptor::dec((modified_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(39), enc_comp(0xc0, 0xd0, 3, modified_fenc(v)) + rest)),
        modified_idec(enc_comp(0xc0, 0xd0, 3, modified_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, 3, modified_fenc(v)) + rest;
    lemma_denc(39, l);
    lemma_comp_len(0xc0, 0xd0, 3, modified_fenc(v));
    lemma_modified_fields(v);
    lemma_list_split(3, modified_fenc(v), rest);
    assert(modified_enc(v) + rest =~= denc(39) + l);
}
impl RoundTrip for Modified {
    closed spec fn wf(&self) -> bool { modified_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_modified_rt(v, rest); }
}
impl NotNull for Modified { proof fn nn(v: Self) { lemma_denc(39, Seq::empty()); } }

} // verus!
}
pub use m_modified::*;
pub mod m_sections {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
// ---- section DeliveryAnnotations
//@fn codec/src/protocol/definitions.rs decode_delivery_annotations_inner
    ensures
        suffix(final(input)@, old(input)@),
        match VecSymbolMap::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<VecSymbolMap, AmqpParseError>(v) && final(input)@ == rest,
            None => VecSymbolMap::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_delivery_annotations_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_delivery_annotations_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(113) + dr.enc())
//@start
    proof { lemma_denc(113, Seq::empty()); }
//@end

// ---- section MessageAnnotations
//@fn codec/src/protocol/definitions.rs decode_message_annotations_inner
    ensures
        suffix(final(input)@, old(input)@),
        match VecSymbolMap::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<VecSymbolMap, AmqpParseError>(v) && final(input)@ == rest,
            None => VecSymbolMap::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_message_annotations_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_message_annotations_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(114) + dr.enc())
//@start
    proof { lemma_denc(114, Seq::empty()); }
//@end

// ---- section ApplicationProperties
//@fn codec/src/protocol/definitions.rs decode_application_properties_inner
    ensures
        suffix(final(input)@, old(input)@),
        match VecStringMap::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<VecStringMap, AmqpParseError>(v) && final(input)@ == rest,
            None => VecStringMap::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_application_properties_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_application_properties_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(116) + dr.enc())
//@start
    proof { lemma_denc(116, Seq::empty()); }
//@end

// ---- section Data
//@fn codec/src/protocol/definitions.rs decode_data_inner
    ensures
        suffix(final(input)@, old(input)@),
        match Bytes::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<Bytes, AmqpParseError>(v) && final(input)@ == rest,
            None => Bytes::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_data_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_data_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(117) + dr.enc())
//@start
    proof { lemma_denc(117, Seq::empty()); }
//@end

// ---- section AmqpSequence
//@fn codec/src/protocol/definitions.rs decode_amqp_sequence_inner
    ensures
        suffix(final(input)@, old(input)@),
        match List::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<List, AmqpParseError>(v) && final(input)@ == rest,
            None => List::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_amqp_sequence_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_amqp_sequence_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(118) + dr.enc())
//@start
    proof { lemma_denc(118, Seq::empty()); }
//@end

// ---- section AmqpValue
//@fn codec/src/protocol/definitions.rs decode_amqp_value_inner
    ensures
        suffix(final(input)@, old(input)@),
        match Variant::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<Variant, AmqpParseError>(v) && final(input)@ == rest,
            None => Variant::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_amqp_value_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_amqp_value_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(119) + dr.enc())
//@start
    proof { lemma_denc(119, Seq::empty()); }
//@end

// ---- section Footer
//@fn codec/src/protocol/definitions.rs decode_footer_inner
    ensures
        suffix(final(input)@, old(input)@),
        match HashMap::<Symbol, Variant>::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<HashMap<Symbol, Variant>, AmqpParseError>(v) && final(input)@ == rest,
            None => HashMap::<Symbol, Variant>::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn codec/src/protocol/definitions.rs encoded_size_footer_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn codec/src/protocol/definitions.rs encode_footer_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(120) + dr.enc())
//@start
    proof { lemma_denc(120, Seq::empty()); }
//@end

} // verus!
}
pub use m_sections::*;
// ---- DeliveryState
pub mod m_delivery_state {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
//@item codec/src/protocol/definitions.rs DeliveryState
pub closed spec fn delivery_state_ddec(d: Descriptor, r: Seq<u8>) -> Option<(DeliveryState, Seq<u8>)> {
    if desc_is(d, 35, lit!("amqp:received:list")) { match received_idec(r) { Some((v, r2)) => Some((DeliveryState::Received(v), r2)), None => None } } else
    if desc_is(d, 36, lit!("amqp:accepted:list")) { match accepted_idec(r) { Some((v, r2)) => Some((DeliveryState::Accepted(v), r2)), None => None } } else
    if desc_is(d, 37, lit!("amqp:rejected:list")) { match rejected_idec(r) { Some((v, r2)) => Some((DeliveryState::Rejected(v), r2)), None => None } } else
    if desc_is(d, 38, lit!("amqp:released:list")) { match released_idec(r) { Some((v, r2)) => Some((DeliveryState::Released(v), r2)), None => None } } else
    if desc_is(d, 39, lit!("amqp:modified:list")) { match modified_idec(r) { Some((v, r2)) => Some((DeliveryState::Modified(v), r2)), None => None } } else
    { None }
}
pub closed spec fn delivery_state_drej(d: Descriptor, r: Seq<u8>) -> bool {
    if desc_is(d, 35, lit!("amqp:received:list")) { received_irej(r) } else
    if desc_is(d, 36, lit!("amqp:accepted:list")) { accepted_irej(r) } else
    if desc_is(d, 37, lit!("amqp:rejected:list")) { rejected_irej(r) } else
    if desc_is(d, 38, lit!("amqp:released:list")) { released_irej(r) } else
    if desc_is(d, 39, lit!("amqp:modified:list")) { modified_irej(r) } else
    { true }
}
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for DeliveryState" hint="litf!{amqp:received:list}; litf!{amqp:accepted:list}; litf!{amqp:rejected:list}; litf!{amqp:released:list}; litf!{amqp:modified:list}; "
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => delivery_state_ddec(d, r), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => delivery_state_drej(d, r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for DeliveryState" hint=""
    closed spec fn enc(&self) -> Seq<u8> { match *self { DeliveryState::Received(v) => received_enc(v), DeliveryState::Accepted(v) => accepted_enc(v), DeliveryState::Rejected(v) => rejected_enc(v), DeliveryState::Released(v) => released_enc(v), DeliveryState::Modified(v) => modified_enc(v) } }
//@end
pub proof fn lemma_delivery_state_enc(x: DeliveryState)
    ensures x.enc() == (match x { DeliveryState::Received(v) => received_enc(v), DeliveryState::Accepted(v) => accepted_enc(v), DeliveryState::Rejected(v) => rejected_enc(v), DeliveryState::Released(v) => released_enc(v), DeliveryState::Modified(v) => modified_enc(v) }), x.wf() == (match x { DeliveryState::Received(v) => v.wf(), DeliveryState::Accepted(v) => v.wf(), DeliveryState::Rejected(v) => v.wf(), DeliveryState::Released(v) => v.wf(), DeliveryState::Modified(v) => v.wf() })
{ match x { DeliveryState::Received(v) => { lemma_received_nn(v) }, DeliveryState::Accepted(v) => { lemma_accepted_nn(v) }, DeliveryState::Rejected(v) => { lemma_rejected_nn(v) }, DeliveryState::Released(v) => { lemma_released_nn(v) }, DeliveryState::Modified(v) => { lemma_modified_nn(v) } } }
impl RoundTrip for DeliveryState {
    closed spec fn wf(&self) -> bool { match *self { DeliveryState::Received(v) => received_wf(v), DeliveryState::Accepted(v) => accepted_wf(v), DeliveryState::Rejected(v) => rejected_wf(v), DeliveryState::Released(v) => released_wf(v), DeliveryState::Modified(v) => modified_wf(v) } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            DeliveryState::Received(x) => { lemma_received_rt(x, rest); }
            DeliveryState::Accepted(x) => { lemma_accepted_rt(x, rest); }
            DeliveryState::Rejected(x) => { lemma_rejected_rt(x, rest); }
            DeliveryState::Released(x) => { lemma_released_rt(x, rest); }
            DeliveryState::Modified(x) => { lemma_modified_rt(x, rest); }
        }
    }
}
impl NotNull for DeliveryState { proof fn nn(v: Self) { match v { DeliveryState::Received(x) => lemma_received_nn(x), DeliveryState::Accepted(x) => lemma_accepted_nn(x), DeliveryState::Rejected(x) => lemma_rejected_nn(x), DeliveryState::Released(x) => lemma_released_nn(x), DeliveryState::Modified(x) => lemma_modified_nn(x) } } }
} // verus!
}
pub use m_delivery_state::*;
// ---- Outcome
pub mod m_outcome {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
//@item codec/src/protocol/definitions.rs Outcome
pub closed spec fn outcome_ddec(d: Descriptor, r: Seq<u8>) -> Option<(Outcome, Seq<u8>)> {
    if desc_is(d, 36, lit!("amqp:accepted:list")) { match accepted_idec(r) { Some((v, r2)) => Some((Outcome::Accepted(v), r2)), None => None } } else
    if desc_is(d, 37, lit!("amqp:rejected:list")) { match rejected_idec(r) { Some((v, r2)) => Some((Outcome::Rejected(v), r2)), None => None } } else
    if desc_is(d, 38, lit!("amqp:released:list")) { match released_idec(r) { Some((v, r2)) => Some((Outcome::Released(v), r2)), None => None } } else
    if desc_is(d, 39, lit!("amqp:modified:list")) { match modified_idec(r) { Some((v, r2)) => Some((Outcome::Modified(v), r2)), None => None } } else
    { None }
}
pub closed spec fn outcome_drej(d: Descriptor, r: Seq<u8>) -> bool {
    if desc_is(d, 36, lit!("amqp:accepted:list")) { accepted_irej(r) } else
    if desc_is(d, 37, lit!("amqp:rejected:list")) { rejected_irej(r) } else
    if desc_is(d, 38, lit!("amqp:released:list")) { released_irej(r) } else
    if desc_is(d, 39, lit!("amqp:modified:list")) { modified_irej(r) } else
    { true }
}
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Outcome" hint="litf!{amqp:accepted:list}; litf!{amqp:rejected:list}; litf!{amqp:released:list}; litf!{amqp:modified:list}; "
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => outcome_ddec(d, r), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => outcome_drej(d, r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Outcome" hint=""
    closed spec fn enc(&self) -> Seq<u8> { match *self { Outcome::Accepted(v) => accepted_enc(v), Outcome::Rejected(v) => rejected_enc(v), Outcome::Released(v) => released_enc(v), Outcome::Modified(v) => modified_enc(v) } }
//@end
pub proof fn lemma_outcome_enc(x: Outcome)
    ensures x.enc() == (match x { Outcome::Accepted(v) => accepted_enc(v), Outcome::Rejected(v) => rejected_enc(v), Outcome::Released(v) => released_enc(v), Outcome::Modified(v) => modified_enc(v) }), x.wf() == (match x { Outcome::Accepted(v) => v.wf(), Outcome::Rejected(v) => v.wf(), Outcome::Released(v) => v.wf(), Outcome::Modified(v) => v.wf() })
{ match x { Outcome::Accepted(v) => { lemma_accepted_nn(v) }, Outcome::Rejected(v) => { lemma_rejected_nn(v) }, Outcome::Released(v) => { lemma_released_nn(v) }, Outcome::Modified(v) => { lemma_modified_nn(v) } } }
impl RoundTrip for Outcome {
    closed spec fn wf(&self) -> bool { match *self { Outcome::Accepted(v) => accepted_wf(v), Outcome::Rejected(v) => rejected_wf(v), Outcome::Released(v) => released_wf(v), Outcome::Modified(v) => modified_wf(v) } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            Outcome::Accepted(x) => { lemma_accepted_rt(x, rest); }
            Outcome::Rejected(x) => { lemma_rejected_rt(x, rest); }
            Outcome::Released(x) => { lemma_released_rt(x, rest); }
            Outcome::Modified(x) => { lemma_modified_rt(x, rest); }
        }
    }
}
impl NotNull for Outcome { proof fn nn(v: Self) { match v { Outcome::Accepted(x) => lemma_accepted_nn(x), Outcome::Rejected(x) => lemma_rejected_nn(x), Outcome::Released(x) => lemma_released_nn(x), Outcome::Modified(x) => lemma_modified_nn(x) } } }
} // verus!
}
pub use m_outcome::*;
// ---- Section
pub mod m_section {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
//@item codec/src/protocol/definitions.rs Section
pub closed spec fn section_ddec(d: Descriptor, r: Seq<u8>) -> Option<(Section, Seq<u8>)> {
    if desc_is(d, 112, lit!("amqp:header:list")) { match header_idec(r) { Some((v, r2)) => Some((Section::Header(v), r2)), None => None } } else
    if desc_is(d, 113, lit!("amqp:delivery-annotations:map")) { match VecSymbolMap::dec(r) { Some((v, r2)) => Some((Section::DeliveryAnnotations(v), r2)), None => None } } else
    if desc_is(d, 114, lit!("amqp:message-annotations:map")) { match VecSymbolMap::dec(r) { Some((v, r2)) => Some((Section::MessageAnnotations(v), r2)), None => None } } else
    if desc_is(d, 116, lit!("amqp:application-properties:map")) { match VecStringMap::dec(r) { Some((v, r2)) => Some((Section::ApplicationProperties(v), r2)), None => None } } else
    if desc_is(d, 117, lit!("amqp:data:binary")) { match Bytes::dec(r) { Some((v, r2)) => Some((Section::Data(v), r2)), None => None } } else
    if desc_is(d, 118, lit!("amqp:amqp-sequence:list")) { match List::dec(r) { Some((v, r2)) => Some((Section::AmqpSequence(v), r2)), None => None } } else
    if desc_is(d, 119, lit!("amqp:amqp-value:*")) { match Variant::dec(r) { Some((v, r2)) => Some((Section::AmqpValue(v), r2)), None => None } } else
    if desc_is(d, 120, lit!("amqp:footer:map")) { match HashMap::<Symbol, Variant>::dec(r) { Some((v, r2)) => Some((Section::Footer(v), r2)), None => None } } else
    if desc_is(d, 115, lit!("amqp:properties:list")) { match properties_idec(r) { Some((v, r2)) => Some((Section::Properties(v), r2)), None => None } } else
    { None }
}
pub closed spec fn section_drej(d: Descriptor, r: Seq<u8>) -> bool {
    if desc_is(d, 112, lit!("amqp:header:list")) { header_irej(r) } else
    if desc_is(d, 113, lit!("amqp:delivery-annotations:map")) { VecSymbolMap::drej(r) } else
    if desc_is(d, 114, lit!("amqp:message-annotations:map")) { VecSymbolMap::drej(r) } else
    if desc_is(d, 116, lit!("amqp:application-properties:map")) { VecStringMap::drej(r) } else
    if desc_is(d, 117, lit!("amqp:data:binary")) { Bytes::drej(r) } else
    if desc_is(d, 118, lit!("amqp:amqp-sequence:list")) { List::drej(r) } else
    if desc_is(d, 119, lit!("amqp:amqp-value:*")) { Variant::drej(r) } else
    if desc_is(d, 120, lit!("amqp:footer:map")) { HashMap::<Symbol, Variant>::drej(r) } else
    if desc_is(d, 115, lit!("amqp:properties:list")) { properties_irej(r) } else
    { true }
}
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for Section" hint="litf!{amqp:header:list}; litf!{amqp:delivery-annotations:map}; litf!{amqp:message-annotations:map}; litf!{amqp:application-properties:map}; litf!{amqp:data:binary}; litf!{amqp:amqp-sequence:list}; litf!{amqp:amqp-value:*}; litf!{amqp:footer:map}; litf!{amqp:properties:list}; "
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => section_ddec(d, r), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => section_drej(d, r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Section" hint="lemma_denc(113, Seq::empty()); lemma_denc(114, Seq::empty()); lemma_denc(116, Seq::empty()); lemma_denc(117, Seq::empty()); lemma_denc(118, Seq::empty()); lemma_denc(119, Seq::empty()); lemma_denc(120, Seq::empty());"
    closed spec fn enc(&self) -> Seq<u8> { match *self { Section::Header(v) => header_enc(v), Section::DeliveryAnnotations(v) => (denc(113) + v.enc()), Section::MessageAnnotations(v) => (denc(114) + v.enc()), Section::ApplicationProperties(v) => (denc(116) + v.enc()), Section::Data(v) => (denc(117) + v.enc()), Section::AmqpSequence(v) => (denc(118) + v.enc()), Section::AmqpValue(v) => (denc(119) + v.enc()), Section::Footer(v) => (denc(120) + v.enc()), Section::Properties(v) => properties_enc(v) } }
//@end
pub proof fn lemma_section_enc(x: Section)
    ensures x.enc() == (match x { Section::Header(v) => header_enc(v), Section::DeliveryAnnotations(v) => (denc(113) + v.enc()), Section::MessageAnnotations(v) => (denc(114) + v.enc()), Section::ApplicationProperties(v) => (denc(116) + v.enc()), Section::Data(v) => (denc(117) + v.enc()), Section::AmqpSequence(v) => (denc(118) + v.enc()), Section::AmqpValue(v) => (denc(119) + v.enc()), Section::Footer(v) => (denc(120) + v.enc()), Section::Properties(v) => properties_enc(v) }), x.wf() == (match x { Section::Header(v) => v.wf(), Section::DeliveryAnnotations(v) => v.wf(), Section::MessageAnnotations(v) => v.wf(), Section::ApplicationProperties(v) => v.wf(), Section::Data(v) => v.wf(), Section::AmqpSequence(v) => v.wf(), Section::AmqpValue(v) => v.wf(), Section::Footer(v) => v.wf(), Section::Properties(v) => v.wf() })
{ match x { Section::Header(v) => { lemma_header_nn(v) }, Section::DeliveryAnnotations(v) => {  }, Section::MessageAnnotations(v) => {  }, Section::ApplicationProperties(v) => {  }, Section::Data(v) => {  }, Section::AmqpSequence(v) => {  }, Section::AmqpValue(v) => {  }, Section::Footer(v) => {  }, Section::Properties(v) => { lemma_properties_nn(v) } } }
impl RoundTrip for Section {
    closed spec fn wf(&self) -> bool { match *self { Section::Header(v) => header_wf(v), Section::DeliveryAnnotations(v) => v.wf(), Section::MessageAnnotations(v) => v.wf(), Section::ApplicationProperties(v) => v.wf(), Section::Data(v) => v.wf(), Section::AmqpSequence(v) => v.wf(), Section::AmqpValue(v) => v.wf(), Section::Footer(v) => v.wf(), Section::Properties(v) => properties_wf(v) } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            Section::Header(x) => { lemma_header_rt(x, rest); }
            Section::DeliveryAnnotations(x) => { lemma_denc(113, x.enc() + rest); VecSymbolMap::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(113) + x.enc()) + rest =~= denc(113) + (x.enc() + rest)); }
            Section::MessageAnnotations(x) => { lemma_denc(114, x.enc() + rest); VecSymbolMap::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(114) + x.enc()) + rest =~= denc(114) + (x.enc() + rest)); }
            Section::ApplicationProperties(x) => { lemma_denc(116, x.enc() + rest); VecStringMap::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(116) + x.enc()) + rest =~= denc(116) + (x.enc() + rest)); }
            Section::Data(x) => { lemma_denc(117, x.enc() + rest); Bytes::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(117) + x.enc()) + rest =~= denc(117) + (x.enc() + rest)); }
            Section::AmqpSequence(x) => { lemma_denc(118, x.enc() + rest); List::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(118) + x.enc()) + rest =~= denc(118) + (x.enc() + rest)); }
            Section::AmqpValue(x) => { lemma_denc(119, x.enc() + rest); Variant::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(119) + x.enc()) + rest =~= denc(119) + (x.enc() + rest)); }
            Section::Footer(x) => { lemma_denc(120, x.enc() + rest); HashMap::<Symbol, Variant>::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(120) + x.enc()) + rest =~= denc(120) + (x.enc() + rest)); }
            Section::Properties(x) => { lemma_properties_rt(x, rest); }
        }
    }
}
impl NotNull for Section { proof fn nn(v: Self) { match v { Section::Header(x) => lemma_header_nn(x), Section::DeliveryAnnotations(x) => lemma_denc(113, Seq::empty()), Section::MessageAnnotations(x) => lemma_denc(114, Seq::empty()), Section::ApplicationProperties(x) => lemma_denc(116, Seq::empty()), Section::Data(x) => lemma_denc(117, Seq::empty()), Section::AmqpSequence(x) => lemma_denc(118, Seq::empty()), Section::AmqpValue(x) => lemma_denc(119, Seq::empty()), Section::Footer(x) => lemma_denc(120, Seq::empty()), Section::Properties(x) => lemma_properties_nn(x) } } }
} // verus!
}
pub use m_section::*;
// ---- SaslFrameBody
pub mod m_sasl_frame_body {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
//@item codec/src/protocol/definitions.rs SaslFrameBody
pub closed spec fn sasl_frame_body_ddec(d: Descriptor, r: Seq<u8>) -> Option<(SaslFrameBody, Seq<u8>)> {
    if desc_is(d, 64, lit!("amqp:sasl-mechanisms:list")) { match sasl_mechanisms_idec(r) { Some((v, r2)) => Some((SaslFrameBody::SaslMechanisms(v), r2)), None => None } } else
    if desc_is(d, 65, lit!("amqp:sasl-init:list")) { match sasl_init_idec(r) { Some((v, r2)) => Some((SaslFrameBody::SaslInit(v), r2)), None => None } } else
    if desc_is(d, 66, lit!("amqp:sasl-challenge:list")) { match sasl_challenge_idec(r) { Some((v, r2)) => Some((SaslFrameBody::SaslChallenge(v), r2)), None => None } } else
    if desc_is(d, 67, lit!("amqp:sasl-response:list")) { match sasl_response_idec(r) { Some((v, r2)) => Some((SaslFrameBody::SaslResponse(v), r2)), None => None } } else
    if desc_is(d, 68, lit!("amqp:sasl-outcome:list")) { match sasl_outcome_idec(r) { Some((v, r2)) => Some((SaslFrameBody::SaslOutcome(v), r2)), None => None } } else
    { None }
}
pub closed spec fn sasl_frame_body_drej(d: Descriptor, r: Seq<u8>) -> bool {
    if desc_is(d, 64, lit!("amqp:sasl-mechanisms:list")) { sasl_mechanisms_irej(r) } else
    if desc_is(d, 65, lit!("amqp:sasl-init:list")) { sasl_init_irej(r) } else
    if desc_is(d, 66, lit!("amqp:sasl-challenge:list")) { sasl_challenge_irej(r) } else
    if desc_is(d, 67, lit!("amqp:sasl-response:list")) { sasl_response_irej(r) } else
    if desc_is(d, 68, lit!("amqp:sasl-outcome:list")) { sasl_outcome_irej(r) } else
    { true }
}
//@impl codec/src/protocol/definitions.rs "DecodeFormatted for SaslFrameBody" hint="litf!{amqp:sasl-mechanisms:list}; litf!{amqp:sasl-init:list}; litf!{amqp:sasl-challenge:list}; litf!{amqp:sasl-response:list}; litf!{amqp:sasl-outcome:list}; "
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => sasl_frame_body_ddec(d, r), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => sasl_frame_body_drej(d, r), None => Descriptor::drej(s) }
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for SaslFrameBody" hint=""
    closed spec fn enc(&self) -> Seq<u8> { match *self { SaslFrameBody::SaslMechanisms(v) => sasl_mechanisms_enc(v), SaslFrameBody::SaslInit(v) => sasl_init_enc(v), SaslFrameBody::SaslChallenge(v) => sasl_challenge_enc(v), SaslFrameBody::SaslResponse(v) => sasl_response_enc(v), SaslFrameBody::SaslOutcome(v) => sasl_outcome_enc(v) } }
//@end
pub proof fn lemma_sasl_frame_body_enc(x: SaslFrameBody)
    ensures x.enc() == (match x { SaslFrameBody::SaslMechanisms(v) => sasl_mechanisms_enc(v), SaslFrameBody::SaslInit(v) => sasl_init_enc(v), SaslFrameBody::SaslChallenge(v) => sasl_challenge_enc(v), SaslFrameBody::SaslResponse(v) => sasl_response_enc(v), SaslFrameBody::SaslOutcome(v) => sasl_outcome_enc(v) }), x.wf() == (match x { SaslFrameBody::SaslMechanisms(v) => v.wf(), SaslFrameBody::SaslInit(v) => v.wf(), SaslFrameBody::SaslChallenge(v) => v.wf(), SaslFrameBody::SaslResponse(v) => v.wf(), SaslFrameBody::SaslOutcome(v) => v.wf() })
{ match x { SaslFrameBody::SaslMechanisms(v) => { lemma_sasl_mechanisms_nn(v) }, SaslFrameBody::SaslInit(v) => { lemma_sasl_init_nn(v) }, SaslFrameBody::SaslChallenge(v) => { lemma_sasl_challenge_nn(v) }, SaslFrameBody::SaslResponse(v) => { lemma_sasl_response_nn(v) }, SaslFrameBody::SaslOutcome(v) => { lemma_sasl_outcome_nn(v) } } }
impl RoundTrip for SaslFrameBody {
    closed spec fn wf(&self) -> bool { match *self { SaslFrameBody::SaslMechanisms(v) => sasl_mechanisms_wf(v), SaslFrameBody::SaslInit(v) => sasl_init_wf(v), SaslFrameBody::SaslChallenge(v) => sasl_challenge_wf(v), SaslFrameBody::SaslResponse(v) => sasl_response_wf(v), SaslFrameBody::SaslOutcome(v) => sasl_outcome_wf(v) } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            SaslFrameBody::SaslMechanisms(x) => { lemma_sasl_mechanisms_rt(x, rest); }
            SaslFrameBody::SaslInit(x) => { lemma_sasl_init_rt(x, rest); }
            SaslFrameBody::SaslChallenge(x) => { lemma_sasl_challenge_rt(x, rest); }
            SaslFrameBody::SaslResponse(x) => { lemma_sasl_response_rt(x, rest); }
            SaslFrameBody::SaslOutcome(x) => { lemma_sasl_outcome_rt(x, rest); }
        }
    }
}
impl NotNull for SaslFrameBody { proof fn nn(v: Self) { match v { SaslFrameBody::SaslMechanisms(x) => lemma_sasl_mechanisms_nn(x), SaslFrameBody::SaslInit(x) => lemma_sasl_init_nn(x), SaslFrameBody::SaslChallenge(x) => lemma_sasl_challenge_nn(x), SaslFrameBody::SaslResponse(x) => lemma_sasl_response_nn(x), SaslFrameBody::SaslOutcome(x) => lemma_sasl_outcome_nn(x) } } }
} // verus!
}
pub use m_sasl_frame_body::*;
// ---- Frame
pub mod m_frame {
use super::*;
use super::vals::Map;
verus! {
broadcast use gperf;
//@item codec/src/protocol/definitions.rs Frame
pub closed spec fn frame_ddec(d: Descriptor, r: Seq<u8>) -> Option<(Frame, Seq<u8>)> {
    if desc_is(d, 16, lit!("amqp:open:list")) { match open_idec(r) { Some((v, r2)) => Some((Frame::Open(v), r2)), None => None } } else
    if desc_is(d, 17, lit!("amqp:begin:list")) { match begin_idec(r) { Some((v, r2)) => Some((Frame::Begin(v), r2)), None => None } } else
    if desc_is(d, 18, lit!("amqp:attach:list")) { match attach_idec(r) { Some((v, r2)) => Some((Frame::Attach(v), r2)), None => None } } else
    if desc_is(d, 19, lit!("amqp:flow:list")) { match flow_idec(r) { Some((v, r2)) => Some((Frame::Flow(v), r2)), None => None } } else
    if desc_is(d, 20, lit!("amqp:transfer:list")) { match transfer_idec(r) { Some((v, r2)) => Some((Frame::Transfer(v), r2)), None => None } } else
    if desc_is(d, 21, lit!("amqp:disposition:list")) { match disposition_idec(r) { Some((v, r2)) => Some((Frame::Disposition(v), r2)), None => None } } else
    if desc_is(d, 22, lit!("amqp:detach:list")) { match detach_idec(r) { Some((v, r2)) => Some((Frame::Detach(v), r2)), None => None } } else
    if desc_is(d, 23, lit!("amqp:end:list")) { match end_idec(r) { Some((v, r2)) => Some((Frame::End(v), r2)), None => None } } else
    if desc_is(d, 24, lit!("amqp:close:list")) { match close_idec(r) { Some((v, r2)) => Some((Frame::Close(v), r2)), None => None } } else
    { None }
}
pub closed spec fn frame_drej(d: Descriptor, r: Seq<u8>) -> bool {
    if desc_is(d, 16, lit!("amqp:open:list")) { open_irej(r) } else
    if desc_is(d, 17, lit!("amqp:begin:list")) { begin_irej(r) } else
    if desc_is(d, 18, lit!("amqp:attach:list")) { attach_irej(r) } else
    if desc_is(d, 19, lit!("amqp:flow:list")) { flow_irej(r) } else
    if desc_is(d, 20, lit!("amqp:transfer:list")) { transfer_irej(r) } else
    if desc_is(d, 21, lit!("amqp:disposition:list")) { disposition_irej(r) } else
    if desc_is(d, 22, lit!("amqp:detach:list")) { detach_irej(r) } else
    if desc_is(d, 23, lit!("amqp:end:list")) { end_irej(r) } else
    if desc_is(d, 24, lit!("amqp:close:list")) { close_irej(r) } else
    { true }
}
//@impl codec/src/protocol/definitions.rs "Decode for Frame" hint="litf!{amqp:open:list}; litf!{amqp:begin:list}; litf!{amqp:attach:list}; litf!{amqp:flow:list}; litf!{amqp:transfer:list}; litf!{amqp:disposition:list}; litf!{amqp:detach:list}; litf!{amqp:end:list}; litf!{amqp:close:list}; "
    closed spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() == 0 { Some((Frame::Empty, s)) } else if s[0] != 0 { None } else { match Descriptor::dec(s.skip(1)) { Some((d, r)) => frame_ddec(d, r), None => None } }
    }
    closed spec fn drej(s: Seq<u8>) -> bool {
        s.len() > 0 && (s[0] != 0 || match Descriptor::dec(s.skip(1)) { Some((d, r)) => frame_drej(d, r), None => Descriptor::drej(s.skip(1)) })
    }
//@end
//@impl codec/src/protocol/definitions.rs "Encode for Frame" hint=""
    closed spec fn enc(&self) -> Seq<u8> { match *self { Frame::Open(v) => open_enc(v), Frame::Begin(v) => begin_enc(v), Frame::Attach(v) => attach_enc(v), Frame::Flow(v) => flow_enc(v), Frame::Transfer(v) => transfer_enc(v), Frame::Disposition(v) => disposition_enc(v), Frame::Detach(v) => detach_enc(v), Frame::End(v) => end_enc(v), Frame::Close(v) => close_enc(v), Frame::Empty => Seq::<u8>::empty() } }
//@end
pub proof fn lemma_frame_enc(x: Frame)
    ensures x.enc() == (match x { Frame::Open(v) => open_enc(v), Frame::Begin(v) => begin_enc(v), Frame::Attach(v) => attach_enc(v), Frame::Flow(v) => flow_enc(v), Frame::Transfer(v) => transfer_enc(v), Frame::Disposition(v) => disposition_enc(v), Frame::Detach(v) => detach_enc(v), Frame::End(v) => end_enc(v), Frame::Close(v) => close_enc(v), Frame::Empty => Seq::<u8>::empty() })
{ match x { Frame::Open(v) => { lemma_open_nn(v) }, Frame::Begin(v) => { lemma_begin_nn(v) }, Frame::Attach(v) => { lemma_attach_nn(v) }, Frame::Flow(v) => { lemma_flow_nn(v) }, Frame::Transfer(v) => { lemma_transfer_nn(v) }, Frame::Disposition(v) => { lemma_disposition_nn(v) }, Frame::Detach(v) => { lemma_detach_nn(v) }, Frame::End(v) => { lemma_end_nn(v) }, Frame::Close(v) => { lemma_close_nn(v) }, Frame::Empty => { } } }
pub closed spec fn frame_wf(v: Frame) -> bool { match v { Frame::Open(v) => open_wf(v), Frame::Begin(v) => begin_wf(v), Frame::Attach(v) => attach_wf(v), Frame::Flow(v) => flow_wf(v), Frame::Transfer(v) => transfer_wf(v), Frame::Disposition(v) => disposition_wf(v), Frame::Detach(v) => detach_wf(v), Frame::End(v) => end_wf(v), Frame::Close(v) => close_wf(v), Frame::Empty => true } }
pub proof fn lemma_frame_rt(v: Frame)
    requires frame_wf(v), v.enc().len() <= u32::MAX
    ensures Frame::dec(v.enc()) == Some((v, Seq::<u8>::empty()))
{
    assert(v.enc() + Seq::<u8>::empty() =~= v.enc());
    match v {
        Frame::Open(x) => { lemma_open_nn(x); lemma_open_rt(x, Seq::empty()); assert(open_enc(x) + Seq::<u8>::empty() =~= open_enc(x)); }
        Frame::Begin(x) => { lemma_begin_nn(x); lemma_begin_rt(x, Seq::empty()); assert(begin_enc(x) + Seq::<u8>::empty() =~= begin_enc(x)); }
        Frame::Attach(x) => { lemma_attach_nn(x); lemma_attach_rt(x, Seq::empty()); assert(attach_enc(x) + Seq::<u8>::empty() =~= attach_enc(x)); }
        Frame::Flow(x) => { lemma_flow_nn(x); lemma_flow_rt(x, Seq::empty()); assert(flow_enc(x) + Seq::<u8>::empty() =~= flow_enc(x)); }
        Frame::Transfer(x) => { lemma_transfer_nn(x); lemma_transfer_rt(x); }
        Frame::Disposition(x) => { lemma_disposition_nn(x); lemma_disposition_rt(x, Seq::empty()); assert(disposition_enc(x) + Seq::<u8>::empty() =~= disposition_enc(x)); }
        Frame::Detach(x) => { lemma_detach_nn(x); lemma_detach_rt(x, Seq::empty()); assert(detach_enc(x) + Seq::<u8>::empty() =~= detach_enc(x)); }
        Frame::End(x) => { lemma_end_nn(x); lemma_end_rt(x, Seq::empty()); assert(end_enc(x) + Seq::<u8>::empty() =~= end_enc(x)); }
        Frame::Close(x) => { lemma_close_nn(x); lemma_close_rt(x, Seq::empty()); assert(close_enc(x) + Seq::<u8>::empty() =~= close_enc(x)); }
        Frame::Empty => { }
    }
}
} // verus!
}
pub use m_frame::*;
