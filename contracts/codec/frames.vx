pub mod m_framing {
use super::*;
verus! {
broadcast use gperf;
//@props C03 C04 C05 C06
//@item codec/src/framing.rs HEADER_LEN
//@item codec/src/framing.rs FRAME_TYPE_AMQP
//@item codec/src/framing.rs FRAME_TYPE_SASL
//@item codec/src/codec/encode.rs WORD_LEN
//@item codec/src/framing.rs AmqpFrame
//@item codec/src/framing.rs SaslFrame
//@impl codec/src/framing.rs AmqpFrame
//@method new
    ensures r.channel_id == channel_id, r.performative == performative
//@method channel_id
    ensures r == self.channel_id
//@method performative
    ensures *r == self.performative
//@method into_parts
    ensures r == (self.channel_id, self.performative)
//@end
//@impl codec/src/framing.rs SaslFrame
//@method new
    ensures r.body == body
//@end
/// what follows the size field of a frame (AMQP 1.0 part 2.3.1): data offset in 4-byte words, type, two type specific bytes,
/// extended header; gives the channel and the frame body
pub open spec fn fhdr(s: Seq<u8>, ty: u8) -> Option<(u16, Seq<u8>)> {
    if s.len() >= 4 && s[1] == ty && s[0] >= 2 && s.len() >= 4 * (s[0] as int) - 4 { Some((be(s.subrange(2, 4)) as u16, s.skip(4 * (s[0] as int) - 4))) } else { None }
}
//@fn codec/src/codec/decode.rs decode_frame_header
    ensures
        suffix(final(input)@, old(input)@),
        match fhdr(old(input)@, expected_frame_type) {
            Some((ch, rest)) => r == Ok::<u16, AmqpParseError>(ch) && final(input)@ == rest && rest.len() < old(input)@.len(),
            None => r is Err,
        }
//@end
/// size, data offset 2, type, channel, body
pub open spec fn fenc(ty: u8, ch: u16, body: Seq<u8>) -> Seq<u8> { enc_be((body.len() + 8) as nat, 4) + seq![2u8, ty] + enc_be(ch as nat, 2) + body }
pub proof fn lemma_fenc_len(ty: u8, ch: u16, body: Seq<u8>)
    ensures fenc(ty, ch, body).len() == body.len() + 8, fenc(ty, ch, body) =~= ((enc_be((body.len() + 8) as nat, 4) + seq![2u8]) + seq![ty]) + enc_be(ch as nat, 2) + body
{ lemma_enc_be_len((body.len() + 8) as nat, 4); lemma_enc_be_len(ch as nat, 2); }
pub proof fn lemma_fhdr(ty: u8, ch: u16, body: Seq<u8>)
    ensures fhdr(fenc(ty, ch, body).skip(4), ty) == Some((ch, body)), be(fenc(ty, ch, body).subrange(0, 4)) == body.len() + 8 || body.len() + 8 > u32::MAX
{
    lemma_fenc_len(ty, ch, body);
    let n = (body.len() + 8) as nat;
    lemma_enc_be_len(n, 4); lemma_enc_be_len(ch as nat, 2); lemma_pow256();
    let s = fenc(ty, ch, body).skip(4);
    assert(s =~= seq![2u8, ty] + enc_be(ch as nat, 2) + body);
    lemma_be_enc(ch as nat, 2);
    assert(s.subrange(2, 4) =~= enc_be(ch as nat, 2));
    assert(s.skip(4) =~= body);
    if n <= u32::MAX { lemma_be_enc(n, 4); }
    assert(fenc(ty, ch, body).subrange(0, 4) =~= enc_be(n, 4));
}
//@impl codec/src/codec/decode.rs "Decode for AmqpFrame"
    open spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        match fhdr(s, 0) { Some((ch, b)) => match Frame::dec(b) { Some((p, r)) => Some((AmqpFrame { channel_id: ch, performative: p }, r)), None => None }, None => None }
    }
    open spec fn drej(s: Seq<u8>) -> bool { match fhdr(s, 0) { Some((ch, b)) => Frame::drej(b), None => true } }
//@end
//@impl codec/src/codec/decode.rs "Decode for SaslFrame"
    open spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        match fhdr(s, 1) { Some((ch, b)) => match SaslFrameBody::dec(b) { Some((p, r)) => Some((SaslFrame { body: p }, r)), None => None }, None => None }
    }
    open spec fn drej(s: Seq<u8>) -> bool { match fhdr(s, 1) { Some((ch, b)) => SaslFrameBody::drej(b), None => true } }
//@end
//@impl codec/src/codec/encode.rs "Encode for AmqpFrame"
    open spec fn enc(&self) -> Seq<u8> { fenc(0, self.channel_id, self.performative.enc()) }
//@method encoded_size
//@start
    proof { lemma_fenc_len(0, self.channel_id, self.performative.enc()); }
//@method encode
//@start
    proof { lemma_fenc_len(0, self.channel_id, self.performative.enc()); }
//@finish
    proof { assert(buf@ =~= old(buf)@ + self.enc()); }
//@end
//@impl codec/src/codec/encode.rs "Encode for SaslFrame"
    open spec fn enc(&self) -> Seq<u8> { fenc(1, 0, self.body.enc()) }
//@method encoded_size
//@start
    proof { lemma_fenc_len(1, 0, self.body.enc()); }
//@method encode
//@start
    proof { lemma_fenc_len(1, 0, self.body.enc()); }
//@finish
    proof { assert(buf@ =~= old(buf)@ + self.enc()); }
//@end
/// C06: a frame reads back (after its size field), with the same channel
pub proof fn lemma_amqp_frame_rt(f: AmqpFrame)
    requires frame_wf(f.performative), f.enc().len() <= u32::MAX
    ensures AmqpFrame::dec(f.enc().skip(4)) == Some((f, Seq::<u8>::empty())), be(f.enc().subrange(0, 4)) == f.enc().len()
{ lemma_fenc_len(0, f.channel_id, f.performative.enc()); lemma_fhdr(0, f.channel_id, f.performative.enc()); lemma_frame_rt(f.performative); }
pub proof fn lemma_sasl_frame_rt(f: SaslFrame)
    requires f.body.wf(), f.enc().len() <= u32::MAX
    ensures SaslFrame::dec(f.enc().skip(4)) == Some((f, Seq::<u8>::empty())), be(f.enc().subrange(0, 4)) == f.enc().len()
{ lemma_fenc_len(1, 0, f.body.enc()); lemma_fhdr(1, 0, f.body.enc()); SaslFrameBody::roundtrip(f.body, Seq::empty()); assert(f.body.enc() + Seq::<u8>::empty() =~= f.body.enc()); }
/// a frame shorter than its header is never accepted
pub proof fn lemma_short_amqp(s: Seq<u8>) requires s.len() < 4 ensures AmqpFrame::dec(s) is None, AmqpFrame::drej(s) { }
pub proof fn lemma_short_sasl(s: Seq<u8>) requires s.len() < 4 ensures SaslFrame::dec(s) is None, SaslFrame::drej(s) { }
} // verus!
}
pub use m_framing::*;
