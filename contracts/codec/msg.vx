// ===================================================================================
// Messages
// ===================================================================================
//@props C03 C04 C07
//@item codec/src/message/mod.rs SECTION_PREFIX_LENGTH
impl Message {
    /// derive(Default)
    #[verifier::external_body]
    pub fn default() -> (r: Message) ensures r == msg0() { unimplemented!() }
}
pub open spec fn vnil<T>() -> Vec<T> { Vec { s: Ghost(Seq::<T>::empty()) } }
pub open spec fn msg0() -> Message {
    Message(Box::new(MessageInner { message_format: None, header: None, delivery_annotations: None, message_annotations: None, properties: None, application_properties: None, footer: None,
        body: MessageBody { data: vnil(), sequence: vnil(), messages: vnil(), value: None } }))
}
pub open spec fn osec<T: Encode>(n: u64, o: Option<T>) -> Seq<u8> { match o { Some(v) => denc(n) + v.enc(), None => Seq::<u8>::empty() } }
pub open spec fn oenc<T: Encode>(o: Option<T>) -> Seq<u8> { match o { Some(v) => v.enc(), None => Seq::<u8>::empty() } }
/// sections before the body, in AMQP order
pub open spec fn mhead(m: Message) -> Seq<u8> {
    oenc(m.0.header) + osec(113, m.0.delivery_annotations) + osec(114, m.0.message_annotations) + oenc(m.0.properties) + osec(116, m.0.application_properties)
}
pub open spec fn menc(m: Message) -> Seq<u8> decreases m { mhead(m) + mbenc(m.0.body) + osec(120, m.0.footer) }
pub open spec fn mbenc(b: MessageBody) -> Seq<u8> decreases b {
    secs::<Bytes>(117, b.data@, b.data@.len()) + secs::<List>(118, b.sequence@, b.sequence@.len()) + osec(119, b.value) + nested(b.messages@, b.messages@.len())
}
pub open spec fn tbenc(t: TransferBody) -> Seq<u8> decreases t { match t { TransferBody::Data(d) => d@, TransferBody::Message(m) => menc(m) } }
pub open spec fn secs<T: Encode>(c: u64, s: Seq<T>, n: nat) -> Seq<u8> decreases n {
    if n == 0 || n > s.len() { Seq::empty() } else { secs::<T>(c, s, (n - 1) as nat) + (denc(c) + s[n - 1].enc()) }
}
/// nested messages are binary data sections
pub open spec fn nested(s: Seq<TransferBody>, n: nat) -> Seq<u8> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { nested(s, (n - 1) as nat) + (denc(117) + enc_var(0xa0, 0xb0, tbenc(s[n - 1]))) }
}
pub proof fn secs_mono<T: Encode>(c: u64, s: Seq<T>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures secs::<T>(c, s, k).len() <= secs::<T>(c, s, n).len()
    decreases n
{ if k < n { secs_mono::<T>(c, s, k, (n - 1) as nat); } }
pub proof fn nested_mono(s: Seq<TransferBody>, k: nat, n: nat)
    requires k <= n <= s.len()
    ensures nested(s, k).len() <= nested(s, n).len()
    decreases n
{ if k < n { nested_mono(s, k, (n - 1) as nat); } }
pub proof fn lemma_denc_len(n: u64)
    requires 0 < n < 256
    ensures denc(n).len() == 3
{ lemma_denc(n, Seq::empty()); }
//@impl codec/src/protocol/mod.rs "Encode for TransferBody" header="impl TransferBody" inherent
//@method encoded_size
    requires tbenc(*self).len() <= u32::MAX
    ensures r == tbenc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@method encode
    requires tbenc(*self).len() <= u32::MAX
    ensures final(dst)@ == old(dst)@ + tbenc(*self)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@end
//@impl codec/src/protocol/mod.rs TransferBody
//@method len
    requires tbenc(*self).len() <= u32::MAX
    ensures r == tbenc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@end
//@impl codec/src/message/body.rs "Encode for MessageBody" header="impl MessageBody" inherent
//@method encoded_size
    requires mbenc(*self).len() <= u32::MAX
    ensures r == mbenc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@start
    proof { lemma_denc_len(117); lemma_denc_len(118); lemma_denc_len(119); let _ = mbenc(*self).len(); }
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.data@, denc(117).len() == 3,
        secs(117, self.data@, self.data@.len()).len() <= u32::MAX,
        __acc0 == secs(117, self.data@, __k0 as nat).len(),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { secs_mono(117, self.data@, (__k0 + 1) as nat, self.data@.len()); let _ = secs(117, self.data@, (__k0 + 1) as nat).len(); }
//@loop 1
    invariant
        __k1 <= __it1@.len(), __it1@ == self.sequence@, denc(118).len() == 3,
        secs(118, self.sequence@, self.sequence@.len()).len() <= u32::MAX,
        __acc1 == secs(118, self.sequence@, __k1 as nat).len(),
    decreases __it1@.len() - __k1
//@loopstart 1
    proof { secs_mono(118, self.sequence@, (__k1 + 1) as nat, self.sequence@.len()); let _ = secs(118, self.sequence@, (__k1 + 1) as nat).len(); }
//@loop 2
    invariant
        __k2 <= __it2@.len(), __it2@ == self.messages@, denc(117).len() == 3,
        nested(self.messages@, self.messages@.len()).len() <= u32::MAX,
        __acc2 == nested(self.messages@, __k2 as nat).len(),
    decreases __it2@.len() - __k2
//@loopstart 2
    proof { nested_mono(self.messages@, (__k2 + 1) as nat, self.messages@.len()); let _ = nested(self.messages@, (__k2 + 1) as nat).len(); let _ = enc_var(0xa0, 0xb0, tbenc(self.messages@[__k2 as int])).len(); lemma_enc_be_len(tbenc(self.messages@[__k2 as int]).len(), 4); }
//@method encode
    requires mbenc(*self).len() <= u32::MAX
    ensures final(dst)@ == old(dst)@ + mbenc(*self)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@start
    proof { lemma_denc_len(117); lemma_denc_len(118); lemma_denc_len(119); let _ = mbenc(*self).len(); }
//@preloop 0
    let ghost __b0 = dst@;
//@loop 0
    invariant
        __k0 <= __it0@.len(), __it0@ == self.data@, denc(117).len() == 3,
        secs(117, self.data@, self.data@.len()).len() <= u32::MAX,
        dst@ == __b0 + secs(117, self.data@, __k0 as nat),
    decreases __it0@.len() - __k0
//@loopstart 0
    proof { secs_mono(117, self.data@, (__k0 + 1) as nat, self.data@.len()); let _ = secs(117, self.data@, (__k0 + 1) as nat).len(); }
//@preloop 1
    let ghost __b1 = dst@;
//@loop 1
    invariant
        __k1 <= __it1@.len(), __it1@ == self.sequence@, denc(118).len() == 3,
        secs(118, self.sequence@, self.sequence@.len()).len() <= u32::MAX,
        dst@ == __b1 + secs(118, self.sequence@, __k1 as nat),
    decreases __it1@.len() - __k1
//@loopstart 1
    proof { secs_mono(118, self.sequence@, (__k1 + 1) as nat, self.sequence@.len()); let _ = secs(118, self.sequence@, (__k1 + 1) as nat).len(); }
//@preloop 2
    let ghost __b2 = dst@;
//@loop 2
    invariant
        __k2 <= __it2@.len(), __it2@ == self.messages@, denc(117).len() == 3,
        nested(self.messages@, self.messages@.len()).len() <= u32::MAX,
        dst@ == __b2 + nested(self.messages@, __k2 as nat),
    decreases __it2@.len() - __k2
//@loopstart 2
    proof { nested_mono(self.messages@, (__k2 + 1) as nat, self.messages@.len()); let _ = nested(self.messages@, (__k2 + 1) as nat).len(); let _ = enc_var(0xa0, 0xb0, tbenc(self.messages@[__k2 as int])).len(); lemma_enc_be_len(tbenc(self.messages@[__k2 as int]).len(), 4); }
//@end
/// the code's view: sections appended one by one
pub open spec fn aposec<T: Encode>(b: Seq<u8>, n: u64, o: Option<T>) -> Seq<u8> { match o { Some(v) => b + denc(n) + v.enc(), None => b } }
pub open spec fn apoenc<T: Encode>(b: Seq<u8>, o: Option<T>) -> Seq<u8> { match o { Some(v) => b + v.enc(), None => b } }
pub proof fn lemma_aposec<T: Encode>(b: Seq<u8>, n: u64, o: Option<T>)
    requires 0 < n < 256
    ensures aposec(b, n, o) == b + osec(n, o), osec(n, o).len() == (match o { Some(v) => 3 + v.enc().len(), None => 0 })
{ lemma_denc_len(n); match o { Some(v) => { seq_assoc(b, denc(n), v.enc()); } None => { assert(b + Seq::<u8>::empty() =~= b); } } }
pub proof fn lemma_apoenc<T: Encode>(b: Seq<u8>, o: Option<T>)
    ensures apoenc(b, o) == b + oenc(o), oenc(o).len() == (match o { Some(v) => v.enc().len(), None => 0 })
{ match o { Some(v) => { } None => { assert(b + Seq::<u8>::empty() =~= b); } } }
pub open spec fn mapp1(b: Seq<u8>, m: Message) -> Seq<u8> {
    aposec(apoenc(aposec(aposec(apoenc(b, m.0.header), 113, m.0.delivery_annotations), 114, m.0.message_annotations), m.0.properties), 116, m.0.application_properties)
}
pub open spec fn mapp(b: Seq<u8>, m: Message) -> Seq<u8> { aposec(mapp1(b, m) + mbenc(m.0.body), 120, m.0.footer) }
pub proof fn lemma_assoc5(b: Seq<u8>, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>, f: Seq<u8>, g: Seq<u8>)
    ensures b + e1 + e2 + e3 + e4 + e5 + f + g == b + ((e1 + e2 + e3 + e4 + e5) + f + g)
{ broadcast use seq_assoc; }
pub proof fn lemma_mapp(b: Seq<u8>, m: Message)
    ensures mapp(b, m) == b + menc(m),
        menc(m).len() == mbenc(m.0.body).len() + oenc(m.0.header).len() + osec(113, m.0.delivery_annotations).len() + osec(114, m.0.message_annotations).len() + oenc(m.0.properties).len() + osec(116, m.0.application_properties).len() + osec(120, m.0.footer).len(),
        osec(113, m.0.delivery_annotations).len() == (match m.0.delivery_annotations { Some(v) => 3 + v.enc().len(), None => 0 }),
        osec(114, m.0.message_annotations).len() == (match m.0.message_annotations { Some(v) => 3 + v.enc().len(), None => 0 }),
        osec(116, m.0.application_properties).len() == (match m.0.application_properties { Some(v) => 3 + v.enc().len(), None => 0 }),
        osec(120, m.0.footer).len() == (match m.0.footer { Some(v) => 3 + v.enc().len(), None => 0 }),
        oenc(m.0.header).len() == (match m.0.header { Some(v) => v.enc().len(), None => 0 }),
        oenc(m.0.properties).len() == (match m.0.properties { Some(v) => v.enc().len(), None => 0 }),
{
    let e1 = oenc(m.0.header); let e2 = osec(113, m.0.delivery_annotations); let e3 = osec(114, m.0.message_annotations); let e4 = oenc(m.0.properties); let e5 = osec(116, m.0.application_properties);
    let f = mbenc(m.0.body); let g = osec(120, m.0.footer);
    lemma_apoenc(b, m.0.header);
    lemma_aposec(b + e1, 113, m.0.delivery_annotations);
    lemma_aposec(b + e1 + e2, 114, m.0.message_annotations);
    lemma_apoenc(b + e1 + e2 + e3, m.0.properties);
    lemma_aposec(b + e1 + e2 + e3 + e4, 116, m.0.application_properties);
    lemma_aposec(b + e1 + e2 + e3 + e4 + e5 + f, 120, m.0.footer);
    lemma_assoc5(b, e1, e2, e3, e4, e5, f, g);
}
//@impl codec/src/message/message.rs "Encode for Message" header="impl Message" inherent
//@method encoded_size
    requires menc(*self).len() <= u32::MAX
    ensures r == menc(*self).len()
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@start
    proof { lemma_mapp(Seq::empty(), *self); }
//@method encode
    requires menc(*self).len() <= u32::MAX
    ensures final(dst)@ == old(dst)@ + menc(*self)
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@start
    proof { lemma_mapp(dst@, *self); }
//@end
// trait implementations of the recursive types: delegation only
impl Encode for TransferBody {
    open spec fn enc(&self) -> Seq<u8> { tbenc(*self) }
    fn encoded_size(&self) -> usize { TransferBody::encoded_size(self) }
    fn encode(&self, buf: &mut BytesMut) { TransferBody::encode(self, buf) }
}
pub proof fn lemma_tb_data(t: TransferBody)
    requires t is Data
    ensures t.enc() == t->Data_0@
{ }
impl Encode for Message {
    open spec fn enc(&self) -> Seq<u8> { menc(*self) }
    fn encoded_size(&self) -> usize { Message::encoded_size(self) }
    fn encode(&self, buf: &mut BytesMut) { Message::encode(self, buf) }
}
// accessors used by other extracted code
impl Transfer { pub fn body(&self) -> (r: Option<&TransferBody>) ensures r == (match self.0.body { Some(b) => Some(&b), None => None }) { self.0.body.as_ref() } }
impl Bytes { #[verifier::external_body] pub fn into(self) -> (r: TransferBody) ensures r == TransferBody::Data(self) { unimplemented!() } }

// ---- decoding
pub open spec fn mset(m: Message, s: Section) -> Message {
    let i = *m.0;
    Message(Box::new(match s {
        Section::Header(v) => MessageInner { header: Some(v), ..i },
        Section::DeliveryAnnotations(v) => MessageInner { delivery_annotations: Some(v), ..i },
        Section::MessageAnnotations(v) => MessageInner { message_annotations: Some(v), ..i },
        Section::ApplicationProperties(v) => MessageInner { application_properties: Some(v), ..i },
        Section::Footer(v) => MessageInner { footer: Some(v), ..i },
        Section::Properties(v) => MessageInner { properties: Some(v), ..i },
        Section::AmqpSequence(v) => MessageInner { body: MessageBody { sequence: Vec { s: Ghost(i.body.sequence@.push(v)) }, ..i.body }, ..i },
        Section::AmqpValue(v) => MessageInner { body: MessageBody { value: Some(v), ..i.body }, ..i },
        Section::Data(v) => MessageInner { body: MessageBody { data: Vec { s: Ghost(i.body.data@.push(v)) }, ..i.body }, ..i },
    }))
}
pub open spec fn msecs(m: Message, s: Seq<u8>) -> Option<Message> decreases s.len() {
    if s.len() == 0 { Some(m) } else {
        match Section::dec(s) { Some((sec, r)) => if r.len() < s.len() { msecs(mset(m, sec), r) } else { None }, None => None }
    }
}
pub open spec fn msecs_rej(s: Seq<u8>) -> bool decreases s.len() {
    s.len() > 0 && match Section::dec(s) { Some((sec, r)) => r.len() < s.len() && msecs_rej(r), None => Section::drej(s) }
}
//@impl codec/src/message/message.rs "Decode for Message"
    open spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> { match msecs(msg0(), s) { Some(m) => Some((m, Seq::<u8>::empty())), None => None } }
    open spec fn drej(s: Seq<u8>) -> bool { msecs_rej(s) }
//@method decode
//@preloop 0
    let ghost __s = input@;
//@loop 0
    invariant
        suffix(input@, __s), __s == old(input)@,
        msecs(msg0(), __s) is Some ==> msecs(message, input@) == msecs(msg0(), __s),
        msecs(msg0(), __s) is None && msecs_rej(__s) ==> msecs_rej(input@),
    ensures input@.len() == 0,
    decreases input@.len()
//@end

// ---- round trip
pub open spec fn mwf(m: Message) -> bool {
    owf(m.0.header) && owf(m.0.delivery_annotations) && owf(m.0.message_annotations) && owf(m.0.properties) && owf(m.0.application_properties) && owf(m.0.footer)
    && owf(m.0.body.value) && (forall|i: int| 0 <= i < m.0.body.sequence@.len() ==> #[trigger] m.0.body.sequence@[i].wf())
}
pub open spec fn tbs(s: Seq<TransferBody>, n: nat) -> Seq<Bytes> decreases n { if n == 0 || n > s.len() { Seq::empty() } else { tbs(s, (n - 1) as nat).push(Bytes { s: Ghost(tbenc(s[n - 1])) }) } }
/// what the receiver sees: the message format travels in the transfer, nested messages are data
pub open spec fn mwire(m: Message) -> Message {
    Message(Box::new(MessageInner { message_format: None, body: MessageBody { data: Vec { s: Ghost(m.0.body.data@ + tbs(m.0.body.messages@, m.0.body.messages@.len())) }, messages: vnil(), ..m.0.body }, ..*m.0 }))
}
pub proof fn lemma_sec(sec: Section, m: Message, rest: Seq<u8>)
    requires sec.wf(), sec.enc().len() <= u32::MAX
    ensures msecs(m, sec.enc() + rest) == msecs(mset(m, sec), rest)
{
    Section::roundtrip(sec, rest);
    assert((sec.enc() + rest)[0] == sec.enc()[0]);
}
pub open spec fn mdata(m: Message, d: Seq<Bytes>) -> Message { Message(Box::new(MessageInner { body: MessageBody { data: Vec { s: Ghost(m.0.body.data@ + d) }, ..m.0.body }, ..*m.0 })) }
pub open spec fn mseq(m: Message, d: Seq<List>) -> Message { Message(Box::new(MessageInner { body: MessageBody { sequence: Vec { s: Ghost(m.0.body.sequence@ + d) }, ..m.0.body }, ..*m.0 })) }
pub proof fn lemma_datas(m: Message, s: Seq<Bytes>, n: nat, rest: Seq<u8>)
    requires n <= s.len(), secs(117, s, n).len() <= u32::MAX
    ensures msecs(m, secs(117, s, n) + rest) == msecs(mdata(m, s.take(n as int)), rest)
    decreases n
{
    if n == 0 {
        assert(secs(117, s, 0) + rest =~= rest); assert(m.0.body.data@ + s.take(0) =~= m.0.body.data@);
        assert(mdata(m, s.take(0)) == m);
    } else {
        let x = s[n - 1];
        let sec = Section::Data(x);
        lemma_section_enc(sec);
        assert(sec.enc() == denc(117) + x.enc());
        seq_assoc(secs(117, s, (n - 1) as nat), sec.enc(), rest);
        lemma_datas(m, s, (n - 1) as nat, sec.enc() + rest);
        let m1 = mdata(m, s.take(n - 1));
        lemma_sec(sec, m1, rest);
        assert((m.0.body.data@ + s.take(n - 1)).push(x) =~= m.0.body.data@ + s.take(n as int));
        assert(mset(m1, sec) == mdata(m, s.take(n as int)));
    }
}
pub proof fn lemma_seqs(m: Message, s: Seq<List>, n: nat, rest: Seq<u8>)
    requires n <= s.len(), secs(118, s, n).len() <= u32::MAX, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].wf()
    ensures msecs(m, secs(118, s, n) + rest) == msecs(mseq(m, s.take(n as int)), rest)
    decreases n
{
    if n == 0 {
        assert(secs(118, s, 0) + rest =~= rest); assert(m.0.body.sequence@ + s.take(0) =~= m.0.body.sequence@);
        assert(mseq(m, s.take(0)) == m);
    } else {
        let x = s[n - 1];
        let sec = Section::AmqpSequence(x);
        assert(x.wf());
        lemma_section_enc(sec);
        assert(sec.enc() == denc(118) + x.enc());
        seq_assoc(secs(118, s, (n - 1) as nat), sec.enc(), rest);
        lemma_seqs(m, s, (n - 1) as nat, sec.enc() + rest);
        let m1 = mseq(m, s.take(n - 1));
        lemma_sec(sec, m1, rest);
        assert((m.0.body.sequence@ + s.take(n - 1)).push(x) =~= m.0.body.sequence@ + s.take(n as int));
        assert(mset(m1, sec) == mseq(m, s.take(n as int)));
    }
}
pub proof fn lemma_nested(m: Message, s: Seq<TransferBody>, n: nat, rest: Seq<u8>)
    requires n <= s.len(), nested(s, n).len() <= u32::MAX
    ensures msecs(m, nested(s, n) + rest) == msecs(mdata(m, tbs(s, n)), rest)
    decreases n
{
    if n == 0 {
        assert(nested(s, 0) + rest =~= rest); assert(m.0.body.data@ + tbs(s, 0) =~= m.0.body.data@);
        assert(mdata(m, tbs(s, 0)) == m);
    } else {
        let x = Bytes { s: Ghost(tbenc(s[n - 1])) };
        let sec = Section::Data(x);
        lemma_section_enc(sec);
        assert(sec.enc() == denc(117) + x.enc());
        lemma_bytes_enc(x);
        seq_assoc(nested(s, (n - 1) as nat), sec.enc(), rest);
        lemma_nested(m, s, (n - 1) as nat, sec.enc() + rest);
        let m1 = mdata(m, tbs(s, (n - 1) as nat));
        lemma_sec(sec, m1, rest);
        assert((m.0.body.data@ + tbs(s, (n - 1) as nat)).push(x) =~= m.0.body.data@ + tbs(s, n));
        assert(mset(m1, sec) == mdata(m, tbs(s, n)));
    }
}
pub proof fn lemma_osec(m: Message, o: Option<Section>, e: Seq<u8>, rest: Seq<u8>)
    requires match o { Some(s) => s.wf() && s.enc() == e, None => e.len() == 0 }, e.len() <= u32::MAX
    ensures msecs(m, e + rest) == msecs(match o { Some(s) => mset(m, s), None => m }, rest)
{
    match o { Some(s) => { lemma_sec(s, m, rest); } None => { assert(e + rest =~= rest); } }
}
pub proof fn lemma_assoc10(e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>, e4: Seq<u8>, e5: Seq<u8>, e6: Seq<u8>, e7: Seq<u8>, e8: Seq<u8>, e9: Seq<u8>, e10: Seq<u8>)
    ensures (e1 + e2 + e3 + e4 + e5) + (e6 + e7 + e8 + e9) + e10 == e1 + (e2 + (e3 + (e4 + (e5 + (e6 + (e7 + (e8 + (e9 + (e10 + Seq::<u8>::empty())))))))))
{ broadcast use seq_assoc; assert(e10 + Seq::<u8>::empty() =~= e10); }
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn lemma_message_rt(m: Message)
    requires mwf(m), menc(m).len() <= u32::MAX
    ensures Message::dec(menc(m)) == Some((mwire(m), Seq::<u8>::empty()))
{
    let i = *m.0;
    let b = i.body;
    let e1 = oenc(i.header); let e2 = osec(113, i.delivery_annotations); let e3 = osec(114, i.message_annotations); let e4 = oenc(i.properties); let e5 = osec(116, i.application_properties);
    let e6 = secs(117, b.data@, b.data@.len()); let e7 = secs(118, b.sequence@, b.sequence@.len()); let e8 = osec(119, b.value); let e9 = nested(b.messages@, b.messages@.len()); let e10 = osec(120, i.footer);
    let z = Seq::<u8>::empty();
    let r9 = e10 + z; let r8 = e9 + r9; let r7 = e8 + r8; let r6 = e7 + r7; let r5 = e6 + r6; let r4 = e5 + r5; let r3 = e4 + r4; let r2 = e3 + r3; let r1 = e2 + r2;
    lemma_assoc10(e1, e2, e3, e4, e5, e6, e7, e8, e9, e10);
    lemma_mapp(z, m);
    assert(menc(m) == e1 + r1);
    assert(menc(m).len() == e1.len() + e2.len() + e3.len() + e4.len() + e5.len() + e6.len() + e7.len() + e8.len() + e9.len() + e10.len());
    let m0 = msg0();
    if let Some(v) = i.header { lemma_section_enc(Section::Header(v)); lemma_header_nn(v); }
    let m1 = lemma_step(m0, match i.header { Some(v) => Some(Section::Header(v)), None => None }, e1, r1);
    if let Some(v) = i.delivery_annotations { lemma_section_enc(Section::DeliveryAnnotations(v)); }
    let m2 = lemma_step(m1, match i.delivery_annotations { Some(v) => Some(Section::DeliveryAnnotations(v)), None => None }, e2, r2);
    if let Some(v) = i.message_annotations { lemma_section_enc(Section::MessageAnnotations(v)); }
    let m3 = lemma_step(m2, match i.message_annotations { Some(v) => Some(Section::MessageAnnotations(v)), None => None }, e3, r3);
    if let Some(v) = i.properties { lemma_section_enc(Section::Properties(v)); lemma_properties_nn(v); }
    let m4 = lemma_step(m3, match i.properties { Some(v) => Some(Section::Properties(v)), None => None }, e4, r4);
    if let Some(v) = i.application_properties { lemma_section_enc(Section::ApplicationProperties(v)); }
    let m5 = lemma_step(m4, match i.application_properties { Some(v) => Some(Section::ApplicationProperties(v)), None => None }, e5, r5);
    lemma_datas(m5, b.data@, b.data@.len(), r6);
    let m6 = mdata(m5, b.data@.take(b.data@.len() as int));
    lemma_seqs(m6, b.sequence@, b.sequence@.len(), r7);
    let m7 = mseq(m6, b.sequence@.take(b.sequence@.len() as int));
    if let Some(v) = b.value { lemma_section_enc(Section::AmqpValue(v)); }
    let m8 = lemma_step(m7, match b.value { Some(v) => Some(Section::AmqpValue(v)), None => None }, e8, r8);
    lemma_nested(m8, b.messages@, b.messages@.len(), r9);
    let m9 = mdata(m8, tbs(b.messages@, b.messages@.len()));
    if let Some(v) = i.footer { lemma_section_enc(Section::Footer(v)); }
    let m10 = lemma_step(m9, match i.footer { Some(v) => Some(Section::Footer(v)), None => None }, e10, z);
    assert(b.data@.take(b.data@.len() as int) =~= b.data@);
    assert(b.sequence@.take(b.sequence@.len() as int) =~= b.sequence@);
    assert(Seq::<Bytes>::empty() + b.data@ =~= b.data@);
    assert(Seq::<List>::empty() + b.sequence@ =~= b.sequence@);
    assert(msecs(m10, z) == Some(m10));
    assert(m10 == mwire(m));
}
pub proof fn lemma_step(m: Message, o: Option<Section>, e: Seq<u8>, rest: Seq<u8>) -> (r: Message)
    requires match o { Some(s) => s.wf() && s.enc() == e, None => e.len() == 0 }, e.len() <= u32::MAX
    ensures r == (match o { Some(s) => mset(m, s), None => m }), msecs(m, e + rest) == msecs(r, rest)
{
    lemma_osec(m, o, e, rest);
    match o { Some(s) => mset(m, s), None => m }
}
