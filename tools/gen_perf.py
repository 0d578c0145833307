#!/usr/bin/env python3
"""Generate contracts/codec/perf.vx: contracts of the AMQP performatives from the AMQP 1.0 field tables
(tools/amqp_types.json: order, types, mandatory, defaults, descriptors).  The output is committed;
nothing in /repo is read here."""
import json, re, os
here = os.path.dirname(os.path.abspath(__file__))
defs = json.load(open(here + '/amqp_types.json'))
D = 'codec/src/protocol/definitions.rs'
P = 'codec/src/protocol/mod.rs'
def camel(s): return ''.join(w.capitalize() for w in re.split('[-_:]', s))
def snake(s): return s.replace('-', '_')
byname = {d['name']: d for d in defs}
PRIM = {'boolean': 'bool', 'ubyte': 'u8', 'ushort': 'u16', 'uint': 'u32', 'ulong': 'u64', 'string': 'ByteString', 'symbol': 'Symbol',
        'binary': 'Bytes', 'timestamp': 'DateTime<Utc>', 'uuid': 'Uuid', 'map': 'HashMap<Variant, Variant>', 'list': 'List',
        'fields': 'HashMap<Symbol, Variant>', 'node-properties': 'HashMap<Symbol, Variant>', 'annotations': 'HashMap<Symbol, Variant>',
        'filter-set': 'HashMap<Symbol, Option<ByteString>>', 'fieldsVec': 'VecSymbolMap', 'vec-symbol-map': 'VecSymbolMap', 'vec-string-map': 'VecStringMap'}
REQ = {'distribution-mode': 'DistributionMode', 'address': 'ByteString', 'error-condition': 'ErrorCondition', 'delivery-state': 'DeliveryState', 'outcome': 'Outcome',
       'source': 'Source', 'target': 'Target', 'message-id': 'MessageId'}
def ftype(f):
    t = f['type']
    if 'requires' in f and (t == '*' or f['requires'] in ('error-condition','distribution-mode')): b = REQ[f['requires']]
    elif t == '*': b = 'Variant'
    elif t in PRIM: b = PRIM[t]
    elif t in byname:
        d = byname[t]
        if 'choice' in d or d['class'] == 'composite': b = camel(t)
        else: b = ftype({'type': d['source']})
    elif t in REQ: b = REQ[t]
    elif t == 'milliseconds': b = 'u32'
    else: raise Exception(t)
    if f.get('multiple') == 'true': b = 'Multiple<%s>' % b
    return b
def dflt(f):
    d = f['default']; t = ftype(f)
    if t == 'bool': return d
    if t in ('u8', 'u16', 'u32', 'u64'): return d + t
    return '%s::%s' % (t, camel(d))
BOXED = {'error', 'open', 'begin', 'attach', 'flow', 'transfer', 'disposition', 'detach'}
out = []
w = out.append
enums = [d for d in defs if 'choice' in d]
comps = [d for d in defs if d['class'] == 'composite']
restr = [d for d in defs if d['class'] == 'restricted' and 'descriptor' in d]
def code(d): return int(d['descriptor']['code'].split(':')[1], 16)
w('''// GENERATED by tools/gen_perf.py from tools/amqp_types.json (AMQP 1.0 field tables). Do not edit.
// ===================================================================================
// Performatives, termini, outcomes, sections, SASL frames
// ===================================================================================
//@props C03 C04 C06
//@constfn FIELD_COUNT
//@stripmod format_codes decode collections''')
# aliases
for d in defs:
    if d['class'] == 'restricted' and 'choice' not in d and 'descriptor' not in d and d['name'] not in ('fields', 'filter-set', 'annotations'):
        w('//@item %s %s' % (D, camel(d['name'])))
for n in ('Map', 'StringVariantMap', 'Fields', 'FilterSet', 'FieldsVec', 'Timestamp', 'Symbols', 'IetfLanguageTags', 'Annotations', 'MessageId', 'ErrorCondition', 'DistributionMode', 'TransferBody'):
    w('//@item %s %s' % (P, n))
for d in restr: w('//@item %s %s' % (D, camel(d['name'])))
for d in enums: w('//@item %s %s' % (D, camel(d['name'])))
for d in comps:
    n = camel(d['name'])
    w('//@item %s %s' % (D, n))
    if d['name'] in BOXED: w('//@item %s %sInner' % (D, n))
w('''//@item codec/src/message/message.rs Message
//@item codec/src/message/message.rs MessageInner
//@item codec/src/message/body.rs MessageBody
''')
w('''
/// mandatory field: present and not null
pub open spec fn fman<T: DecodeFormatted>(s: Seq<u8>, n: int) -> Option<(T, Seq<u8>)> { if n > 0 { T::dec(s) } else { None } }
pub open spec fn fman_rej<T: DecodeFormatted>(s: Seq<u8>, n: int) -> bool { n <= 0 || T::drej(s) }
/// optional field: null or omitted
pub open spec fn fopt<T: DecodeFormatted>(s: Seq<u8>, n: int) -> Option<(Option<T>, Seq<u8>)> { if n > 0 { Option::<T>::dec(s) } else { Some((None, s)) } }
pub open spec fn fopt_rej<T: DecodeFormatted>(s: Seq<u8>, n: int) -> bool { n > 0 && Option::<T>::drej(s) }
pub open spec fn fdef<T>(v: Option<T>, d: T) -> T { match v { Some(x) => x, None => d } }
/// list with its header: fields and bytes after the list
pub open spec fn list_split(s: Seq<u8>) -> Option<((Seq<u8>, u32), Seq<u8>)> {
    match ListHeader::dec(s) {
        Some((h, r)) => if r.len() >= h.size { Some(((r.subrange(0, h.size as int), h.count), r.skip(h.size as int))) } else { None },
        None => None,
    }
}
pub open spec fn owf<T: RoundTrip>(o: Option<T>) -> bool { match o { Some(v) => v.wf(), None => true } }
/// types whose encoding is never null
pub trait NotNull: RoundTrip {
    proof fn nn(v: Self) requires v.wf(), v.enc().len() <= u32::MAX ensures v.enc().len() >= 1, v.enc()[0] != 0x40;
}
pub proof fn lemma_fman<T: NotNull>(v: T, rest: Seq<u8>, n: int)
    requires v.wf(), v.enc().len() <= u32::MAX, n > 0
    ensures fman::<T>(v.enc() + rest, n) == Some((v, rest))
{ T::roundtrip(v, rest); assert((v.enc() + rest)[0] == v.enc()[0]); }
pub proof fn lemma_fdef<T: NotNull>(v: T, rest: Seq<u8>, n: int)
    requires v.wf(), v.enc().len() <= u32::MAX, n > 0
    ensures fopt::<T>(v.enc() + rest, n) == Some((Some(v), rest))
{ T::roundtrip(v, rest); T::nn(v); assert((v.enc() + rest)[0] == v.enc()[0]); }
pub proof fn lemma_fopt<T: NotNull>(v: Option<T>, rest: Seq<u8>, n: int)
    requires owf(v), v.enc().len() <= u32::MAX, n > 0
    ensures fopt::<T>(v.enc() + rest, n) == Some((v, rest))
{
    match v {
        Some(x) => { lemma_fdef(x, rest, n); }
        None => { lemma_one(0x40, rest); assert((v.enc() + rest)[0] == 0x40); }
    }
}
pub proof fn lemma_nn_opt<T: NotNull>(v: Option<T>)
    requires owf(v), v.enc().len() <= u32::MAX
    ensures v.enc().len() >= 1
{ if v is Some { T::nn(v.unwrap()); } }
/// a list whose size field is the size of its fields
pub proof fn lemma_list_split(n: int, c: Seq<u8>, rest: Seq<u8>)
    requires c.len() + 4 <= u32::MAX, 0 <= n <= c.len()
    ensures enc_comp(0xc0, 0xd0, n, c).len() >= 3, list_split(enc_comp(0xc0, 0xd0, n, c) + rest) == Some(((c, n as u32), rest))
{
    lemma_hdr(0xc0, 0xd0, n, c, rest, false);
    lemma_comp_len(0xc0, 0xd0, n, c);
    let e = enc_comp(0xc0, 0xd0, n, c);
    assert((e + rest)[0] == e[0]);
    assert((c + rest).subrange(0, c.len() as int) =~= c);
    assert((c + rest).skip(c.len() as int) =~= rest);
}
pub open spec fn desc_is(d: Descriptor, n: u64, sym: Seq<u8>) -> bool { match d { Descriptor::Ulong(v) => v == n, Descriptor::Symbol(s) => s.0.0@ == sym } }
pub open spec fn denc(n: u64) -> Seq<u8> { Descriptor::Ulong(n).enc() }
pub proof fn lemma_denc(n: u64, rest: Seq<u8>)
    requires 0 < n < 256
    ensures denc(n).len() == 3, denc(n)[0] == 0, (denc(n) + rest)[0] == 0, Descriptor::dec((denc(n) + rest).skip(1)) == Some((Descriptor::Ulong(n), rest))
{ lemma_desc(Descriptor::Ulong(n), rest); }
''')
NN = {'bool': 'NN', 'u8': '', }
for t in ('u8', 'u16', 'u32', 'u64', 'ByteString', 'Symbol', 'Bytes', 'Uuid', 'DateTime<Utc>'):
    h = {'u32': '', 'u64': '', }.get(t, '')
    w('impl NotNull for %s { proof fn nn(v: Self) { %s } }' % (t, {'ByteString': 'lemma_enc_be_len(v.seq().len(), 4);', 'Bytes': 'lemma_enc_be_len(v.seq().len(), 4);', 'Symbol': 'lemma_enc_be_len(v.0.0.seq().len(), 4);'}.get(t, '')))
w('''impl NotNull for bool { proof fn nn(v: Self) { } }
impl<K: RoundTrip, V: RoundTrip> NotNull for HashMap<K, V> { proof fn nn(v: Self) { lemma_map_rt(v@, Seq::empty()); } }
impl NotNull for VecSymbolMap { proof fn nn(v: Self) { lemma_map_rt(v.0@, Seq::empty()); } }
impl NotNull for VecStringMap { proof fn nn(v: Self) { lemma_map_rt(v.0@, Seq::empty()); } }
impl<T: Single + ArrayRoundTrip + NotNull> NotNull for Multiple<T> {
    proof fn nn(v: Self) { if v.0@.len() == 1 { assert(v.0@[0].wf()); T::nn(v.0@[0]); } else { lemma_vec_rt(v.0@, Seq::empty()); } }
}
''')
# ---------------------------------------------------------------- enums
for d in enums:
    n = camel(d['name']); src = d['source']
    ch = [(camel(c['name']), c['value']) for c in d['choice']]
    if src == 'symbol':
        w('pub open spec fn %s_sym(v: %s) -> Seq<u8> { match v { %s } }' % (snake(d['name']), n, ', '.join('%s::%s => lit!("%s")' % (n, c, v) for c, v in ch)))
        w('pub open spec fn %s_of(s: Seq<u8>) -> Option<%s> { %s { None } }' % (snake(d['name']), n, ' '.join('if s == lit!("%s") { Some(%s::%s) } else' % (v, n, c) for c, v in ch)))
        facts = ' '.join('litf!("%s");' % v for c, v in ch)
        w('''//@impl %s %s
//@method try_from
    ensures match %s_of(v.0.0@) { Some(x) => r == Ok::<%s, AmqpParseError>(x), None => r is Err }
//@end
//@impl %s "DecodeFormatted for %s"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => match %s_of(b.0.0@) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl %s "Encode for %s" hint="let _ = self.enc().len(); %s"
    open spec fn enc(&self) -> Seq<u8> { enc_var(0xa3, 0xb3, %s_sym(*self)) }
//@end
pub proof fn lemma_%s_sym(v: %s)
    ensures %s_of(%s_sym(v)) == Some(v), is_utf8(%s_sym(v)), 1 <= %s_sym(v).len() <= 255
{ %s axiom_utf8_lits(); }
impl RoundTrip for %s {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_%s_sym(v); lemma_enc_var(0xa3, 0xb3, %s_sym(v), rest); }
}
impl NotNull for %s { proof fn nn(v: Self) { } }
''' % (D, n, snake(d['name']), n, D, n, snake(d['name']), D, n, facts.replace('("', '{').replace('")', '}'), snake(d['name']), snake(d['name']), n, snake(d['name']), snake(d['name']), snake(d['name']), snake(d['name']), facts, n, snake(d['name']), snake(d['name']), n))
    else:
        t = PRIM[src]
        val = (lambda v: v) if t == 'bool' else (lambda v: v + t)
        w('pub open spec fn %s_val(v: %s) -> %s { match v { %s } }' % (snake(d['name']), n, t, ', '.join('%s::%s => %s' % (n, c, val(v)) for c, v in ch)))
        w('pub open spec fn %s_of(s: %s) -> Option<%s> { %s { None } }' % (snake(d['name']), t, n, ' '.join('if s == %s { Some(%s::%s) } else' % (val(v), n, c) for c, v in ch)))
        w('''//@impl %s %s
//@method try_from
    ensures match %s_of(v) { Some(x) => r == Ok::<%s, AmqpParseError>(x), None => r is Err }
//@end
//@impl %s "DecodeFormatted for %s"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match %s::sdec(s, fmt) { Some((b, r)) => match %s_of(b) { Some(x) => Some((x, r)), None => None }, None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { %s }
//@end
//@impl %s "Encode for %s"
    open spec fn enc(&self) -> Seq<u8> { %s_val(*self).enc() }
//@end
impl RoundTrip for %s {
    open spec fn wf(&self) -> bool { true }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { %s::roundtrip(%s_val(v), rest); }
}
impl NotNull for %s { proof fn nn(v: Self) { } }
''' % (D, n, snake(d['name']), n, D, n, t, snake(d['name']), 'bool::srej(s, fmt)' if t == 'bool' else 'true', D, n, snake(d['name']), n, t, snake(d['name']), n))
allsyms = [c['value'] for d in enums if d['source'] == 'symbol' for c in d['choice']] + ['move', 'copy']
w('#[verifier::external_body]\npub proof fn axiom_utf8_lits() ensures %s { }' % ', '.join('is_utf8(lit!("%s"))' % s for s in dict.fromkeys(allsyms)))
errs = [d for d in enums if d.get('provides') == 'error-condition']
w('''
//@impl %s "DecodeFormatted for MessageId"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt == 0x80 || fmt == 0x53 || fmt == 0x44 { match u64::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Ulong(v), r)), None => None } }
        else if fmt == 0x98 { match Uuid::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Uuid(v), r)), None => None } }
        else if fmt == 0xa0 || fmt == 0xb0 { match Bytes::sdec(s, fmt) { Some((v, r)) => Some((MessageId::Binary(v), r)), None => None } }
        else if fmt == 0xa1 || fmt == 0xb1 { match ByteString::sdec(s, fmt) { Some((v, r)) => Some((MessageId::String(v), r)), None => None } }
        else { None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl %s "Encode for MessageId"
    open spec fn enc(&self) -> Seq<u8> { match *self { MessageId::Ulong(v) => v.enc(), MessageId::Uuid(v) => v.enc(), MessageId::Binary(v) => v.enc(), MessageId::String(v) => v.enc() } }
//@end
impl RoundTrip for MessageId {
    open spec fn wf(&self) -> bool { match *self { MessageId::String(v) => v.wf(), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {
            MessageId::Ulong(x) => { u64::roundtrip(x, rest); }
            MessageId::Uuid(x) => { Uuid::roundtrip(x, rest); }
            MessageId::Binary(x) => { Bytes::roundtrip(x, rest); lemma_enc_be_len(x.seq().len(), 4); }
            MessageId::String(x) => { ByteString::roundtrip(x, rest); lemma_enc_be_len(x.seq().len(), 4); }
        }
    }
}
impl NotNull for MessageId { proof fn nn(v: Self) { match v { MessageId::Ulong(x) => u64::nn(x), MessageId::Uuid(x) => Uuid::nn(x), MessageId::Binary(x) => Bytes::nn(x), MessageId::String(x) => ByteString::nn(x) } } }
''' % (P, P))
w('pub open spec fn errc_of(s: Symbol) -> ErrorCondition {')
for d in errs:
    w('    if %s_of(s.0.0@) is Some { ErrorCondition::%s(%s_of(s.0.0@).unwrap()) } else' % (snake(d['name']), camel(d['name']), snake(d['name'])))
w('    { ErrorCondition::Custom(s) }\n}')
pre = ' && '.join('%s_of(s.0.0@) is None' % snake(d['name']) for d in errs)
w('''/// symbols that are not predefined conditions
pub open spec fn errc_custom(s: Symbol) -> bool { %s }
//@impl %s "DecodeFormatted for ErrorCondition"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => Some((errc_of(b), r)), None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl %s "Encode for ErrorCondition"
    open spec fn enc(&self) -> Seq<u8> { match *self { %s, ErrorCondition::Custom(v) => v.enc() } }
//@end''' % (pre, P, P, ', '.join('ErrorCondition::%s(v) => v.enc()' % camel(d['name']) for d in errs)))
# distinct predefined symbols across the enums
for i, d in enumerate(errs):
    w('pub proof fn lemma_errc_%s(v: %s) ensures %s { %s }' % (snake(d['name']), camel(d['name']),
        ', '.join(['%s_of(%s_sym(v)) is None' % (snake(e['name']), snake(d['name'])) for e in errs if e is not d]),
        ' '.join('litf!("%s");' % c['value'] for e in errs for c in e['choice'])))
w('''impl RoundTrip for ErrorCondition {
    open spec fn wf(&self) -> bool { match *self { ErrorCondition::Custom(s) => s.wf() && errc_custom(s), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {''')
for d in errs:
    s = snake(d['name'])
    w('            ErrorCondition::%s(x) => { lemma_errc_%s(x); lemma_%s_sym(x); lemma_enc_var(0xa3, 0xb3, %s_sym(x), rest); }' % (camel(d['name']), s, s, s))
w('''            ErrorCondition::Custom(x) => { Symbol::roundtrip(x, rest); }
        }
    }
}
impl NotNull for ErrorCondition { proof fn nn(v: Self) { match v { ErrorCondition::Custom(x) => Symbol::nn(x), %s } } }''' % ', '.join('ErrorCondition::%s(x) => %s::nn(x)' % (camel(d['name']), camel(d['name'])) for d in errs))
w('''//@impl %s "DecodeFormatted for DistributionMode"
    open spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        match Symbol::sdec(s, fmt) { Some((b, r)) => Some((if b.0.0@ == lit!("move") { DistributionMode::Move } else if b.0.0@ == lit!("copy") { DistributionMode::Copy } else { DistributionMode::Custom(b) }, r)), None => None }
    }
    open spec fn srej(s: Seq<u8>, fmt: u8) -> bool { true }
//@end
//@impl %s "Encode for DistributionMode" hint="litf!{move}; litf!{copy};"
    open spec fn enc(&self) -> Seq<u8> { match *self { DistributionMode::Move => enc_var(0xa3, 0xb3, lit!("move")), DistributionMode::Copy => enc_var(0xa3, 0xb3, lit!("copy")), DistributionMode::Custom(v) => v.enc() } }
//@end
impl RoundTrip for DistributionMode {
    open spec fn wf(&self) -> bool { match *self { DistributionMode::Custom(s) => s.wf() && s.0.0@ != lit!("move") && s.0.0@ != lit!("copy"), _ => true } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        litf!("move"); litf!("copy"); axiom_utf8_lits();
        match v {
            DistributionMode::Move => { lemma_enc_var(0xa3, 0xb3, lit!("move"), rest); }
            DistributionMode::Copy => { lemma_enc_var(0xa3, 0xb3, lit!("copy"), rest); }
            DistributionMode::Custom(x) => { Symbol::roundtrip(x, rest); }
        }
    }
}
impl NotNull for DistributionMode { proof fn nn(v: Self) { match v { DistributionMode::Custom(x) => Symbol::nn(x), _ => { litf!("move"); litf!("copy"); } } } }
''' % (P, P))
open(here + '/../contracts/codec/perfb.vx', 'w').write('\n'.join(out) + '\n')
out.clear()
w('''// GENERATED by tools/gen_perf.py from tools/amqp_types.json (AMQP 1.0 field tables). Do not edit.
//@props C03 C04 C06
//@constfn FIELD_COUNT
//@stripmod format_codes decode collections''')
MODS = []
def mod(name):
    w('pub mod %s {\nuse super::*;\nuse super::vals::Map;\nverus! {\nbroadcast use gperf;' % name); MODS.append(name)
def endmod():
    w('} // verus!\n}\npub use %s::*;' % MODS[-1])
# ---------------------------------------------------------------- composites
def acc(d): return 'v.0.' if d['name'] in BOXED else 'v.'
for d in comps:
    n = camel(d['name']); s = snake(d['name']); fs = d.get('field', []); c = code(d); sym = d['descriptor']['name']
    tr = d['name'] == 'transfer'
    k = len(fs)
    w('// ---- %s' % n)
    mod('m_' + s)
    w('pub closed spec fn %s_fapp(b: Seq<u8>, v: %s) -> Seq<u8> { b%s }' % (s, n, ''.join(' + %s%s.enc()' % (acc(d), snake(f['name'])) for f in fs)))
    w('pub closed spec fn %s_fenc(v: %s) -> Seq<u8> { %s_fapp(Seq::<u8>::empty(), v) }' % (s, n, s))
    benc = ' + (match v.0.body { Some(b) => b.enc(), None => Seq::<u8>::empty() })' if tr else ''
    w('pub closed spec fn %s_enc(v: %s) -> Seq<u8> { denc(%d) + (enc_comp(0xc0, 0xd0, %d, %s_fenc(v))%s) }' % (s, n, c, k, s, benc))
    w('''pub proof fn lemma_%s_app(b: Seq<u8>, v: %s)
    ensures %s_fapp(b, v) == b + %s_fenc(v)
{
    let p0 = Seq::<u8>::empty();
    assert(b + p0 =~= b);''' % (s, n, s, s))
    for i, f in enumerate(fs):
        a = acc(d) + snake(f['name'])
        w('    seq_assoc(b, p%d, %s.enc()); let p%d = p%d + %s.enc();' % (i, a, i + 1, i, a))
    w('''}
pub proof fn lemma_%s_put(b: Seq<u8>, v: %s)
    ensures
        denc(%d).len() == 3,
        %s_fapp(comp_hdr(b + denc(%d), %d, %s_fenc(v).len()), v) == b + (denc(%d) + enc_comp(0xc0, 0xd0, %d, %s_fenc(v))),
        %s_enc(v).len() == 3 + enc_comp(0xc0, 0xd0, %d, %s_fenc(v)).len()%s,
        enc_comp(0xc0, 0xd0, %d, %s_fenc(v)).len() == %s_fenc(v).len() + (if %s_fenc(v).len() + 1 > 255 { 9int } else { 3int }),
        %s_fenc(v).len() == %s,
{
    let c = %s_fenc(v);
    lemma_denc(%d, Seq::empty());
    lemma_%s_app(comp_hdr(b + denc(%d), %d, c.len()), v);
    lemma_comp_hdr(b + denc(%d), %d, c);
    seq_assoc(b, denc(%d), enc_comp(0xc0, 0xd0, %d, c));
    lemma_comp_len(0xc0, 0xd0, %d, c);
}''' % (s, n, c, s, c, k, s, c, k, s, s, k, s, ' + (match v.0.body { Some(b) => b.enc().len(), None => 0nat })' if tr else '', k, s, s, s, s, ' + '.join(['0'] + ['%s%s.enc().len()' % (acc(d), snake(f['name'])) for f in fs]), s, c, s, c, k, c, k, c, k, k))
    # field decoding
    def ctor(extra=''):
        inner = ', '.join(('%s: %s' % (snake(f['name']), ('fdef(f%d, %s)' % (i, dflt(f))) if 'default' in f else 'f%d' % i)) for i, f in enumerate(fs))
        if extra: inner += ', ' + extra
        return '%s(Box::new(%sInner { %s }))' % (n, n, inner) if d['name'] in BOXED else '%s { %s }' % (n, inner)
    bp = ', body: Option<TransferBody>' if tr else ''
    w('pub closed spec fn %s_fdec(s0: Seq<u8>, n: int%s) -> Option<(%s, Seq<u8>)> {' % (s, bp, n))
    ind = '    '
    for i, f in enumerate(fs):
        w('%smatch %s::<%s>(s%d, n - %d) { None => None, Some((f%d, s%d)) =>' % (ind, 'fman' if f.get('mandatory') == 'true' else 'fopt', ftype(f), i, i, i, i + 1))
    w('%sSome((%s, s%d))' % (ind, ctor('body' if tr else ''), k))
    w(ind + '}' * k + '\n}')
    w('pub closed spec fn %s_frej(s0: Seq<u8>, n: int) -> bool {' % s)
    for i, f in enumerate(fs):
        g = 'fman' if f.get('mandatory') == 'true' else 'fopt'
        w('%smatch %s::<%s>(s%d, n - %d) { None => %s_rej::<%s>(s%d, n - %d), Some((f%d, s%d)) =>' % (ind, g, ftype(f), i, i, g, ftype(f), i, i, i, i + 1))
    w('%sfalse' % ind)
    w(ind + '}' * k + '\n}')
    if tr:
        body = 'if r.len() == 0 { None } else { Some(TransferBody::Data(Bytes { s: Ghost(r) })) }'
        w('''pub closed spec fn %s_idec(s: Seq<u8>) -> Option<(%s, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match %s_fdec(data, count as int, %s) { Some((v, r2)) => if r2.len() == 0 && count <= %d { Some((v, Seq::<u8>::empty())) } else { None }, None => None },
        None => None,
    }
}''' % (s, n, s, body, k))
    else:
        w('''pub closed spec fn %s_idec(s: Seq<u8>) -> Option<(%s, Seq<u8>)> {
    match list_split(s) {
        Some(((data, count), r)) => match %s_fdec(data, count as int) { Some((v, r2)) => if r2.len() == 0 && count <= %d { Some((v, r)) } else { None }, None => None },
        None => None,
    }
}''' % (s, n, s, k))
    w('''pub closed spec fn %s_irej(s: Seq<u8>) -> bool { match list_split(s) { Some(((data, count), r)) => %s_frej(data, count as int), None => true } }
//@impl %s %s
//@method FIELD_COUNT
    ensures r == %d
//@end
//@fn %s decode_%s_inner
    ensures
        suffix(final(input)@, old(input)@),
        match %s_idec(old(input)@) {
            Some((v, rest)) => r == Ok::<%s, AmqpParseError>(v) && final(input)@ == rest,
            None => %s_irej(old(input)@) ==> r is Err,
        },
//@end
//@fn %s encoded_size_%s_inner
    requires %s_enc(*list).len() <= u32::MAX
    ensures r == %s_enc(*list).len()
//@start
    let ghost v = *list;
    proof { lemma_%s_put(Seq::empty(), v); }
//@end
//@fn %s encode_%s_inner
    requires %s_enc(*list).len() <= u32::MAX
    ensures final(buf)@ == old(buf)@ + %s_enc(*list)
//@start
    let ghost v = *list;
    proof { lemma_%s_put(buf@, v);%s }
//@end
//@impl %s "DecodeFormatted for %s"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => if desc_is(d, %d, lit!("%s")) { %s_idec(r) } else { None }, None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => !desc_is(d, %d, lit!("%s")) || %s_irej(r), None => Descriptor::drej(s) }
    }
//@end
//@impl %s "Encode for %s"
    closed spec fn enc(&self) -> Seq<u8> { %s_enc(*self) }
//@end''' % (s, s, D, n, k, D, s, s, n, s, D, s, s, s, s, D, s, s, s, s, (' if v.0.body is Some { seq_assoc(buf@, denc(%d) + enc_comp(0xc0, 0xd0, %d, %s_fenc(v)), v.0.body.unwrap().enc()); seq_assoc(denc(%d), enc_comp(0xc0, 0xd0, %d, %s_fenc(v)), v.0.body.unwrap().enc()); } else { assert(enc_comp(0xc0, 0xd0, %d, %s_fenc(v)) + Seq::<u8>::empty() =~= enc_comp(0xc0, 0xd0, %d, %s_fenc(v))); }' % (c, k, s, c, k, s, k, s, k, s)) if tr else '', D, n, c, sym, s, c, sym, s, D, n, s))
    w('''pub proof fn lemma_%s_nn(v: %s)
    ensures %s_enc(v).len() >= 3, %s_enc(v)[0] == 0, v.enc() == %s_enc(v)%s
{ lemma_denc(%d, Seq::empty()); }''' % (s, n, s, s, s, '' if tr else ', v.wf() == %s_wf(v)' % s, c))
    # round trip
    def fwf(f):
        a = acc(d) + snake(f['name'])
        return ('%s.wf()' % a) if f.get('mandatory') == 'true' or 'default' in f else 'owf(%s)' % a
    w('pub closed spec fn %s_wf(v: %s) -> bool { %s }' % (s, n, ' && '.join([fwf(f) for f in fs] + (['!(v.0.body is Some && v.0.body.unwrap().enc().len() == 0)', '(v.0.body is Some ==> v.0.body.unwrap() is Data)'] if tr else [])) or 'true'))
    # lemma: fields
    w('''pub proof fn lemma_%s_fields(v: %s)
    requires %s_wf(v), %s_fenc(v).len() <= u32::MAX
    ensures %s_fdec(%s_fenc(v), %d%s) == Some((v, Seq::<u8>::empty())), %s_fenc(v).len() >= %d
{''' % (s, n, s, s, s, s, k, ', v.0.body' if tr else '', s, k))
    # suffixes r_k = empty, r_i = f_i.enc() + r_{i+1}
    w('    let r%d = Seq::<u8>::empty();' % k)
    for i in reversed(range(k)):
        f = fs[i]; a = acc(d) + snake(f['name'])
        g = 'lemma_fman' if f.get('mandatory') == 'true' else ('lemma_fdef' if 'default' in f else 'lemma_fopt')
        w('    let r%d = %s.enc() + r%d;' % (i, a, i + 1))
    w('    lemma_%s_put(Seq::empty(), v);\n    let p0 = Seq::<u8>::empty(); assert(p0 + r0 =~= r0);' % s)
    for i in range(k):
        f = fs[i]; a = acc(d) + snake(f['name'])
        w('    seq_assoc(p%d, %s.enc(), r%d); let p%d = p%d + %s.enc();' % (i, a, i + 1, i + 1, i, a))
    w('    assert(p%d + r%d =~= p%d);' % (k, k, k))
    for i in range(k):
        f = fs[i]; a = acc(d) + snake(f['name'])
        g = 'lemma_fman' if f.get('mandatory') == 'true' else ('lemma_fdef' if 'default' in f else 'lemma_fopt')
        w('    %s(%s, r%d, %d - %d);' % (g, a, i + 1, k, i))
        nn = '%s::nn(%s)' % (ftype(f).replace('<', '::<', 1) , a) if (f.get('mandatory') == 'true' or 'default' in f) else 'lemma_nn_opt(%s)' % a
        w('    %s;' % nn)
    w('    assert(%s_fenc(v) == r0);' % s)
    w('}')
    if tr:
        w('''impl RoundTrip for %s {
    // the body follows the list up to the end of the frame, see lemma_transfer_rt
    closed spec fn wf(&self) -> bool { %s_wf(*self) && self.0.body is None }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { assume(false); }
}''' % (n, s) if False else '''pub proof fn lemma_transfer_rt(v: Transfer)
    requires transfer_wf(v), v.enc().len() <= u32::MAX
    ensures v.enc().len() >= 1, v.enc()[0] == 0, Descriptor::dec(v.enc().skip(1)) is Some,
        Descriptor::dec(v.enc().skip(1)).unwrap().0 == Descriptor::Ulong(20),
        transfer_idec(Descriptor::dec(v.enc().skip(1)).unwrap().1) == Some((v, Seq::<u8>::empty())),
{
    let b = match v.0.body { Some(b) => b.enc(), None => Seq::<u8>::empty() };
    let l = enc_comp(0xc0, 0xd0, %d, transfer_fenc(v)) + b;
    lemma_denc(20, l);
    lemma_comp_len(0xc0, 0xd0, %d, transfer_fenc(v));
    lemma_transfer_fields(v);
    lemma_list_split(%d, transfer_fenc(v), b);
    if v.0.body is Some { lemma_tb_data(v.0.body.unwrap()); }
    if b.len() > 0 { assert(TransferBody::Data(Bytes { s: Ghost(b) }) == v.0.body.unwrap()); }
}''' % (k, k, k))
    else:
        w('''pub proof fn lemma_%s_rt(v: %s, rest: Seq<u8>)
    requires %s_wf(v), %s_enc(v).len() <= u32::MAX
    ensures %s_enc(v).len() >= 1, %s_enc(v)[0] == 0, Descriptor::dec((%s_enc(v) + rest).skip(1)) == Some((Descriptor::Ulong(%d), enc_comp(0xc0, 0xd0, %d, %s_fenc(v)) + rest)),
        %s_idec(enc_comp(0xc0, 0xd0, %d, %s_fenc(v)) + rest) == Some((v, rest)),
{
    let l = enc_comp(0xc0, 0xd0, %d, %s_fenc(v)) + rest;
    lemma_denc(%d, l);
    lemma_comp_len(0xc0, 0xd0, %d, %s_fenc(v));
    lemma_%s_fields(v);
    lemma_list_split(%d, %s_fenc(v), rest);
    assert(%s_enc(v) + rest =~= denc(%d) + l);
}
impl RoundTrip for %s {
    closed spec fn wf(&self) -> bool { %s_wf(*self) }
    proof fn roundtrip(v: Self, rest: Seq<u8>) { lemma_%s_rt(v, rest); }
}
impl NotNull for %s { proof fn nn(v: Self) { lemma_denc(%d, Seq::empty()); } }
''' % (s, n, s, s, s, s, s, c, k, s, s, k, s, k, s, c, k, s, s, k, s, s, c, n, s, s, n, c))
    endmod()
# ---------------------------------------------------------------- described restricted types (sections)
mod('m_sections')
for d in restr:
    n = camel(d['name']); s = snake(d['name']); c = code(d)
    t = 'Variant' if d['source'] == '*' else PRIM[d['source']]
    w('''// ---- section %s
//@fn %s decode_%s_inner
    ensures
        suffix(final(input)@, old(input)@),
        match %s::dec(old(input)@) {
            Some((v, rest)) => r == Ok::<%s, AmqpParseError>(v) && final(input)@ == rest,
            None => %s::drej(old(input)@) ==> r is Err,
        },
//@end
//@fn %s encoded_size_%s_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures r == 3 + dr.enc().len()
//@end
//@fn %s encode_%s_inner
    requires dr.enc().len() + 3 <= u32::MAX
    ensures final(buf)@ == old(buf)@ + (denc(%d) + dr.enc())
//@start
    proof { lemma_denc(%d, Seq::empty()); }
//@end
''' % (n, D, s, t.replace('<', '::<', 1) if '<' in t else t, t, t.replace('<', '::<', 1) if '<' in t else t, D, s, D, s, c, c))
endmod()
# ---------------------------------------------------------------- provides enums
def provides(p): return [d for d in defs if 'descriptor' in d and p in [x.strip() for x in d.get('provides', '').split(',')]]
for p, n in (('delivery-state', 'DeliveryState'), ('outcome', 'Outcome'), ('section', 'Section'), ('sasl-frame-body', 'SaslFrameBody'), ('frame', 'Frame')):
    opts = provides(p)
    isf = p == 'frame'
    w('// ---- %s' % n)
    mod('m_' + p.replace('-', '_'))
    w('//@item %s %s' % (D, n))
    def optdec(d, src):
        if d['class'] == 'composite': return '%s_idec(%s)' % (snake(d['name']), src)
        t = 'Variant' if d['source'] == '*' else PRIM[d['source']]
        return '%s::dec(%s)' % (t.replace('<', '::<', 1), src)
    def optrej(d, src):
        if d['class'] == 'composite': return '%s_irej(%s)' % (snake(d['name']), src)
        t = 'Variant' if d['source'] == '*' else PRIM[d['source']]
        return '%s::drej(%s)' % (t.replace('<', '::<', 1), src)
    low = p.replace('-', '_')
    w('pub closed spec fn %s_ddec(d: Descriptor, r: Seq<u8>) -> Option<(%s, Seq<u8>)> {' % (low, n))
    for d in opts:
        w('    if desc_is(d, %d, lit!("%s")) { match %s { Some((v, r2)) => Some((%s::%s(v), r2)), None => None } } else' % (code(d), d['descriptor']['name'], optdec(d, 'r'), n, camel(d['name'])))
    w('    { None }\n}')
    w('pub closed spec fn %s_drej(d: Descriptor, r: Seq<u8>) -> bool {' % low)
    for d in opts:
        w('    if desc_is(d, %d, lit!("%s")) { %s } else' % (code(d), d['descriptor']['name'], optrej(d, 'r')))
    w('    { true }\n}')
    facts = ''.join('litf!{%s}; ' % d['descriptor']['name'] for d in opts)
    def optenc(d):
        if d['class'] == 'composite': return '%s_enc(v)' % snake(d['name'])
        return '(denc(%d) + v.enc())' % code(d)
    encarms = ', '.join('%s::%s(v) => %s' % (n, camel(d['name']), optenc(d)) for d in opts) + (', Frame::Empty => Seq::<u8>::empty()' if isf else '')
    if isf:
        w('''//@impl %s "Decode for Frame" hint="%s"
    closed spec fn dec(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() == 0 { Some((Frame::Empty, s)) } else if s[0] != 0 { None } else { match Descriptor::dec(s.skip(1)) { Some((d, r)) => frame_ddec(d, r), None => None } }
    }
    closed spec fn drej(s: Seq<u8>) -> bool {
        s.len() > 0 && (s[0] != 0 || match Descriptor::dec(s.skip(1)) { Some((d, r)) => frame_drej(d, r), None => Descriptor::drej(s.skip(1)) })
    }
//@end''' % (D, facts))
    else:
        w('''//@impl %s "DecodeFormatted for %s" hint="%s"
    closed spec fn sdec(s: Seq<u8>, fmt: u8) -> Option<(Self, Seq<u8>)> {
        if fmt != 0 { None } else { match Descriptor::dec(s) { Some((d, r)) => %s_ddec(d, r), None => None } }
    }
    closed spec fn srej(s: Seq<u8>, fmt: u8) -> bool {
        fmt != 0 || match Descriptor::dec(s) { Some((d, r)) => %s_drej(d, r), None => Descriptor::drej(s) }
    }
//@end''' % (D, n, facts, low, low))
    w('''//@impl %s "Encode for %s" hint="%s"
    closed spec fn enc(&self) -> Seq<u8> { match *self { %s } }
//@end''' % (D, n, ' '.join('lemma_denc(%d, Seq::empty());' % code(d) for d in opts if d['class'] != 'composite'), encarms))
    w('''pub proof fn lemma_%s_enc(x: %s)
    ensures x.enc() == (match x { %s })%s
{ match x { %s } }''' % (low, n, encarms, '' if isf else ', x.wf() == (match x { %s })' % ', '.join('%s::%s(v) => %s' % (n, camel(d['name']), 'v.wf()') for d in opts), ', '.join('%s::%s(v) => { %s }' % (n, camel(d['name']), 'lemma_%s_nn(v)' % snake(d['name']) if d['class'] == 'composite' else '') for d in opts) + (', Frame::Empty => { }' if isf else '')))
    # round trip
    wfarms = ', '.join('%s::%s(v) => %s' % (n, camel(d['name']), '%s_wf(v)' % snake(d['name']) if d['class'] == 'composite' else 'v.wf()') for d in opts) + (', Frame::Empty => true' if isf else '')
    if isf:
        w('''pub closed spec fn frame_wf(v: Frame) -> bool { match v { %s } }
pub proof fn lemma_frame_rt(v: Frame)
    requires frame_wf(v), v.enc().len() <= u32::MAX
    ensures Frame::dec(v.enc()) == Some((v, Seq::<u8>::empty()))
{
    assert(v.enc() + Seq::<u8>::empty() =~= v.enc());
    match v {''' % wfarms)
        for d in opts:
            if d['name'] == 'transfer': w('        Frame::Transfer(x) => { lemma_transfer_nn(x); lemma_transfer_rt(x); }')
            else: w('        Frame::%s(x) => { lemma_%s_nn(x); lemma_%s_rt(x, Seq::empty()); assert(%s_enc(x) + Seq::<u8>::empty() =~= %s_enc(x)); }' % ((camel(d['name']),) + (snake(d['name']),) * 4))
        w('        Frame::Empty => { }\n    }\n}')
    else:
        w('''impl RoundTrip for %s {
    closed spec fn wf(&self) -> bool { match *self { %s } }
    proof fn roundtrip(v: Self, rest: Seq<u8>) {
        match v {''' % (n, wfarms))
        for d in opts:
            if d['class'] == 'composite':
                w('            %s::%s(x) => { lemma_%s_rt(x, rest); }' % (n, camel(d['name']), snake(d['name'])))
            else:
                t = 'Variant' if d['source'] == '*' else PRIM[d['source']]
                w('            %s::%s(x) => { lemma_denc(%d, x.enc() + rest); %s::roundtrip(x, rest); assert((x.enc() + rest)[0] == x.enc()[0]); assert((denc(%d) + x.enc()) + rest =~= denc(%d) + (x.enc() + rest)); }' % (n, camel(d['name']), code(d), t.replace('<', '::<', 1), code(d), code(d)))
        w('        }\n    }\n}\nimpl NotNull for %s { proof fn nn(v: Self) { match v { %s } } }' % (n, ', '.join('%s::%s(x) => %s' % (n, camel(d['name']), ('lemma_%s_nn(x)' % snake(d['name'])) if d['class'] == 'composite' else ('lemma_denc(%d, Seq::empty())' % code(d))) for d in opts)))
    endmod()
open(here + '/../contracts/codec/perf.vx', 'w').write('\n'.join(out) + '\n')
