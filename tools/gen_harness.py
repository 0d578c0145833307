#!/usr/bin/env python3
"""Generate harness/codec/src/perf.rs from the AMQP 1.0 field tables (tools/amqp_types.json)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.argv = ['x']
src = open(here + '/gen_perf.py').read().split('out = []')[0].replace('__file__', repr(here + '/gen_perf.py'))
exec(src)
o = []
for e in defs:
    if 'choice' not in e: continue
    n = camel(e['name']); ch = e['choice']
    o.append('impl Gen for %s {' % n)
    o.append('    fn arb(r: &mut Rng) -> Self { *r.pick(&[%s]) }' % ', '.join('%s::%s' % (n, camel(c['name'])) for c in ch) if e['source'] != 'symbol' else
             '    fn arb(r: &mut Rng) -> Self { r.pick(&[%s]).clone() }' % ', '.join('%s::%s' % (n, camel(c['name'])) for c in ch))
    k = {'boolean': 'Bool', 'ubyte': 'U8', 'uint': 'U32', 'symbol': 'Sym'}[e['source']]
    val = (lambda v: 'b"%s".to_vec()' % v) if k == 'Sym' else (lambda v: v)
    o.append('    fn ast(&self) -> V { match self { %s } }' % ', '.join('%s::%s => V::%s(%s)' % (n, camel(c['name']), k, val(c['value'])) for c in ch))
    o.append('}')
def rtype(f):
    t = ftype(f)
    return t.replace('HashMap<', 'Map<')
for c in [d for d in defs if d['class'] == 'composite']:
    n = camel(c['name']); boxed = c['name'] in BOXED
    code = int(c['descriptor']['code'].split(':')[1], 16)
    flds = c.get('field', [])
    names = [snake(f['name']) for f in flds]
    o.append('impl Gen for %s {' % n)
    init = []
    for f in flds:
        t = rtype(f)
        if f.get('mandatory') == 'true': ex = '<%s>::arb(r)' % t
        elif 'default' in f: ex = 'if r.bool() { %s } else { <%s>::arb(r) }' % (dflt(f), t)
        else: ex = '<Option<%s>>::arb(r)' % t
        init.append('%s: %s' % (snake(f['name']), ex))
    if c['name'] == 'transfer': init.append('body: body(r)')
    lit = '%s { %s }' % (n + ('Inner' if boxed else ''), ', '.join(init))
    if boxed: lit = '%s(Box::new(%s))' % (n, lit)
    o.append('    fn arb(r: &mut Rng) -> Self { %s }' % lit)
    o.append('    fn ast(&self) -> V { comp_ast(self) }\n}')
    o.append('impl Comp for %s {\n    const CODE: u64 = 0x%x;\n    const NAME: &\'static str = "%s";' % (n, code, c['descriptor']['name']))
    p = 'self.0.' if boxed else 'self.'
    fl = []
    for f in flds:
        m = 'true' if f.get('mandatory') == 'true' else 'false'
        d = 'Some((%s).ast())' % dflt(f) if 'default' in f and m == 'false' else 'None'
        fl.append('Fld { v: %s%s.ast(), def: %s, mand: %s }' % (p, snake(f['name']), d, m))
    o.append('    fn fields(&self) -> Vec<Fld> { vec![%s] }' % ',\n        '.join(fl))
    if c['name'] == 'transfer': o.append('    fn tail(&self) -> Vec<u8> { match &self.0.body { Some(TransferBody::Data(b)) => b.to_vec(), Some(TransferBody::Message(m)) => crate::encode(m), None => vec![] } }')
    o.append('}')
comps = [camel(d['name']) for d in defs if d['class'] == 'composite']
o.append('/// call $m!(Type) for every composite type\n\nmacro_rules! each_comp { ($m:ident, $n:expr) => { match $n { %s, _ => unreachable!() } } }\npub const NCOMP: usize = %d;' % (', '.join('%d => $m!(%s)' % (i, n) for i, n in enumerate(comps)), len(comps)))
open(here + '/../harness/codec/src/perf.rs', 'w').write('''// GENERATED by tools/gen_harness.py from tools/amqp_types.json. Do not edit.
#![allow(unused_variables)]
use crate::{rng::Rng, types::*, types::Map, v::V};
use chrono::{DateTime, Utc};
use ntex_amqp_codec::{protocol::*, types::*};
use ntex_bytes::{ByteString, Bytes};
fn body(r: &mut Rng) -> Option<TransferBody> { match r.below(3) { 0 => None, _ => { let b = Bytes::arb(r); if b.is_empty() { None } else { Some(TransferBody::Data(b)) } } } }
''' + '\n'.join(o) + '\n')
