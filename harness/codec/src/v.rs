//! Reference AMQP 1.0 type system, written from the specification (part 1, types): value tree, strict parser,
//! and an encoder that can pick any of the encodings the specification allows.
use crate::rng::Rng;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null, Bool(bool), U8(u8), U16(u16), U32(u32), U64(u64), I8(i8), I16(i16), I32(i32), I64(i64),
    F32(u32), F64(u64), D32([u8; 4]), D64([u8; 8]), D128([u8; 16]), Char(u32), Ts(i64), Uuid([u8; 16]),
    Bin(Vec<u8>), Str(Vec<u8>), Sym(Vec<u8>), List(Vec<V>), Map(Vec<(V, V)>),
    /// element descriptor, wide format code of the element type, elements
    Array(Option<Box<V>>, u8, Vec<V>),
    Desc(Box<V>, Box<V>),
    /// a "multiple" field: one bare element or an array
    Multi(u8, Vec<V>),
}
pub fn wide(code: u8) -> Option<u8> {
    Some(match code {
        0x40 => 0x40, 0x56 | 0x41 | 0x42 => 0x56, 0x50 => 0x50, 0x60 => 0x60, 0x70 | 0x52 | 0x43 => 0x70, 0x80 | 0x53 | 0x44 => 0x80,
        0x51 => 0x51, 0x61 => 0x61, 0x71 | 0x54 => 0x71, 0x81 | 0x55 => 0x81, 0x72 => 0x72, 0x82 => 0x82, 0x74 => 0x74, 0x84 => 0x84, 0x94 => 0x94,
        0x73 => 0x73, 0x83 => 0x83, 0x98 => 0x98, 0xa0 | 0xb0 => 0xb0, 0xa1 | 0xb1 => 0xb1, 0xa3 | 0xb3 => 0xb3,
        0x45 | 0xc0 | 0xd0 => 0xd0, 0xc1 | 0xd1 => 0xd1, 0xe0 | 0xf0 => 0xf0, _ => return None,
    })
}
type R<T> = Result<T, String>;
pub struct P<'a> { pub b: &'a [u8], pub i: usize }
impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> P<'a> { P { b, i: 0 } }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.i < n { return Err(format!("truncated at {}", self.i)); }
        let r = &self.b[self.i..self.i + n]; self.i += n; Ok(r)
    }
    fn n(&mut self, n: usize) -> R<u64> { Ok(self.take(n)?.iter().fold(0u64, |a, x| (a << 8) | *x as u64)) }
    pub fn done(&self) -> bool { self.i == self.b.len() }
    pub fn value(&mut self) -> R<V> { let c = self.n(1)? as u8; self.value_fmt(c) }
    fn value_fmt(&mut self, c: u8) -> R<V> {
        Ok(match c {
            0x00 => { let d = self.value()?; let v = self.value()?; V::Desc(Box::new(d), Box::new(v)) }
            0x40 => V::Null, 0x41 => V::Bool(true), 0x42 => V::Bool(false),
            0x56 => match self.n(1)? { 0 => V::Bool(false), 1 => V::Bool(true), x => return Err(format!("bool {x}")) },
            0x50 => V::U8(self.n(1)? as u8), 0x60 => V::U16(self.n(2)? as u16),
            0x70 => V::U32(self.n(4)? as u32), 0x52 => V::U32(self.n(1)? as u32), 0x43 => V::U32(0),
            0x80 => V::U64(self.n(8)?), 0x53 => V::U64(self.n(1)?), 0x44 => V::U64(0),
            0x51 => V::I8(self.n(1)? as u8 as i8), 0x61 => V::I16(self.n(2)? as u16 as i16),
            0x71 => V::I32(self.n(4)? as u32 as i32), 0x54 => V::I32(self.n(1)? as u8 as i8 as i32),
            0x81 => V::I64(self.n(8)? as i64), 0x55 => V::I64(self.n(1)? as u8 as i8 as i64),
            0x72 => V::F32(self.n(4)? as u32), 0x82 => V::F64(self.n(8)?),
            0x74 => V::D32(self.take(4)?.try_into().unwrap()), 0x84 => V::D64(self.take(8)?.try_into().unwrap()), 0x94 => V::D128(self.take(16)?.try_into().unwrap()),
            0x73 => { let c = self.n(4)? as u32; if char::from_u32(c).is_none() { return Err(format!("char {c}")); } V::Char(c) }
            0x83 => V::Ts(self.n(8)? as i64), 0x98 => V::Uuid(self.take(16)?.try_into().unwrap()),
            0xa0 => { let n = self.n(1)? as usize; V::Bin(self.take(n)?.to_vec()) } 0xb0 => { let n = self.n(4)? as usize; V::Bin(self.take(n)?.to_vec()) }
            0xa1 | 0xb1 | 0xa3 | 0xb3 => {
                let n = self.n(if c < 0xb0 { 1 } else { 4 })? as usize; let s = self.take(n)?.to_vec();
                if std::str::from_utf8(&s).is_err() { return Err("utf8".into()); }
                if c & 0xf == 1 { V::Str(s) } else { V::Sym(s) }
            }
            0x45 => V::List(vec![]),
            0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
                let w = if matches!(c, 0xc0 | 0xc1 | 0xe0) { 1 } else { 4 };
                let size = self.n(w)? as usize; let body = self.take(size)?;
                let mut p = P::new(body); let count = p.n(w)? as usize;
                let r = match c & 0xf {
                    _ if c >= 0xe0 => {
                        let mut code = p.n(1)? as u8; let mut d = None;
                        if code == 0 { d = Some(Box::new(p.value()?)); code = p.n(1)? as u8; }
                        let k = wide(code).ok_or(format!("array ctor {code:02x}"))?;
                        let mut v = vec![]; for _ in 0..count { v.push(p.value_fmt(code)?); }
                        V::Array(d, k, v)
                    }
                    0 => { let mut v = vec![]; for _ in 0..count { v.push(p.value()?); } V::List(v) }
                    _ => {
                        if count % 2 != 0 { return Err("odd map".into()); }
                        let mut v = vec![]; for _ in 0..count / 2 { v.push((p.value()?, p.value()?)); } v.sort(); V::Map(v)
                    }
                };
                if !p.done() { return Err(format!("compound size: {} of {} bytes used", p.i, body.len())); }
                r
            }
            _ => return Err(format!("format code {c:02x}")),
        })
    }
}
pub fn parse(b: &[u8]) -> R<V> { let mut p = P::new(b); let v = p.value()?; if p.done() { Ok(v) } else { Err(format!("{} bytes left", b.len() - p.i)) } }
/// value equality; a multiple field matches a bare element or an array
pub fn same(e: &V, g: &V) -> bool {
    match (e, g) {
        (V::Multi(_, v), V::Multi(_, w)) => v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same(a, b)),
        (V::Multi(k, v), V::Array(None, k2, w)) => (v.is_empty() || k == k2) && v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same(a, b)),
        (V::Multi(_, v), g) => v.len() == 1 && same(&v[0], g),
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Map(a), V::Map(b)) => {
            if a.len() != b.len() { return false; }
            let mut a = a.clone(); a.sort(); let mut b = b.clone(); b.sort();
            a.iter().zip(&b).all(|(x, y)| same(&x.0, &y.0) && same(&x.1, &y.1))
        }
        (V::Array(d, k, a), V::Array(d2, k2, b)) => d == d2 && k == k2 && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Desc(a, b), V::Desc(c, d)) => same(a, c) && same_comp(b, d),
        _ => e == g,
    }
}
/// described lists: trailing nulls and omitted fields are the same
fn same_comp(e: &V, g: &V) -> bool { same(e, g) }
/// encode v; with an rng every choice the specification leaves open is random, without one the smallest form is used
pub fn enc(v: &V, r: &mut Option<Rng>) -> Vec<u8> { let mut o = vec![]; put(v, r, &mut o); o }
fn flip(r: &mut Option<Rng>, dflt: bool) -> bool { match r { Some(r) => r.bool(), None => dflt } }
fn var(o: &mut Vec<u8>, r: &mut Option<Rng>, c8: u8, c32: u8, b: &[u8]) {
    if b.len() < 256 && flip(r, true) { o.push(c8); o.push(b.len() as u8); } else { o.push(c32); o.extend((b.len() as u32).to_be_bytes()); }
    o.extend(b);
}
fn compound(o: &mut Vec<u8>, r: &mut Option<Rng>, c8: u8, c32: u8, count: usize, body: &[u8]) {
    if body.len() + 1 < 256 && count < 256 && flip(r, true) { o.push(c8); o.push(body.len() as u8 + 1); o.push(count as u8); }
    else { o.push(c32); o.extend((body.len() as u32 + 4).to_be_bytes()); o.extend((count as u32).to_be_bytes()); }
    o.extend(body);
}
pub fn put(v: &V, r: &mut Option<Rng>, o: &mut Vec<u8>) {
    match v {
        V::Null => o.push(0x40),
        V::Bool(b) => if flip(r, true) { o.push(if *b { 0x41 } else { 0x42 }) } else { o.push(0x56); o.push(*b as u8) },
        V::U8(x) => { o.push(0x50); o.push(*x) }
        V::U16(x) => { o.push(0x60); o.extend(x.to_be_bytes()) }
        V::U32(x) => if *x == 0 && flip(r, true) { o.push(0x43) } else if *x < 256 && flip(r, true) { o.push(0x52); o.push(*x as u8) } else { o.push(0x70); o.extend(x.to_be_bytes()) },
        V::U64(x) => if *x == 0 && flip(r, true) { o.push(0x44) } else if *x < 256 && flip(r, true) { o.push(0x53); o.push(*x as u8) } else { o.push(0x80); o.extend(x.to_be_bytes()) },
        V::I8(x) => { o.push(0x51); o.push(*x as u8) }
        V::I16(x) => { o.push(0x61); o.extend(x.to_be_bytes()) }
        V::I32(x) => if (-128..128).contains(x) && flip(r, true) { o.push(0x54); o.push(*x as i8 as u8) } else { o.push(0x71); o.extend(x.to_be_bytes()) },
        V::I64(x) => if (-128..128).contains(x) && flip(r, true) { o.push(0x55); o.push(*x as i8 as u8) } else { o.push(0x81); o.extend(x.to_be_bytes()) },
        V::F32(x) => { o.push(0x72); o.extend(x.to_be_bytes()) }
        V::F64(x) => { o.push(0x82); o.extend(x.to_be_bytes()) }
        V::D32(x) => { o.push(0x74); o.extend(x) } V::D64(x) => { o.push(0x84); o.extend(x) } V::D128(x) => { o.push(0x94); o.extend(x) }
        V::Char(x) => { o.push(0x73); o.extend(x.to_be_bytes()) }
        V::Ts(x) => { o.push(0x83); o.extend(x.to_be_bytes()) }
        V::Uuid(x) => { o.push(0x98); o.extend(x) }
        V::Bin(b) => var(o, r, 0xa0, 0xb0, b), V::Str(b) => var(o, r, 0xa1, 0xb1, b), V::Sym(b) => var(o, r, 0xa3, 0xb3, b),
        V::List(l) => {
            if l.is_empty() && flip(r, true) { o.push(0x45); return; }
            let mut b = vec![]; for x in l { put(x, r, &mut b); } compound(o, r, 0xc0, 0xd0, l.len(), &b);
        }
        V::Map(m) => { let mut b = vec![]; for (k, x) in m { put(k, r, &mut b); put(x, r, &mut b); } compound(o, r, 0xc1, 0xd1, m.len() * 2, &b); }
        V::Array(d, k, l) => {
            let mut b = vec![];
            if let Some(d) = d { b.push(0); put(d, r, &mut b); }
            // narrow element encodings possible for all elements
            let mut codes = vec![*k];
            match k {
                0x56 => { if !l.is_empty() && l.iter().all(|x| *x == V::Bool(true)) { codes.push(0x41); } if !l.is_empty() && l.iter().all(|x| *x == V::Bool(false)) { codes.push(0x42); } }
                0x70 => { if l.iter().all(|x| matches!(x, V::U32(x) if *x < 256)) { codes.push(0x52); } if l.iter().all(|x| *x == V::U32(0)) { codes.push(0x43); } }
                0x80 => { if l.iter().all(|x| matches!(x, V::U64(x) if *x < 256)) { codes.push(0x53); } if l.iter().all(|x| *x == V::U64(0)) { codes.push(0x44); } }
                0x71 => if l.iter().all(|x| matches!(x, V::I32(x) if (-128..128).contains(x))) { codes.push(0x54); },
                0x81 => if l.iter().all(|x| matches!(x, V::I64(x) if (-128..128).contains(x))) { codes.push(0x55); },
                0xb0 | 0xb1 | 0xb3 => if l.iter().all(|x| matches!(x, V::Bin(s) | V::Str(s) | V::Sym(s) if s.len() < 256)) { codes.push(k - 0x10); },
                _ => (),
            }
            let c = match r { Some(r) => *r.pick(&codes), None => *k };
            b.push(c);
            for x in l { put_as(x, c, r, &mut b); }
            compound(o, r, 0xe0, 0xf0, l.len(), &b);
        }
        V::Desc(d, x) => { o.push(0); put(d, r, o); put(x, r, o); }
        V::Multi(k, l) => if l.len() == 1 && flip(r, true) { put(&l[0], r, o) } else { put(&V::Array(None, *k, l.clone()), r, o) },
    }
}
/// payload of x for constructor c
fn put_as(x: &V, c: u8, r: &mut Option<Rng>, o: &mut Vec<u8>) {
    match (c, x) {
        (0x40, _) | (0x41, _) | (0x42, _) | (0x43, _) | (0x44, _) | (0x45, _) => (),
        (0x56, V::Bool(b)) => o.push(*b as u8), (0x52, V::U32(x)) => o.push(*x as u8), (0x53, V::U64(x)) => o.push(*x as u8),
        (0x54, V::I32(x)) => o.push(*x as u8), (0x55, V::I64(x)) => o.push(*x as u8),
        (0x70, V::U32(x)) => o.extend(x.to_be_bytes()), (0x80, V::U64(x)) => o.extend(x.to_be_bytes()),
        (0x71, V::I32(x)) => o.extend(x.to_be_bytes()), (0x81, V::I64(x)) => o.extend(x.to_be_bytes()),
        (0xa0 | 0xa1 | 0xa3, V::Bin(s) | V::Str(s) | V::Sym(s)) => { o.push(s.len() as u8); o.extend(s) }
        (0xb0 | 0xb1 | 0xb3, V::Bin(s) | V::Str(s) | V::Sym(s)) => { o.extend((s.len() as u32).to_be_bytes()); o.extend(s) }
        (0xd0, V::List(l)) => { let mut b = vec![]; for x in l { put(x, r, &mut b); } o.extend((b.len() as u32 + 4).to_be_bytes()); o.extend((l.len() as u32).to_be_bytes()); o.extend(b); }
        (0xd1, V::Map(l)) => { let mut b = vec![]; for (k, x) in l { put(k, r, &mut b); put(x, r, &mut b); } o.extend((b.len() as u32 + 4).to_be_bytes()); o.extend((2 * l.len() as u32).to_be_bytes()); o.extend(b); }
        _ => { let mut none = None; let b = enc(x, &mut none); assert_eq!(b[0], c); o.extend(&b[1..]); }
    }
}
