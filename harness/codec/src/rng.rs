//! splitmix64, boundary-biased generators
#[derive(Clone)]
pub struct Rng(pub u64);
thread_local! { static ITEMS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; static BYTES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl Rng {
    /// size of the values generated for one case
    pub fn budget(&mut self) { let big = self.chance(1, 200); ITEMS.with(|x| x.set(if big { 1500 } else { 400 })); BYTES.with(|x| x.set(if big { 200_000 } else { 3000 })); }
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    /// integers near powers of two and sign/width boundaries
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => self.u64(),
            1 => self.below(4) as u64,
            2 => self.below(300) as u64,
            3 => (0u64).wrapping_sub(self.below(300) as u64),
            4 => self.u64() & 0xffff_ffff,
            5 => self.u64() & 0xffff,
            _ => { let sh = self.below(65); let b = if sh == 64 { 0 } else { 1u64 << sh }; b.wrapping_add(self.below(5) as u64).wrapping_sub(2) }
        }
    }
    /// lengths near the 255/256 boundary
    pub fn len(&mut self) -> usize {
        let n = self.len_();
        BYTES.with(|b| { let n = if n > b.get() { n.min(5) } else { n }; b.set(b.get().saturating_sub(n)); n })
    }
    fn len_(&mut self) -> usize {
        match self.below(24) {
            0 => 0, 1 => 1, 2 => 254, 3 => 255, 4 => 256, 5 => 257, 6 => 250 + self.below(12), 7 => 100 + self.below(400),
            8 => if self.chance(1, 40) { 65_530 + self.below(10) } else { 300 },
            _ => self.below(12),
        }
    }
    pub fn count(&mut self) -> usize {
        let n = self.count_();
        ITEMS.with(|b| { let n = if n > b.get() { n.min(2) } else { n }; b.set(b.get().saturating_sub(n)); n })
    }
    fn count_(&mut self) -> usize { match self.below(40) { 0 => 255, 1 => 256, 2 => 254 + self.below(6), 3 => 60 + self.below(80), 4 => 20, _ => self.below(5) } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    pub fn ch(&mut self) -> char {
        loop {
            let c = match self.below(6) { 0 => self.below(0x80), 1 => self.below(0x800), 2 => self.below(0x10000), 3 => self.below(0x110000), _ => 0x61 + self.below(26) };
            if let Some(c) = char::from_u32(c as u32) { return c; }
        }
    }
    /// valid UTF-8 with exactly n bytes
    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n { let c = self.ch(); if s.len() + c.len_utf8() <= n { s.push(c); } else { s.push('x'); } }
        s
    }
    pub fn str(&mut self) -> String { let n = self.len(); self.text(n) }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
