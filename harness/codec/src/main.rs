//! Native harness: runs the crate's public API against the reference type system of v.rs.
//! hc PROP SEED CASES CURFILE   (worker: prints one JSON object on the last line)
mod rng; mod v; mod types;
#[macro_use]
mod perf;
mod checks;
use rng::{hex, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use ntex_amqp_codec::Encode;
use ntex_bytes::BytesMut;

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size(), Relaxed) + l.size(); PEAK.fetch_max(n, Relaxed); if l.size() > 1 << 32 { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
/// peak bytes allocated by f above the level before it
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) { let l = LIVE.load(Relaxed); PEAK.store(l, Relaxed); let r = f(); (r, PEAK.load(Relaxed).saturating_sub(l)) }

pub fn encode<T: Encode + ?Sized>(v: &T) -> Vec<u8> { let mut b = BytesMut::new(); v.encode(&mut b); b.to_vec() }

pub struct Ctx { pub cases: u64, pub nontrivial: HashSet<u64>, pub samples: Vec<String>, pub fails: Vec<(String, String)>, pub cur: File, pub known: Vec<String> }
impl Ctx {
    /// note the case about to run; kept in a file so that a crash of the process leaves it behind
    pub fn case(&mut self, what: &str, input: &[u8]) {
        self.cases += 1;
        let s = format!("{what} {}", hex(&input[..input.len().min(4096)]));
        if input.len() > 3 { let mut h: u64 = 0xcbf2_9ce4_8422_2325; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); } self.nontrivial.insert(h); }
        if self.samples.len() < 3 && input.len() > 3 && input.len() < 60 { self.samples.push(s.clone()); }
        let _ = self.cur.write_all_at(format!("{:<8}{s}\n\0", s.len()).as_bytes(), 0);
    }
    pub fn fail(&mut self, what: &str, detail: String) { if self.fails.len() < 20 { self.fails.push((what.to_string(), detail)); } }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, cases) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    let mut c = Ctx { cases: 0, nontrivial: HashSet::new(), samples: vec![], fails: vec![], cur: File::create(&a[4]).unwrap(), known: vec![] };
    let f = checks::get(prop);
    let mut r = Rng::new(seed);
    // small stack: recursion without a bound must not go unnoticed
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || {
            for n in 0..cases {
                let before = r.clone().u64(); r.budget();
                let res = catch_unwind(AssertUnwindSafe(|| f(&mut c, &mut r, n)));
                if let Err(e) = res {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let mut b = vec![0; 9000]; let k = c.cur.read_at(&mut b, 0).unwrap_or(0);
                    let last = String::from_utf8_lossy(&b[..k]).split('\n').next().unwrap_or("").to_string();
                    c.fail("panic", format!("panic: {m}; case {n} rng {before:x}; last input: {last}"));
                }
                if c.fails.len() >= 3 { break; }
            }
        }).unwrap().join().unwrap();
    });
    println!("{{\"cases\":{},\"distinct\":{},\"samples\":[{}],\"known\":[{}],\"fails\":[{}]}}", c.cases, c.nontrivial.len(),
        c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), c.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        c.fails.iter().map(|(w, d)| format!("{{\"what\":{},\"detail\":{}}}", js(w), js(d))).collect::<Vec<_>>().join(","));
}
