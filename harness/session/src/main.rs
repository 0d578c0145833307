//! Native harness: drives the crate's public API (client and server) against a scripted AMQP peer that speaks raw frames,
//! and compares what the endpoint sends and what its operations return with a reference model of the peer (world.rs).
//! hs PROP SEED CASES CURFILE   (worker: prints one JSON object on the last line)
mod rng; mod world; mod nego;
use rng::Rng;
use std::collections::HashSet;
use std::fs::File;
use std::os::unix::fs::FileExt;

pub struct Ctx { pub cases: u64, pub seen: HashSet<u64>, pub samples: Vec<String>, pub fails: Vec<(String, String)>, pub cur: File, pub known: Vec<String> }
impl Ctx {
    pub fn fail(&mut self, what: &str, detail: String) { if self.fails.len() < 20 { self.fails.push((what.to_string(), detail)); } }
    pub fn cur(&self, s: &str) { let _ = self.cur.write_all_at(format!("{s}\n\0").as_bytes(), 0); }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, cases) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    // a panic anywhere (also in a task of the endpoint) ends the process: the driver reports the case in CURFILE
    std::panic::set_hook(Box::new(|i| { eprintln!("panic: {i}"); std::process::exit(101); }));
    let mut c = Ctx { cases: 0, seen: HashSet::new(), samples: vec![], fails: vec![], cur: File::create(&a[4]).unwrap(), known: vec![] };
    let mut r = Rng::new(seed);
    let only: Option<u64> = std::env::var("HS_ONLY").ok().and_then(|x| x.parse().ok());
    let c = ntex::rt::System::build().name("hs").testing().build(ntex::rt::DefaultRuntime).block_on(async move {
        for n in 0..cases {
            let s = r.u64();
            if only.map_or(false, |o| o != n) { continue; }
            let trace = world::run(&mut c, &prop, s, n).await;
            c.cases += 1;
            if trace.len() > 40 {
                let mut h: u64 = 0xcbf2_9ce4_8422_2325; for b in trace.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
                if c.seen.insert(h) && c.samples.len() < 3 { c.samples.push(trace.chars().take(300).collect()); }
            }
            if c.fails.len() >= 3 { break; }
        }
        c
    });
    println!("{{\"cases\":{},\"distinct\":{},\"samples\":[{}],\"known\":[{}],\"fails\":[{}]}}", c.cases, c.seen.len(),
        c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), c.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        c.fails.iter().map(|(w, d)| format!("{{\"what\":{},\"detail\":{}}}", js(w), js(d))).collect::<Vec<_>>().join(","));
}
