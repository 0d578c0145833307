//! template parsing
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub contract: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub preloop: BTreeMap<usize, String>,
    pub postloop: BTreeMap<usize, String>,
    pub start: Option<String>,
    pub finish: Option<String>,
    /// (before?, pattern, text)
    pub inserts: Vec<(bool, String, String)>,
}

#[derive(Default, Debug, Clone)]
pub struct Opts(pub BTreeMap<String, String>);

impl Opts {
    pub fn get(&self, k: &str) -> Option<&String> {
        self.0.get(k)
    }
    pub fn subst(&self) -> BTreeMap<String, String> {
        self.0.iter().filter_map(|(k, v)| k.strip_prefix('$').map(|k| (k.to_string(), v.clone()))).collect()
    }
    pub fn merged(&self, o: &Opts) -> Opts {
        let mut m = self.0.clone();
        for k in ["key", "header", "inherent"] {
            m.remove(k);
        }
        for (k, v) in &o.0 {
            m.insert(k.clone(), v.clone());
        }
        Opts(m)
    }
    fn parse(words: &[String]) -> Opts {
        let mut m = BTreeMap::new();
        for w in words {
            match w.split_once('=') {
                Some((a, b)) => m.insert(a.to_string(), b.to_string()),
                None => m.insert(w.to_string(), String::new()),
            };
        }
        Opts(m)
    }
}

pub enum Seg {
    Raw(String),
    Props(String),
    Conf(String, String),
    Item { file: String, name: String, opts: Opts },
    Fn { file: String, name: String, opts: Opts, spec: FnSpec },
    Impl { file: String, header: String, opts: Opts, methods: Vec<(String, Opts, FnSpec)>, extra: String },
}

/// split on whitespace; "..." groups (also after `=`), quotes removed
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut q = false;
    let mut has = false;
    for c in s.chars() {
        match c {
            '"' => {
                q = !q;
                has = true;
            }
            c if c.is_whitespace() && !q => {
                if has || !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                    has = false;
                }
            }
            c => cur.push(c),
        }
    }
    if has || !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub fn include(text: &str, dir: &std::path::Path) -> String {
    let mut out = String::new();
    for l in text.lines() {
        if let Some(r) = l.trim_start().strip_prefix("//@include ") {
            let t = std::fs::read_to_string(dir.join(r.trim())).unwrap_or_else(|e| panic!("include {}: {}", r, e));
            out.push_str(&include(&t, dir));
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

#[derive(Clone, PartialEq)]
enum Sec {
    Contract,
    Attrs,
    Loop(usize),
    LoopStart(usize),
    LoopEnd(usize),
    PreLoop(usize),
    PostLoop(usize),
    Start,
    Finish,
    Ins(bool, String),
    Extra,
}

fn flush(sec: &Sec, buf: &mut String, spec: &mut FnSpec, extra: &mut String) {
    let t = std::mem::take(buf);
    match sec {
        Sec::Contract => spec.contract.push_str(&t),
        Sec::Attrs => spec.attrs.push_str(&t),
        Sec::Loop(n) => {
            spec.loops.insert(*n, t);
        }
        Sec::LoopStart(n) => {
            spec.loopstart.insert(*n, t);
        }
        Sec::LoopEnd(n) => {
            spec.loopend.insert(*n, t);
        }
        Sec::PreLoop(n) => {
            spec.preloop.insert(*n, t);
        }
        Sec::PostLoop(n) => {
            spec.postloop.insert(*n, t);
        }
        Sec::Start => spec.start = Some(t),
        Sec::Finish => spec.finish = Some(t),
        Sec::Ins(b, p) => spec.inserts.push((*b, p.chars().filter(|c| !c.is_whitespace()).collect(), t)),
        Sec::Extra => extra.push_str(&t),
    }
}

pub fn parse(text: &str) -> Vec<Seg> {
    let mut out = vec![];
    let mut raw = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        let Some(d) = t.strip_prefix("//@") else {
            raw.push_str(l);
            raw.push('\n');
            continue;
        };
        let w = words(d);
        if w.is_empty() {
            continue;
        }
        if !raw.is_empty() {
            out.push(Seg::Raw(std::mem::take(&mut raw)));
        }
        match w[0].as_str() {
            "props" => out.push(Seg::Props(w[1..].join(" "))),
            "macros" | "constfn" | "optfn" | "stripmod" | "dropcall" | "renamepath" | "renamemethod" => out.push(Seg::Conf(w[0].clone(), w[1..].join(" "))),
            "item" => out.push(Seg::Item { file: w[1].clone(), name: w[2].clone(), opts: Opts::parse(&w[3..]) }),
            "fn" | "impl" => {
                let is_impl = w[0] == "impl";
                let opts = Opts::parse(&w[3..]);
                let mut spec = FnSpec::default();
                let mut methods: Vec<(String, Opts, FnSpec)> = vec![];
                let mut cur_m: Option<(String, Opts)> = None;
                let mut extra = String::new();
                let mut sec = if is_impl { Sec::Extra } else { Sec::Contract };
                let mut buf = String::new();
                loop {
                    let l = lines.next().unwrap_or_else(|| panic!("unterminated directive {}", d));
                    let t = l.trim_start();
                    if let Some(d) = t.strip_prefix("//@") {
                        flush(&sec, &mut buf, &mut spec, &mut extra);
                        let w = words(d);
                        match w[0].as_str() {
                            "end" => {
                                if let Some((m, o)) = cur_m.take() {
                                    methods.push((m, o, std::mem::take(&mut spec)));
                                }
                                break;
                            }
                            "method" => {
                                if let Some((m, o)) = cur_m.take() {
                                    methods.push((m, o, std::mem::take(&mut spec)));
                                }
                                spec = FnSpec::default();
                                cur_m = Some((w[1].clone(), Opts::parse(&w[2..])));
                                sec = Sec::Contract;
                            }
                            "attrs" => sec = Sec::Attrs,
                            "loop" => sec = Sec::Loop(w[1].parse().unwrap()),
                            "loopstart" => sec = Sec::LoopStart(w[1].parse().unwrap()),
                            "loopend" => sec = Sec::LoopEnd(w[1].parse().unwrap()),
                            "postloop" => sec = Sec::PostLoop(w[1].parse().unwrap()),
                            "preloop" => sec = Sec::PreLoop(w[1].parse().unwrap()),
                            "start" => sec = Sec::Start,
                            "finish" => sec = Sec::Finish,
                            "before" => sec = Sec::Ins(true, w[1..].join(" ")),
                            "after" => sec = Sec::Ins(false, w[1..].join(" ")),
                            "extra" => sec = Sec::Extra,
                            x => panic!("unknown section {}", x),
                        }
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                if is_impl {
                    out.push(Seg::Impl { file: w[1].clone(), header: w[2].clone(), opts, methods, extra });
                } else {
                    out.push(Seg::Fn { file: w[1].clone(), name: w[2].clone(), opts, spec });
                }
            }
            x => panic!("unknown directive {}", x),
        }
    }
    if !raw.is_empty() {
        out.push(Seg::Raw(raw));
    }
    out
}
