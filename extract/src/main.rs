//! vx: mechanical extraction of Rust items from the repository into one Verus file.
//!
//! usage: vx REPO TEMPLATE OUT.rs REPORT.json
//!
//! The template is Verus text with `//@` directives; every directive pulls the CURRENT text of an
//! item from the repository, normalises it (see norm.rs; the list of rewrites is printed in the
//! report and documented in DESIGN.md) and attaches the contract / invariants given in the
//! template.  Executable code is never taken from the template.
mod norm;
mod template;

use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use template::*;

pub struct Src {
    pub path: String,
    pub file: syn::File,
}

#[derive(Default)]
pub struct Ctx {
    pub macros: HashMap<String, norm::SimpleMacro>,
    pub opt_fns: std::collections::HashSet<String>,
    pub drop_calls: Vec<String>,
    pub rename_paths: Vec<(String, String)>,
    pub rename_methods: Vec<(String, String)>,
    pub const_fns: std::collections::HashSet<String>,
    pub strip_mods: std::collections::HashSet<String>,
    /// functions emitted as external (contract assumed): out of reach on this tree
    pub stubs: std::collections::HashSet<String>,
    /// vacuity probe: "", "start" or "end"
    pub probe: String,
    pub rewrites: std::cell::RefCell<BTreeMap<String, usize>>,
}

#[derive(Debug)]
struct Rep {
    key: String,
    file: String,
    line: usize,
    start: usize,
    end: usize,
    props: String,
}

fn norm_ws(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for it in items {
        if let syn::Item::Mod(m) = it {
            let is_test = m.attrs.iter().any(|a| norm_ws(&a.to_token_stream().to_string()).contains("cfg(test)"));
            if is_test {
                continue;
            }
            if let Some((_, its)) = &m.content {
                all_items(its, out);
            }
        } else {
            out.push(it);
        }
    }
}

fn impl_header(i: &syn::ItemImpl) -> String {
    let ty = norm_ws(&i.self_ty.to_token_stream().to_string());
    match &i.trait_ {
        Some((_, p, _)) => format!("{}for{}", norm_ws(&p.to_token_stream().to_string()), ty),
        None => ty,
    }
}

fn item_name(it: &syn::Item) -> Option<String> {
    Some(match it {
        syn::Item::Struct(s) => s.ident.to_string(),
        syn::Item::Enum(s) => s.ident.to_string(),
        syn::Item::Const(s) => s.ident.to_string(),
        syn::Item::Type(s) => s.ident.to_string(),
        syn::Item::Trait(s) => s.ident.to_string(),
        _ => return None,
    })
}

fn line_of<T: syn::spanned::Spanned>(t: &T) -> usize {
    t.span().start().line
}

/// print a block through prettyplease, returning text starting with `{` and ending with `}`
fn print_block(b: &syn::Block) -> String {
    let f: syn::File = syn::File {
        shebang: None,
        attrs: vec![],
        items: vec![syn::Item::Fn(syn::ItemFn {
            attrs: vec![],
            vis: syn::Visibility::Inherited,
            sig: syn::parse_quote!(fn __x()),
            block: Box::new(b.clone()),
        })],
    };
    let s = prettyplease::unparse(&f);
    let i = s.find('{').unwrap();
    s[i..].trim_end().to_string()
}

fn fill_markers(mut text: String, c: &FnSpec, miss: &mut Vec<String>) -> String {
    // loop invariants:  `{ <ws> __vxinv!(N);`
    for (n, inv) in &c.loops {
        let m = format!("__vxinv!({});", n);
        if let Some(p) = text.find(&m) {
            let brace = text[..p].rfind('{').unwrap();
            let rest = text[p + m.len()..].to_string();
            text = format!("{}\n{}\n{{{}", &text[..brace].trim_end(), inv, rest);
        } else {
            miss.push(format!("loop {}", n));
        }
    }
    let re = |text: String, m: String, rep: &str| -> String { text.replace(&m, rep) };
    for (n, t) in &c.loopstart {
        text = re(text, format!("__vxls!({});", n), t);
    }
    for (n, t) in &c.preloop {
        text = re(text, format!("__vxpre!({});", n), t);
    }
    for (n, t) in &c.postloop {
        text = re(text, format!("__vxpost!({});", n), t);
    }
    for (n, t) in &c.loopend {
        text = re(text, format!("__vxle!({});", n), t);
    }
    text = text.replace("__vxstart!();", c.start.as_deref().unwrap_or(""));
    text = text.replace("__vxfinish!();", c.finish.as_deref().unwrap_or(""));
    for (i, (_, _, t)) in c.inserts.iter().enumerate() {
        let m = format!("__vxins!({});", i);
        if !text.contains(&m) {
            miss.push(format!("insert {}", i));
        }
        text = text.replace(&m, t);
    }
    // drop unused markers
    let mut out = String::new();
    let mut rest = text.as_str();
    loop {
        let mut best: Option<usize> = None;
        for k in ["__vxinv!(", "__vxls!(", "__vxle!(", "__vxpre!(", "__vxpost!("] {
            if let Some(p) = rest.find(k) {
                best = Some(best.map_or(p, |b: usize| b.min(p)));
            }
        }
        match best {
            None => {
                out.push_str(rest);
                break;
            }
            Some(p) => {
                out.push_str(&rest[..p]);
                let e = rest[p..].find(';').unwrap();
                rest = &rest[p + e + 1..];
            }
        }
    }
    out
}

/// emit one function (free or method). returns text
fn emit_fn(
    ctx: &Ctx,
    vis: &str,
    sig: &syn::Signature,
    block: &syn::Block,
    spec: &FnSpec,
    opts: &Opts,
    errs: &mut Vec<String>,
    key: &str,
) -> String {
    let mut block = block.clone();
    let mut sig = sig.clone();
    let subst = opts.subst();
    norm::strip_attrs_sig(&mut sig);
    if let Some(n) = opts.get("as") {
        sig.ident = syn::Ident::new(n, sig.ident.span());
    }
    norm::subst_types_sig(&mut sig, &subst);
    norm::flatten_sig(ctx, &mut sig);
    let is_async = sig.asyncness.take().is_some();
    norm::mut_self(ctx, &mut sig, &mut block);
    let stub = ctx.stubs.contains(key);
    let body = if stub {
        "{ unimplemented!() }".to_string()
    } else {
        norm::cell_prep(ctx, &mut block, opts);
        norm::mut_params(&mut sig, &block);
        norm::normalise(ctx, &mut block, &subst, opts, is_async);
        norm::mark(&mut block, spec, norm::returns_unit(&sig));
        let mut body = print_block(&block);
        if let Some(h) = opts.get("hint") {
            body = format!("{{\n    proof {{ {} }}{}", h, &body[1..]);
        }
        if ctx.probe == "start" {
            body = format!("{{ proof {{ assert(false); }} {}", &body[1..]);
        } else if ctx.probe == "end" {
            body = format!("{{ let __vxr = {}; proof {{ assert(false); }} __vxr }}", body);
        }
        let mut miss = vec![];
        let body = fill_markers(body, spec, &mut miss);
        for m in miss {
            errs.push(format!("{}: missing anchor: {}", key, m));
        }
        body
    };
    let mut gen = sig.generics.clone();
    norm::trim_generics(&mut gen, opts, &subst);
    let wh = gen.where_clause.take();
    let name = &sig.ident;
    let inputs = &sig.inputs;
    let mut s = String::new();
    let c = if sig.constness.is_some() && opts.get("keepconst").is_some() { "const " } else { "" };
    if stub {
        s.push_str("#[verifier::external_body]\n");
    } else if !spec.attrs.is_empty() {
        let _ = writeln!(s, "{}", spec.attrs);
    }
    let mut params: Vec<String> = vec![];
    for i in inputs.iter() {
        params.push(norm::tok(i));
    }
    if opts.get("cellmut").is_some() && !params.is_empty() && params[0].replace(' ', "") == "&self" {
        params[0] = "&mut self".to_string();
        *ctx.rewrites.borrow_mut().entry("cell: &self -> &mut self".to_string()).or_default() += 1;
    }
    let mut body = body;
    if opts.get("mutself").is_some() && !params.is_empty() && (params[0] == "self" || params[0] == "mut self") {
        // `mut self` is outside the verifier's subset: rebind
        params[0] = "self".to_string();
        let mut o = String::new();
        let mut w = String::new();
        for c in body.chars().chain(std::iter::once(' ')) {
            if c.is_alphanumeric() || c == '_' {
                w.push(c);
            } else {
                o.push_str(if w == "self" { "slf_" } else { &w });
                w.clear();
                o.push(c);
            }
        }
        body = format!("{{ let mut slf_ = self; {} }}", o.trim());
        *ctx.rewrites.borrow_mut().entry("mut self -> rebinding".to_string()).or_default() += 1;
    }
    for (i, p) in params.iter_mut().enumerate() {
        if p.replace(' ', "").starts_with("_:") {
            *p = format!("__p{i}{}", p.trim_start_matches('_'));
        }
    }
    if let Some(x) = opts.get("mutparam") {
        for p in params.iter_mut() {
            if let Some(t) = p.replace(" :", ":").trim_start_matches("mut ").strip_prefix(&format!("{x}:")) {
                *p = format!("{x}: &mut {t}");
                *ctx.rewrites.borrow_mut().entry("cell parameter -> &mut".to_string()).or_default() += 1;
            }
        }
    }
    if let Some(x) = opts.get("addparam") {
        params.push(x.to_string());
    }
    let _ = write!(s, "{}{}fn {}{}({})", vis, c, name, norm::tok(&gen), params.join(", "));
    let retname = opts.get("ret").map(|s| s.as_str()).unwrap_or("r");
    match &sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, t) => {
            let mut t = norm::tok(t);
            if let Some(x) = opts.get("rettype") {
                t = x.to_string();
            }
            let _ = write!(s, " -> ({}: {})", retname, t);
        }
    }
    if let Some(w) = wh {
        let _ = write!(s, " {} ", norm::tok(&w));
    }
    s.push('\n');
    if !spec.contract.trim().is_empty() {
        s.push_str(&spec.contract);
        s.push('\n');
    }
    s.push_str(&body);
    s.push('\n');
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, tmpl, out, report) = (&a[1], &a[2], &a[3], &a[4]);
    let text = std::fs::read_to_string(tmpl).expect("template");
    let text = template::include(&text, std::path::Path::new(tmpl).parent().unwrap());
    let segs = template::parse(&text);
    let mut srcs: HashMap<String, Src> = HashMap::new();
    let mut errs: Vec<String> = vec![];
    let mut reps: Vec<Rep> = vec![];
    let mut ctx = Ctx::default();
    for m in [
        "codec", "framing", "protocol", "types", "crate", "error", "message", "self", "super", "std", "core",
        "collections", "mem", "cmp", "ntex_bytes", "oneshot_", "body",
    ] {
        ctx.strip_mods.insert(m.to_string());
    }
    let mut i = 5;
    while i + 1 < a.len() {
        if a[i] == "--stub" {
            ctx.stubs.insert(a[i + 1].clone());
        }
        if a[i] == "--probe" {
            ctx.probe = a[i + 1].clone();
        }
        i += 2;
    }
    let mut outtxt = String::new();
    let mut load = |f: &str, srcs: &mut HashMap<String, Src>| -> Result<(), String> {
        if !srcs.contains_key(f) {
            let p = format!("{}/{}", repo, f);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
            let file = syn::parse_file(&t).map_err(|e| format!("{}: {}", p, e))?;
            srcs.insert(f.to_string(), Src { path: f.to_string(), file });
        }
        Ok(())
    };
    let mut cur_props = String::new();
    for seg in &segs {
        match seg {
            Seg::Raw(t) => outtxt.push_str(t),
            Seg::Props(p) => cur_props = p.clone(),
            Seg::Conf(k, v) => match k.as_str() {
                "macros" => {
                    if let Err(e) = load(v, &mut srcs) {
                        errs.push(e);
                        continue;
                    }
                    let mut its = vec![];
                    all_items(&srcs[v.as_str()].file.items, &mut its);
                    for it in its {
                        if let syn::Item::Macro(m) = it {
                            if let Some(id) = &m.ident {
                                if let Some(sm) = norm::SimpleMacro::parse(m.mac.tokens.clone()) {
                                    ctx.macros.insert(id.to_string(), sm);
                                }
                            }
                        }
                    }
                }
                "optfn" => {
                    for w in v.split_whitespace() {
                        ctx.opt_fns.insert(w.to_string());
                    }
                }
                "constfn" => {
                    for w in v.split_whitespace() {
                        ctx.const_fns.insert(w.to_string());
                    }
                }
                "stripmod" => {
                    for w in v.split_whitespace() {
                        ctx.strip_mods.insert(w.to_string());
                    }
                }
                "dropcall" => {
                    for w in v.split_whitespace() {
                        ctx.drop_calls.push(w.to_string());
                    }
                }
                "renamemethod" => {
                    let mut w = v.split_whitespace();
                    let a = w.next().unwrap().to_string();
                    let b = w.next().unwrap().to_string();
                    ctx.rename_methods.push((a, b));
                }
                "renamepath" => {
                    let mut w = v.split_whitespace();
                    let a = w.next().unwrap().to_string();
                    let b = w.next().unwrap().to_string();
                    ctx.rename_paths.push((a, b));
                }
                _ => errs.push(format!("unknown conf {}", k)),
            },
            Seg::Item { file, name, opts } => {
                if let Err(e) = load(file, &mut srcs) {
                    errs.push(e);
                    continue;
                }
                let mut its = vec![];
                all_items(&srcs[file.as_str()].file.items, &mut its);
                let found = its.iter().find(|i| item_name(i).as_deref() == Some(name.as_str()));
                match found {
                    None => errs.push(format!("{}::{}: lost anchor", file, name)),
                    Some(it) => {
                        let t = norm::item_text(&ctx, it, opts);
                        let start = outtxt.matches('\n').count() + 1;
                        outtxt.push_str(&t);
                        outtxt.push('\n');
                        let end = outtxt.matches('\n').count() + 1;
                        reps.push(Rep { key: format!("item {}", name), file: file.clone(), line: line_of(*it), start, end, props: cur_props.clone() });
                    }
                }
            }
            Seg::Fn { file, name, opts, spec } => {
                if let Err(e) = load(file, &mut srcs) {
                    errs.push(e);
                    continue;
                }
                let mut its = vec![];
                all_items(&srcs[file.as_str()].file.items, &mut its);
                let found = its.iter().find_map(|i| match i {
                    syn::Item::Fn(f) if f.sig.ident == name.as_str() => Some(f),
                    _ => None,
                });
                match found {
                    None => errs.push(format!("{}::{}: lost anchor", file, name)),
                    Some(f) => {
                        let key = opts.get("as").map(|s| s.to_string()).unwrap_or(name.clone());
                        let t = emit_fn(&ctx, "pub ", &f.sig, &f.block, spec, opts, &mut errs, &key);
                        let start = outtxt.matches('\n').count() + 1;
                        outtxt.push_str(&t);
                        let end = outtxt.matches('\n').count() + 1;
                        reps.push(Rep { key, file: file.clone(), line: line_of(f), start, end, props: cur_props.clone() });
                    }
                }
            }
            Seg::Impl { file, header, opts, methods, extra } => {
                if let Err(e) = load(file, &mut srcs) {
                    errs.push(e);
                    continue;
                }
                let mut its = vec![];
                all_items(&srcs[file.as_str()].file.items, &mut its);
                let want = norm_ws(header);
                // several inherent impls may have the same header: merge
                let found: Vec<&syn::ItemImpl> = its
                    .iter()
                    .filter_map(|i| match i {
                        syn::Item::Impl(im) if impl_header(im) == want => Some(im),
                        _ => None,
                    })
                    .collect();
                if found.is_empty() {
                    errs.push(format!("{}::impl {}: lost anchor", file, header));
                    continue;
                }
                let is_trait = found[0].trait_.is_some();
                let inherent = opts.get("inherent").is_some();
                let subst = opts.subst();
                let mut gen = found[0].generics.clone();
                norm::trim_generics(&mut gen, opts, &subst);
                let wh = gen.where_clause.take();
                let mut self_ty = (*found[0].self_ty).clone();
                norm::subst_type(&mut self_ty, &subst);
                norm::flatten_type(&ctx, &mut self_ty);
                let hdr = if let Some(h) = opts.get("header") {
                    h.to_string()
                } else if is_trait && !inherent {
                    format!("impl{} {} for {} {}", norm::tok(&gen), norm::tok(&found[0].trait_.as_ref().unwrap().1), norm::tok(&self_ty), wh.map(|w| norm::tok(&w)).unwrap_or_default())
                } else {
                    format!("impl{} {} {}", norm::tok(&gen), norm::tok(&self_ty), wh.map(|w| norm::tok(&w)).unwrap_or_default())
                };
                let _ = writeln!(outtxt, "{} {{", hdr);
                outtxt.push_str(extra);
                outtxt.push('\n');
                let mut seen = std::collections::HashSet::new();
                for im in &found {
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                let n = f.sig.ident.to_string();
                                // async blocks of the method, lifted: the block's body is the function's body, what it
                                // captures are the parameters (signature given by the template)
                                for (_, mo, sp) in methods.iter().filter(|m| m.0 == n && m.1.get("asyncbody").is_some()) {
                                    seen.insert(n.clone());
                                    let mo = opts.merged(mo);
                                    let k: usize = mo.get("asyncbody").unwrap().parse().expect("asyncbody");
                                    let sg: syn::Signature = syn::parse_str(mo.get("sig").expect("asyncbody without sig")).expect("sig");
                                    let key = format!("{}::{} async block {}", opts.get("key").map(|s| s.as_str()).unwrap_or(header), n, k);
                                    let Some(b) = norm::async_block(&f.block, k) else {
                                        errs.push(format!("{}: no such async block", key));
                                        continue;
                                    };
                                    *ctx.rewrites.borrow_mut().entry("async block -> function of what it captures".to_string()).or_default() += 1;
                                    let t = emit_fn(&ctx, "pub ", &sg, &b, sp, &mo, &mut errs, &key);
                                    let start = outtxt.matches('\n').count() + 1;
                                    outtxt.push_str(&t);
                                    let end = outtxt.matches('\n').count() + 1;
                                    reps.push(Rep { key, file: file.clone(), line: line_of(f), start, end, props: cur_props.clone() });
                                }
                                let ms = methods.iter().find(|m| m.0 == n && m.1.get("asyncbody").is_none());
                                if ms.is_none() && (!is_trait || opts.get("only").is_some()) {
                                    continue;
                                }
                                seen.insert(n.clone());
                                let def = (String::new(), Opts::default(), FnSpec::default());
                                let (_, mo, sp) = ms.unwrap_or(&def);
                                let mo = opts.merged(mo);
                                let key = format!("{}::{}", opts.get("key").map(|s| s.as_str()).unwrap_or(header), n);
                                let mut f = f.clone();
                                if inherent {
                                    norm::AssocTypes::of(im).apply(&mut f);
                                }
                                let f = &f;
                                let vis = if is_trait && !inherent { "" } else { "pub " };
                                let t = emit_fn(&ctx, vis, &f.sig, &f.block, sp, &mo, &mut errs, &key);
                                let start = outtxt.matches('\n').count() + 1;
                                outtxt.push_str(&t);
                                let end = outtxt.matches('\n').count() + 1;
                                reps.push(Rep { key, file: file.clone(), line: line_of(f), start, end, props: cur_props.clone() });
                            }
                            syn::ImplItem::Const(c) => {
                                let ms = methods.iter().find(|m| m.0 == c.ident.to_string());
                                if inherent || (!is_trait && ms.is_none()) {
                                    continue;
                                }
                                seen.insert(c.ident.to_string());
                                let con = ms.map(|m| m.2.contract.clone()).unwrap_or_default();
                                // associated const -> fn, see DESIGN (rewrite "assoc-const")
                                let mut e = c.expr.clone();
                                norm::normalise_expr(&ctx, &mut e, &subst);
                                let vis = if is_trait { "" } else { "pub " };
                                let t = format!("{}fn {}() -> (r: {})\n{}\n{{ {} }}\n", vis, c.ident, norm::tok(&c.ty), con, norm::tok(&e));
                                let start = outtxt.matches('\n').count() + 1;
                                outtxt.push_str(&t);
                                let end = outtxt.matches('\n').count() + 1;
                                reps.push(Rep { key: format!("{}::{}", header, c.ident), file: file.clone(), line: line_of(c), start, end, props: cur_props.clone() });
                            }
                            syn::ImplItem::Type(t) => {
                                if !inherent {
                                    let _ = writeln!(outtxt, "{}", norm::tok(t));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                for (m, _, _) in methods {
                    if !seen.contains(m) {
                        errs.push(format!("{}::impl {}::{}: lost anchor", file, header, m));
                    }
                }
                outtxt.push_str("}\n");
            }
        }
    }
    let _ = quote!();
    // string literals:  lit!("..") and litf!("..") of the template
    for (pre, suf) in [("litf!{", "_f()"), ("litf!(\"", "_f()"), ("lit!(\"", "()")] {
        let close = if pre.ends_with('{') { "}" } else { "\")" };
        while let Some(p) = outtxt.find(pre) {
            let e = outtxt[p + pre.len()..].find(close).unwrap() + p + pre.len();
            let n = norm::lit_name(&outtxt[p + pre.len()..e]);
            outtxt.replace_range(p..e + close.len(), &format!("{}{}", n, suf));
        }
    }
    outtxt.push_str("// string literals: their UTF-8 bytes\nverus! {\n");
    norm::LITS.with(|l| {
        for (n, s) in l.borrow().iter() {
            let b: Vec<String> = s.bytes().map(|b| format!("{}u8", b)).collect();
            let facts: Vec<String> = s.bytes().enumerate().map(|(i, b)| format!("{}()[{}] == {}", n, i, b)).collect();
            let _ = writeln!(outtxt, "/// {:?}\n#[verifier::opaque] pub open spec fn {}() -> Seq<u8> {{ seq![{}] }}", s, n, b.join(", "));
            let _ = writeln!(outtxt, "pub proof fn {}_f() ensures {}().len() == {}{}{} {{ reveal({}); }}", n, n, s.len(), if s.is_empty() { "" } else { ", " }, facts.join(", "), n);
        }
    });
    outtxt.push_str("} // verus!\n");
    std::fs::write(out, outtxt).unwrap();
    // report
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    let mut j = String::from("{\"functions\":[\n");
    for (i, r) in reps.iter().enumerate() {
        let _ = write!(
            j,
            "{}{{\"key\":\"{}\",\"file\":\"{}\",\"line\":{},\"start\":{},\"end\":{},\"stub\":{},\"probe\":{},\"props\":\"{}\"}}",
            if i > 0 { ",\n" } else { "" },
            esc(&r.key),
            esc(&r.file),
            r.line,
            r.start,
            r.end,
            ctx.stubs.contains(&r.key),
            !ctx.probe.is_empty() && !r.key.starts_with("item "),
            esc(&r.props)
        );
    }
    j.push_str("],\n\"errors\":[");
    for (i, e) in errs.iter().enumerate() {
        let _ = write!(j, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(e));
    }
    j.push_str("],\n\"rewrites\":{");
    for (i, (k, v)) in ctx.rewrites.borrow().iter().enumerate() {
        let _ = write!(j, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    j.push_str("}}\n");
    std::fs::write(report, j).unwrap();
    for e in &errs {
        eprintln!("vx: {}", e);
    }
}
