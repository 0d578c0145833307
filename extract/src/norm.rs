//! Normalisation: purely syntactic, behaviour-preserving rewrites from the Rust the repository
//! uses to the subset Verus accepts.  Every rewrite is counted in `ctx.rewrites` and documented
//! in DESIGN.md ("what the extraction drops or rewrites").
use crate::template::{FnSpec, Opts};
use crate::Ctx;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub type Subst = BTreeMap<String, String>;

pub struct SimpleMacro {
    params: Vec<String>,
    body: TokenStream,
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![];
    let mut cur = TokenStream::new();
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                v.push(std::mem::take(&mut cur));
                continue;
            }
        }
        cur.extend(std::iter::once(t));
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

impl SimpleMacro {
    /// `( $a:ident, $b:expr ) => { BODY };`   (single arm only)
    pub fn parse(ts: TokenStream) -> Option<SimpleMacro> {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let groups: Vec<&Group> = v
            .iter()
            .filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None })
            .collect();
        if groups.len() != 2 {
            return None;
        }
        let mut params = vec![];
        for p in split_commas(groups[0].stream()) {
            let t: Vec<TokenTree> = p.into_iter().collect();
            if t.len() != 4 {
                return None;
            }
            params.push(t[1].to_string());
        }
        Some(SimpleMacro { params, body: groups[1].stream() })
    }
    fn sub(&self, ts: TokenStream, args: &[TokenStream]) -> TokenStream {
        let mut out = TokenStream::new();
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match &t {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    if let Some(TokenTree::Ident(i)) = it.peek().cloned() {
                        if let Some(k) = self.params.iter().position(|x| *x == i.to_string()) {
                            it.next();
                            let a = args[k].clone();
                            if a.clone().into_iter().count() > 1 {
                                out.extend(std::iter::once(TokenTree::Group(Group::new(Delimiter::Parenthesis, a))));
                            } else {
                                out.extend(a);
                            }
                            continue;
                        }
                    }
                    out.extend(std::iter::once(t));
                }
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), self.sub(g.stream(), args));
                    ng.set_span(g.span());
                    out.extend(std::iter::once(TokenTree::Group(ng)));
                }
                _ => out.extend(std::iter::once(t)),
            }
        }
        out
    }
    fn expand(&self, ts: TokenStream) -> Option<Vec<Stmt>> {
        let args = split_commas(ts);
        if args.len() != self.params.len() {
            return None;
        }
        let b = self.sub(self.body.clone(), &args);
        let blk: syn::Block = syn::parse2(quote!({ #b })).ok()?;
        Some(blk.stmts)
    }
}

fn cnt(ctx: &Ctx, k: &str) {
    *ctx.rewrites.borrow_mut().entry(k.to_string()).or_insert(0) += 1;
}

pub fn tok(t: impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

fn nows(t: &impl ToTokens) -> String {
    tok(t).chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn strip_attrs_sig(sig: &mut syn::Signature) {
    for i in sig.inputs.iter_mut() {
        match i {
            syn::FnArg::Receiver(r) => r.attrs.clear(),
            syn::FnArg::Typed(t) => t.attrs.clear(),
        }
    }
}

// ---------------------------------------------------------------- type substitution / paths

struct TySub<'a>(&'a Subst);
impl VisitMut for TySub<'_> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        // whole-type substitution (written without blanks), e.g. $&'staticstr=StaticStr
        let k = nows(t);
        if let Some(v) = self.0.get(&k) {
            *t = syn::parse_str(v).expect("subst type");
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(v) = self.0.get(&p.segments[0].ident.to_string()) {
            if p.segments[0].arguments.is_none() || p.segments.len() > 1 {
                // `K::decode` -> `<Variant>::decode` only works for plain paths
                let np: syn::Path = match syn::parse_str(v) {
                    Ok(p) => p,
                    Err(_) => return,
                };
                if p.segments.len() == 1 {
                    *p = np;
                } else {
                    let mut np = np;
                    // turbofish the generic arguments in expression position
                    if let Some(l) = np.segments.last_mut() {
                        if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments {
                            a.colon2_token = Some(Default::default());
                        }
                    }
                    for s in p.segments.iter().skip(1) {
                        np.segments.push(s.clone());
                    }
                    *p = np;
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
}

pub fn subst_type(t: &mut syn::Type, s: &Subst) {
    TySub(s).visit_type_mut(t)
}
pub fn subst_types_sig(sig: &mut syn::Signature, s: &Subst) {
    TySub(s).visit_signature_mut(sig)
}

struct Flat<'a>(&'a Ctx);
impl Flat<'_> {
    fn flat(&self, p: &mut syn::Path) {
        for (a, b) in &self.0.rename_paths {
            if nows(p) == *a {
                if let Ok(np) = syn::parse_str::<syn::Path>(b) {
                    *p = np;
                    cnt(self.0, "rename-path");
                    return;
                }
            }
        }
        let mut n = 0;
        while p.segments.len() > 1 && self.0.strip_mods.contains(&p.segments[0].ident.to_string()) && p.segments[0].arguments.is_none() {
            let segs: syn::punctuated::Punctuated<_, syn::Token![::]> = p.segments.iter().skip(1).cloned().collect();
            p.segments = segs;
            n += 1;
        }
        if n > 0 {
            p.leading_colon = None;
            cnt(self.0, "module-path-flattened");
        }
        // HashMap<K, V, S> -> HashMap<K, V>
        for s in p.segments.iter_mut() {
            if s.ident == "HashMap" || s.ident == "HashSet" {
                if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let keep = if s.ident == "HashMap" { 2 } else { 1 };
                    if a.args.len() > keep {
                        a.args = a.args.iter().take(keep).cloned().collect();
                        cnt(self.0, "hasher-type-dropped");
                    }
                }
            }
        }
    }
}
impl VisitMut for Flat<'_> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        // slice::Iter<'_, T>  ->  & Vec<T>
        if let syn::Type::Path(p) = t {
            if let Some(l) = p.path.segments.last() {
                if l.ident == "Iter" && p.path.segments.len() == 2 && p.path.segments[0].ident == "slice" {
                    if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                        if let Some(syn::GenericArgument::Type(t2)) = a.args.last() {
                            let t2 = t2.clone();
                            *t = parse_quote!(&Vec<#t2>);
                            cnt(self.0, "slice-iter-type");
                        }
                    }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.flat(p);
    }
}
pub fn flatten_sig(ctx: &Ctx, sig: &mut syn::Signature) {
    Flat(ctx).visit_signature_mut(sig)
}
pub fn flatten_type(ctx: &Ctx, t: &mut syn::Type) {
    Flat(ctx).visit_type_mut(t)
}

pub fn trim_generics(g: &mut syn::Generics, opts: &Opts, subst: &Subst) {
    if opts.get("nogenerics").is_some() {
        *g = syn::Generics::default();
        return;
    }
    let drop: Vec<String> = subst
        .keys()
        .cloned()
        .chain(opts.get("dropgeneric").map(|s| s.split(',').map(|x| x.to_string()).collect::<Vec<_>>()).unwrap_or_default())
        .collect();
    let keepb: Vec<&str> = opts.get("keepbounds").map(|s| s.split(',').collect()).unwrap_or(vec!["Encode", "Decode", "DecodeFormatted", "ArrayEncode", "Composite"]);
    let mut np = syn::punctuated::Punctuated::new();
    for p in g.params.iter() {
        match p {
            syn::GenericParam::Type(t) => {
                if drop.contains(&t.ident.to_string()) {
                    continue;
                }
                let mut t = t.clone();
                let b: syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]> = t
                    .bounds
                    .iter()
                    .filter(|b| keepb.contains(&nows(b).as_str()))
                    .cloned()
                    .collect();
                t.bounds = b;
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
                if let Some(x) = opts.get("addbound") {
                    for e in x.split(',') {
                        let e: syn::TypeParamBound = syn::parse_str(e).unwrap();
                        t.colon_token = Some(Default::default());
                        t.bounds.push(e);
                    }
                }
                np.push(syn::GenericParam::Type(t));
            }
            x => np.push(x.clone()),
        }
    }
    g.params = np;
    if g.params.is_empty() {
        *g = syn::Generics::default();
    }
    if opts.get("keepwhere").is_none() {
        g.where_clause = None;
    }
}

/// `fn f(mut self)` -> `fn f(self) { let mut __self = self; .. }`
pub fn mut_self(ctx: &Ctx, sig: &mut syn::Signature, b: &mut syn::Block) {
    struct R;
    impl VisitMut for R {
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if p.path.is_ident("self") {
                *p = parse_quote!(__self);
            }
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            fn go(t: TokenStream) -> TokenStream {
                t.into_iter()
                    .map(|t| match t {
                        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("__self", i.span())),
                        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), go(g.stream()))),
                        t => t,
                    })
                    .collect()
            }
            m.tokens = go(m.tokens.clone());
        }
    }
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            R.visit_block_mut(b);
            b.stmts.insert(0, parse_quote!(let mut __self = self;));
            cnt(ctx, "mut self");
        }
    }
}

/// `Self::Item` -> the type the trait impl gives it (trait impls emitted as inherent ones)
pub struct AssocTypes(BTreeMap<String, syn::Type>);
impl AssocTypes {
    pub fn of(im: &syn::ItemImpl) -> Self {
        let mut m = BTreeMap::new();
        for i in &im.items {
            if let syn::ImplItem::Type(t) = i {
                m.insert(format!("Self::{}", t.ident), t.ty.clone());
            }
        }
        AssocTypes(m)
    }
    pub fn apply(&mut self, f: &mut syn::ImplItemFn) {
        self.visit_impl_item_fn_mut(f);
    }
}
impl VisitMut for AssocTypes {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let Some(x) = self.0.get(&nows(t)) {
            *t = x.clone();
        }
        visit_mut::visit_type_mut(self, t);
    }
}

// ---------------------------------------------------------------- macro expansion

struct Mac<'a> {
    ctx: &'a Ctx,
}
fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}
fn is_log(m: &syn::Macro) -> bool {
    m.path.segments.len() > 1 && m.path.segments[0].ident == "log"
        || ["trace", "debug", "info", "warn", "error", "eprintln", "println"].contains(&mac_name(m).as_str())
}
impl Mac<'_> {
    fn expand_expr(&self, m: &syn::Macro) -> Option<Expr> {
        let n = mac_name(m);
        if let Some(sm) = self.ctx.macros.get(&n) {
            let st = sm.expand(m.tokens.clone())?;
            cnt(self.ctx, &format!("macro {}!", n));
            if st.len() == 1 {
                if let Stmt::Expr(e, None) = &st[0] {
                    return Some(e.clone());
                }
            }
            return Some(parse_quote!({ #(#st)* }));
        }
        if is_log(m) {
            cnt(self.ctx, "log-dropped");
            return Some(parse_quote!(()));
        }
        match n.as_str() {
            "vec" => {
                cnt(self.ctx, "vec!");
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let args = split_commas(m.tokens.clone());
                if args.len() == 1 {
                    let a: Expr = syn::parse2(args[0].clone()).ok()?;
                    return Some(parse_quote!(Vec::from1_(#a)));
                }
                None
            }
            "matches" => {
                cnt(self.ctx, "matches!");
                let mut it = split_commas(m.tokens.clone());
                if it.len() != 2 {
                    return None;
                }
                let p = it.pop()?;
                let e: Expr = syn::parse2(it.pop()?).ok()?;
                let m: Expr = syn::parse2(quote!(match #e { #p => true, _ => false, })).ok()?;
                Some(m)
            }
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                cnt(self.ctx, "panic!");
                Some(parse_quote!(__panic()))
            }
            "cfg" => {
                cnt(self.ctx, "cfg! -> false (default features)");
                Some(parse_quote!(false))
            }
            "debug_assert" | "assert" => {
                cnt(self.ctx, "assert!");
                let a = split_commas(m.tokens.clone());
                let e: Expr = syn::parse2(a[0].clone()).ok()?;
                Some(parse_quote!(__debug_assert(#e)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let a = split_commas(m.tokens.clone());
                let e: Expr = syn::parse2(a[0].clone()).ok()?;
                let f: Expr = syn::parse2(a[1].clone()).ok()?;
                Some(parse_quote!(__debug_assert(#e == #f)))
            }
            _ => None,
        }
    }
}
impl VisitMut for Mac<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => {
                    if is_log(&m.mac) {
                        cnt(self.ctx, "log-dropped");
                        if m.semi_token.is_none() {
                            // tail macro of unit type
                        }
                        continue;
                    }
                    if let Some(sm) = self.ctx.macros.get(&mac_name(&m.mac)) {
                        if let Some(st) = sm.expand(m.mac.tokens.clone()) {
                            cnt(self.ctx, &format!("macro {}!", mac_name(&m.mac)));
                            if m.semi_token.is_some() && st.len() == 1 {
                                if let Stmt::Expr(e, None) = &st[0] {
                                    out.push(Stmt::Expr(e.clone(), Some(Default::default())));
                                    continue;
                                }
                            }
                            out.extend(st);
                            continue;
                        }
                    }
                    if let Some(e) = self.expand_expr(&m.mac) {
                        let e = if m.semi_token.is_some() && nows(&e) == "__panic()" { parse_quote!(__panic::<()>()) } else { e };
                        out.push(Stmt::Expr(e, m.semi_token));
                    } else {
                        out.push(Stmt::Macro(m));
                    }
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    out.push(Stmt::Local(l));
                }
                // nested items (use declarations, consts) are dropped; they may only be `use`
                Stmt::Item(syn::Item::Use(_)) => {}
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.expand_expr(&m.mac) {
                *e = n;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- expression rewrites

struct Rw<'a> {
    ctx: &'a Ctx,
    opts: &'a Opts,
    n: usize,
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Reference(r) => peel(&r.expr),
        Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() => peel(&m.receiver),
        _ => e,
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}

/// May `while let Some(p) = q.pop_front() { body }` be read as `for p in q.drain(..) { body }`?
/// Only when the body runs to its end for every element and cannot reach the queue.
fn drainable(body: &syn::Block, q: &Expr) -> bool {
    struct V {
        ok: bool,
        q: String,
    }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Try(_) | Expr::Await(_) | Expr::Macro(_) | Expr::Yield(_) => self.ok = false,
                // the receiver as a whole may reach the queue
                Expr::Path(p) if self.q.split('.').next() == Some(nows(e).as_str()) && p.path.get_ident().is_some() => self.ok = false,
                Expr::Field(f) if { let mut b = &*f.base; while let Expr::Field(f) = b { b = &*f.base; } matches!(b, Expr::Path(_)) } => {
                    let s = nows(e);
                    let (a, b) = (format!("{s}."), format!("{}.", self.q));
                    if a.starts_with(&b) || b.starts_with(&a) {
                        self.ok = false;
                    }
                    return;
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V { ok: true, q: nows(q) };
    syn::visit::Visit::visit_block(&mut v, body);
    v.ok
}
fn callee_name(e: &Expr) -> Option<String> {
    match unparen(e) {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}

impl Rw<'_> {
    fn is_option(&self, e: &Expr) -> bool {
        match callee_name(e) {
            Some(n) => {
                if ["as_ref", "as_mut", "cloned", "copied", "filter"].contains(&n.as_str()) {
                    true
                } else if let (true, Expr::MethodCall(m)) = (["map", "and_then", "or_else"].contains(&n.as_str()), unparen(e)) {
                    self.is_option(&m.receiver)
                } else {
                    self.ctx.opt_fns.contains(&n)
                }
            }
            None => match unparen(e) {
                Expr::Match(m) => m.arms.iter().any(|a| matches!(&a.pat, Pat::Ident(i) if i.ident == "None")) && m.arms.iter().any(|a| matches!(&*a.body, Expr::Path(p) if p.path.is_ident("None"))),
                Expr::Field(f) => {
                    let n = match &f.member {
                        syn::Member::Named(i) => i.to_string(),
                        _ => String::new(),
                    };
                    self.ctx.opt_fns.contains(&n)
                }
                Expr::Path(p) => self.ctx.opt_fns.contains(&p.path.segments.last().unwrap().ident.to_string()),
                _ => false,
            },
        }
    }
    /// (pattern, body) for a function value applied to one argument
    fn app(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match unparen(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = p {
                    p = *t.pat;
                }
                Some((p, (*c.body).clone()))
            }
            Expr::Closure(c) if c.inputs.is_empty() => Some((parse_quote!(_), (*c.body).clone())),
            Expr::Path(p) => {
                let p = p.clone();
                Some((parse_quote!(__v), parse_quote!(#p(__v))))
            }
            _ => None,
        }
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    /// while loop over an indexable view. `body` gets `pat` bound to the element reference
    fn iter_loop(&mut self, recv: &Expr, pat: &Pat, body: Vec<Stmt>, pre: Vec<Stmt>, post: Option<Expr>, label: Option<syn::Label>) -> Expr {
        let n = self.fresh();
        let it = quote::format_ident!("__it{}", n);
        let k = quote::format_ident!("__k{}", n);
        let r: Expr = match unparen(recv) {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let rr = &m.receiver;
                parse_quote!(#rr.iter_())
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let rr = &r.expr;
                parse_quote!(#rr.iter_())
            }
            e => {
                if self.opts.get("intoiter").is_some() {
                    parse_quote!(#e.into_iter_())
                } else {
                    parse_quote!(#e.iter_())
                }
            }
        };
        let tail: TokenStream = match post {
            Some(e) => quote!(#e),
            None => quote!(),
        };
        parse_quote!({
            #(#pre)*
            let #it = #r;
            let mut #k: usize = 0;
            #label while #k < #it.len() {
                let #pat = #it.index_(#k);
                #k += 1;
                #(#body)*
            }
            #tail
        })
    }
    fn mut_loop(&mut self, place: &Expr, pat: &Pat, body: Vec<Stmt>, keyed: bool) -> Expr {
        let n = self.fresh();
        let it = quote::format_ident!("__it{}", n);
        let k = quote::format_ident!("__k{}", n);
        let key = quote::format_ident!("__key{}", n);
        let bind: Stmt = if keyed { parse_quote!(let #pat = (#key, #place.at_mut_(#key));) } else { parse_quote!(let #pat = #place.at_mut_(#key);) };
        parse_quote!({
            let #it = #place.keys_();
            let mut #k: usize = 0;
            while #k < #it.len() {
                let #key = #it.at_(#k);
                #k += 1;
                #bind
                #(#body)*
            }
        })
    }
    fn sub_slice(&self, base: &Expr, r: &syn::ExprRange) -> Option<Expr> {
        if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        Some(match (&r.start, &r.end) {
            (Some(a), Some(b)) => parse_quote!(#base.sub_(#a, #b)),
            (None, Some(b)) => parse_quote!(#base.sub_to_(#b)),
            (Some(a), None) => parse_quote!(#base.sub_from_(#a)),
            (None, None) => return None,
        })
    }
}

fn unref(e: &Expr) -> &Expr {
    match e {
        Expr::Reference(r) => unref(&r.expr),
        Expr::Paren(p) => unref(&p.expr),
        e => e,
    }
}
fn is_sub(e: &Expr) -> bool {
    matches!(unref(e), Expr::MethodCall(m) if ["sub_", "sub_to_", "sub_from_"].contains(&m.method.to_string().as_str()))
}
/// split `a && b && c`
fn conj(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) {
            conj(&b.left, out);
            conj(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}
fn has_let(e: &Expr) -> bool {
    let mut v = vec![];
    conj(e, &mut v);
    v.len() > 1 && v.iter().any(|x| matches!(x, Expr::Let(_)))
}

fn strlit(e: &Expr) -> Option<String> {
    if let Expr::Lit(l) = unparen(e) {
        if let syn::Lit::Str(s) = &l.lit {
            return Some(s.value());
        }
        if let syn::Lit::ByteStr(s) = &l.lit {
            return String::from_utf8(s.value()).ok();
        }
    }
    None
}
thread_local! {
    pub static LITS: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default();
}
/// name of the specification function that stands for the bytes of a string literal
pub fn lit_name(s: &str) -> String {
    let mut n = String::from("sl_");
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() {
            n.push(b as char);
        } else {
            n.push_str(&format!("_{:02x}_", b));
        }
    }
    LITS.with(|l| l.borrow_mut().insert(n.clone(), s.to_string()));
    n
}
/// a string literal is the sequence of its UTF-8 bytes
fn lit_expr(s: &str) -> Expr {
    let n = quote::format_ident!("{}", lit_name(s));
    parse_quote!(StaticStr::lit_(Ghost(#n())))
}

impl VisitMut for Rw<'_> {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // slab: let E = PLACE.vacant_entry(); .. E.insert(v)  ->  PLACE.insert_at_(E, v)
        let mut ents: Vec<(String, Expr)> = vec![];
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*init.expr {
                        if m.method == "vacant_entry" {
                            ents.push((i.ident.to_string(), (*m.receiver).clone()));
                        }
                    }
                }
            }
        }
        for (n, place) in ents {
            cnt(self.ctx, "slab entry");
            VacIns { n, place }.visit_block_mut(b);
        }
        // drop configured calls
        let drops = &self.ctx.drop_calls;
        if !drops.is_empty() {
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                if let Stmt::Expr(e, _) = &s {
                    if let Some(n) = callee_name(e) {
                        if drops.contains(&n) {
                            cnt(self.ctx, &format!("drop-call {}", n));
                            continue;
                        }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // let chains -> nested ifs (before children)
        if let Expr::If(i) = e {
            if has_let(&i.cond) {
                cnt(self.ctx, "let-chain");
                let mut v = vec![];
                conj(&i.cond, &mut v);
                let then = &i.then_branch;
                let els: Option<Expr> = i.else_branch.as_ref().map(|x| (*x.1).clone());
                let mut cur: syn::Block = then.clone();
                for c in v.iter().rev() {
                    let ie: Expr = match &els {
                        Some(x) => {
                            let x: Expr = match x {
                                Expr::Block(_) | Expr::If(_) => x.clone(),
                                o => parse_quote!({ #o }),
                            };
                            parse_quote!(if #c #cur else #x)
                        }
                        None => parse_quote!(if #c #cur),
                    };
                    cur = parse_quote!({ #ie });
                }
                if let Stmt::Expr(x, _) = &cur.stmts[0] {
                    *e = x.clone();
                }
            }
        }
        // or-patterns with bindings -> one arm each
        if let Expr::Match(m) = e {
            struct Binds(bool);
            impl<'x> syn::visit::Visit<'x> for Binds {
                fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
                    if p.ident.to_string().chars().next().unwrap().is_lowercase() {
                        self.0 = true;
                    }
                }
            }
            let mut arms = vec![];
            for a in m.arms.drain(..) {
                if let Pat::Or(o) = &a.pat {
                    let mut b = Binds(false);
                    syn::visit::Visit::visit_pat(&mut b, &a.pat);
                    if b.0 && o.cases.len() > 1 && self.opts.get("splitor").is_some() {
                        cnt(self.ctx, "or-pattern -> arms");
                        for c in &o.cases {
                            let mut x = a.clone();
                            x.pat = c.clone();
                            x.comma = Some(Default::default());
                            arms.push(x);
                        }
                        continue;
                    }
                }
                arms.push(a);
            }
            m.arms = arms;
        }
        // match on x.as_str() with string literal arms -> if chain
        if let Expr::Match(m) = e {
            let litarms = m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_))) || matches!(&a.pat, Pat::Or(_)) && nows(&a.pat).contains('"'));
            if litarms {
                cnt(self.ctx, "match-on-literal");
                let mut s = (*m.expr).clone();
                if let Expr::MethodCall(mc) = &s {
                    if (mc.method == "as_str" || mc.method == "as_ref") && mc.args.is_empty() {
                        s = (*mc.receiver).clone();
                    }
                }
                let mut els: Expr = parse_quote!(__panic());
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let lits: Vec<String> = match &a.pat {
                        Pat::Lit(l) => strlit(&Expr::Lit(l.clone())).into_iter().collect(),
                        Pat::Or(o) => o.cases.iter().filter_map(|c| if let Pat::Lit(l) = c { strlit(&Expr::Lit(l.clone())) } else { None }).collect(),
                        Pat::Wild(_) => {
                            els = parse_quote!({ #b });
                            continue;
                        }
                        Pat::Ident(_) => {
                            els = parse_quote!({ #b });
                            continue;
                        }
                        _ => continue,
                    };
                    let ls: Vec<Expr> = lits.iter().map(|l| lit_expr(l)).collect();
                    let mut c: Option<Expr> = None;
                    for l in ls {
                        let t: Expr = parse_quote!(#s.eq_lit(#l));
                        c = Some(match c {
                            None => t,
                            Some(c) => parse_quote!(#c || #t),
                        });
                    }
                    let c = c.unwrap();
                    let c: Expr = match &a.guard {
                        Some((_, g)) => parse_quote!((#c) && (#g)),
                        None => c,
                    };
                    els = parse_quote!(if #c { #b } else #els);
                }
                // `else EXPR` needs a block
                *e = fix_else(els);
            }
        }
        // match whose guarded arms share one pattern and are followed by `_ => D` only:
        // one arm with an if chain (D repeated at its end)
        if let Expr::Match(m) = e {
            let n = m.arms.len();
            let first = m.arms.iter().position(|a| a.guard.is_some());
            if let Some(f) = first {
                let key = nows(&m.arms[f].pat);
                let ok = n >= 2
                    && matches!(m.arms[n - 1].pat, Pat::Wild(_))
                    && m.arms[n - 1].guard.is_none()
                    && m.arms[f..n - 1].iter().all(|a| a.guard.is_some() && nows(&a.pat) == key && !a.guard.as_ref().map(|g| has_let(&g.1)).unwrap_or(false));
                if ok {
                    cnt(self.ctx, "match guards -> if chain");
                    let d = (*m.arms[n - 1].body).clone();
                    let mut els: Expr = parse_quote!({ #d });
                    for a in m.arms[f..n - 1].iter().rev() {
                        let b = &a.body;
                        let g = &a.guard.as_ref().unwrap().1;
                        els = parse_quote!(if #g { #b } else #els);
                    }
                    let els = fix_else(els);
                    let mut arm = m.arms[f].clone();
                    arm.guard = None;
                    *arm.body = els;
                    arm.comma = Some(Default::default());
                    let last = m.arms[n - 1].clone();
                    m.arms.truncate(f);
                    m.arms.push(arm);
                    m.arms.push(last);
                }
            }
        }
        // `while let Some(p) = q.pop_front() { .. }` / `q.drain(..).for_each(|p| ..)` are the drain loop
        if let Expr::While(w) = e {
            if let Expr::Let(l) = unparen(&w.cond) {
                if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, unparen(&l.expr)) {
                    if ts.path.is_ident("Some") && ts.elems.len() == 1 && m.method == "pop_front" && m.args.is_empty() && w.label.is_none() && drainable(&w.body, &m.receiver) {
                        cnt(self.ctx, "while-let pop_front -> for over drain");
                        let (p, r, b) = (ts.elems[0].clone(), m.receiver.clone(), w.body.clone());
                        *e = parse_quote!(for #p in #r.drain(..) #b);
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let (true, Expr::MethodCall(d), Some(Expr::Closure(c))) = (m.method == "for_each", unparen(&m.receiver), m.args.first()) {
                if d.method == "drain" && c.inputs.len() == 1 {
                    cnt(self.ctx, "drain.for_each -> for over drain");
                    let p = c.inputs[0].clone();
                    let body: Vec<Stmt> = match &*c.body {
                        Expr::Block(bl) => {
                            let mut st = bl.block.stmts.clone();
                            if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                                *semi = Some(Default::default());
                            }
                            st
                        }
                        o => vec![parse_quote!(#o;)],
                    };
                    let d = d.clone();
                    *e = parse_quote!(for #p in #d { #(#body)* });
                }
            }
        }
        // for loops (before children so that numbering is outer-first)
        if let Expr::ForLoop(f) = e {
            let pat = (*f.pat).clone();
            let body = f.body.stmts.clone();
            match unparen(&f.expr) {
                Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => {
                    cnt(self.ctx, "for-range -> while");
                    let n = self.fresh();
                    let k = quote::format_ident!("__k{}", n);
                    let end = quote::format_ident!("__end{}", n);
                    let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                    *e = parse_quote!({
                        let #end = #b;
                        let mut #k = #a;
                        while #k < #end {
                            let #pat = #k;
                            #k += 1;
                            #(#body)*
                        }
                    });
                }
                Expr::Range(r) if matches!(r.limits, syn::RangeLimits::Closed(_)) => {
                    cnt(self.ctx, "for-range-inclusive -> while");
                    let n = self.fresh();
                    let k = quote::format_ident!("__k{}", n);
                    let end = quote::format_ident!("__end{}", n);
                    let done = quote::format_ident!("__done{}", n);
                    let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                    *e = parse_quote!({
                        let #end = #b;
                        let mut #k = #a;
                        let mut #done = #k > #end;
                        while !#done {
                            let #pat = #k;
                            if #k < #end { #k += 1; } else { #done = true; }
                            #(#body)*
                        }
                    });
                }
                Expr::Reference(r) if r.mutability.is_some() => {
                    cnt(self.ctx, "for over &mut -> while over the keys");
                    *e = self.mut_loop(&r.expr, &pat, body, true);
                }
                Expr::MethodCall(m) if (m.method == "values_mut" || m.method == "iter_mut") && m.args.is_empty() => {
                    cnt(self.ctx, "for over &mut -> while over the keys");
                    let keyed = m.method == "iter_mut";
                    let r = (*m.receiver).clone();
                    *e = self.mut_loop(&r, &pat, body, keyed);
                }
                Expr::MethodCall(m) if m.method == "drain" => {
                    cnt(self.ctx, "for over drain -> while");
                    let n = self.fresh();
                    let it = quote::format_ident!("__it{}", n);
                    let k = quote::format_ident!("__k{}", n);
                    let end = quote::format_ident!("__end{}", n);
                    let rr = &m.receiver;
                    *e = parse_quote!({
                        let mut #it = #rr.drain_();
                        let #end = #it.len();
                        let mut #k: usize = 0;
                        while #k < #end {
                            let #pat = #it.next_();
                            #k += 1;
                            #(#body)*
                        }
                    });
                }
                other => {
                    cnt(self.ctx, "for-iter -> while");
                    let other = other.clone();
                    *e = self.iter_loop(&other, &pat, body, vec![], None, f.label.clone());
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match name.as_str() {
                "retain" if m.args.len() == 1 => {
                    // map.retain(|_, v| *v != E) / == E
                    if let Expr::Closure(c) = &m.args[0] {
                        let mut body = (*c.body).clone();
                        if let Expr::Block(b) = &body {
                            if let [Stmt::Expr(x, None)] = b.block.stmts.as_slice() {
                                body = x.clone();
                            }
                        }
                        if let (2, Some(Pat::Ident(p)), Expr::Binary(b)) = (c.inputs.len(), c.inputs.get(1), &body) {
                            let id = &p.ident;
                            let l: Expr = parse_quote!(*#id);
                            let meth = match b.op {
                                syn::BinOp::Ne(_) => Some("retain_ne_"),
                                syn::BinOp::Eq(_) => Some("retain_eq_"),
                                _ => None,
                            };
                            let v = if nows(&b.left) == nows(&l) { Some(&b.right) } else if nows(&b.right) == nows(&l) { Some(&b.left) } else { None };
                            if let (Some(meth), Some(v)) = (meth, v) {
                                cnt(self.ctx, "retain -> comparison with one value");
                                let meth = quote::format_ident!("{}", meth);
                                let r = &m.receiver;
                                *e = parse_quote!(#r.#meth(#v));
                            }
                        }
                    }
                }
                "fold" if m.args.len() == 2 => {
                    if let Expr::Closure(c) = &m.args[1] {
                        if c.inputs.len() == 2 {
                            cnt(self.ctx, "fold -> while");
                            let acc = quote::format_ident!("__acc{}", self.n);
                            let init = &m.args[0];
                            let (a, p) = (c.inputs[0].clone(), c.inputs[1].clone());
                            let b = &c.body;
                            let recv = (*m.receiver).clone();
                            let ty: syn::Type = syn::parse_str(self.opts.get("foldty").map(|s| s.as_str()).unwrap_or("usize")).unwrap();
                            let body: Vec<Stmt> = vec![parse_quote!(let #a = #acc;), parse_quote!(#acc = #b;)];
                            let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc: #ty = #init;)];
                            *e = self.iter_loop(&recv, &p, body, pre, Some(parse_quote!(#acc)), None);
                        }
                    }
                }
                "for_each" if m.args.len() == 1 => {
                    if let Expr::Closure(c) = &m.args[0] {
                        cnt(self.ctx, "for_each -> while");
                        let p = c.inputs[0].clone();
                        let b = &c.body;
                        let recv = (*m.receiver).clone();
                        let body: Vec<Stmt> = match &**b {
                            Expr::Block(bl) => {
                                let mut st = bl.block.stmts.clone();
                                if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                                    *semi = Some(Default::default());
                                }
                                st
                            }
                            o => vec![parse_quote!(#o;)],
                        };
                        *e = self.iter_loop(&recv, &p, body, vec![], None, None);
                    }
                }
                "then" if m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                    if let Expr::Closure(c) = &m.args[0] {
                        cnt(self.ctx, "bool.then -> if");
                        let (r, b) = (&m.receiver, &c.body);
                        *e = parse_quote!(if #r { Some(#b) } else { None });
                    }
                }
                "then_some" if m.args.len() == 1 => {
                    cnt(self.ctx, "bool.then_some -> if");
                    let (r, b) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!({ let __c = #r; let __v = #b; if __c { Some(__v) } else { None } });
                }
                "filter" if m.args.len() == 1 && self.is_option(&m.receiver) => {
                    if let Some((p, b)) = self.app(&m.args[0]) {
                        cnt(self.ctx, "Option.filter -> match");
                        let r = &m.receiver;
                        *e = parse_quote!(match #r { Some(__w) => { let __c = { let #p = &__w; #b }; if __c { Some(__w) } else { None } } None => None, });
                    }
                }
                "or" if m.args.len() == 1 && self.is_option(&m.receiver) => {
                    cnt(self.ctx, "Option.or -> match");
                    let (r, b) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!({ let __r = #r; let __v = #b; match __r { Some(__w) => Some(__w), None => __v, } });
                }
                "map_or_else" if m.args.len() == 2 => {
                    if let (Expr::Closure(d), Some((p, b))) = (&m.args[0], self.app(&m.args[1])) {
                        let r = &m.receiver;
                        let db = &d.body;
                        cnt(self.ctx, "map_or_else -> match");
                        if d.inputs.is_empty() {
                            *e = parse_quote!(match #r { Some(#p) => #b, None => #db, });
                        } else {
                            let dp = &d.inputs[0];
                            *e = parse_quote!(match #r { Ok(#p) => #b, Err(#dp) => #db, });
                        }
                    }
                }
                "is_ok_and" | "is_err_and" if m.args.len() == 1 => {
                    if let Some((p, b)) = self.app(&m.args[0]) {
                        cnt(self.ctx, "Result.is_*_and -> match");
                        let r = &m.receiver;
                        *e = if name == "is_ok_and" { parse_quote!(match #r { Ok(#p) => #b, Err(_) => false, }) } else { parse_quote!(match #r { Err(#p) => #b, Ok(_) => false, }) };
                    }
                }
                "map" | "map_err" | "and_then" | "unwrap_or_else" | "map_or" | "is_none_or" | "is_some_and" | "ok_or_else" | "or_else" | "inspect" => {
                    let recv = (*m.receiver).clone();
                    let opt = self.is_option(&recv) || name == "is_none_or" || name == "is_some_and" || name == "ok_or_else" || name == "map_or";
                    let f = m.args.last().cloned();
                    if let Some(f) = f {
                        let nullary = opt && (name == "unwrap_or_else" || name == "or_else" || name == "ok_or_else");
                        if let Some((p, b)) = if let (true, Expr::Path(pf)) = (nullary, &f) { Some((parse_quote!(_), parse_quote!(#pf()))) } else { self.app(&f) } {
                            cnt(self.ctx, &format!("{}.{} -> match", if opt { "Option" } else { "Result" }, name));
                            let n: Option<Expr> = match (name.as_str(), opt) {
                                ("map", false) => Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e), })),
                                ("map", true) => Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None, })),
                                ("map_err", _) => Some(parse_quote!(match #recv { Ok(__w) => Ok(__w), Err(#p) => Err(#b), })),
                                ("and_then", false) => Some(parse_quote!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e), })),
                                ("and_then", true) => Some(parse_quote!(match #recv { Some(#p) => #b, None => None, })),
                                ("unwrap_or_else", true) => Some(parse_quote!(match #recv { Some(__w) => __w, None => #b, })),
                                ("unwrap_or_else", false) => Some(parse_quote!(match #recv { Ok(__w) => __w, Err(#p) => #b, })),
                                ("or_else", true) => Some(parse_quote!(match #recv { Some(__w) => Some(__w), None => #b, })),
                                ("or_else", false) => Some(parse_quote!(match #recv { Ok(__w) => Ok(__w), Err(#p) => #b, })),
                                ("ok_or_else", _) => Some(parse_quote!(match #recv { Some(__w) => Ok(__w), None => Err(#b), })),
                                ("is_none_or", _) => Some(parse_quote!(match #recv { Some(#p) => #b, None => true, })),
                                ("is_some_and", _) => Some(parse_quote!(match #recv { Some(#p) => #b, None => false, })),
                                ("map_or", _) if m.args.len() == 2 => {
                                    let d = &m.args[0];
                                    Some(parse_quote!(match #recv { Some(#p) => #b, None => #d, }))
                                }
                                _ => None,
                            };
                            if let Some(n) = n {
                                *e = n;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // after children
        if let Expr::MethodCall(m) = e {
            for (a, b) in &self.ctx.rename_methods {
                if m.method == a.as_str() {
                    m.method = quote::format_ident!("{}", b);
                    break;
                }
            }
        }
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("fn_service")) && c.args.len() == 1 && matches!(c.args[0], Expr::Closure(_)) {
                cnt(self.ctx, "handler closure -> opaque service");
                *e = parse_quote!(__service_());
            }
        }
        match e {
            Expr::Async(_) => {
                cnt(self.ctx, "async block -> opaque future");
                *e = parse_quote!(__async_());
            }
            Expr::Await(a) => {
                cnt(self.ctx, "await -> havoc stub");
                let b = &a.base;
                if let Some(v) = self.opts.get("awaitself").filter(|v| v.starts_with("self.") || v.as_str() == "con" || v.as_str() == "inner") {
                    let v: Expr = syn::parse_str(v).unwrap();
                    *e = parse_quote!({ let __f = #b; #v.await_(__f) });
                } else if self.opts.get("awaitself").is_some() {
                    *e = if matches!(unparen(b), Expr::Path(_)) { parse_quote!(self.await_(#b)) } else { parse_quote!({ let __f = #b; self.await_(__f) }) };
                } else {
                    *e = parse_quote!(__await(#b));
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = unparen(&r.expr) {
                    if let Expr::Range(rg) = unparen(&i.index) {
                        if let Some(n) = self.sub_slice(&i.expr, rg) {
                            cnt(self.ctx, "slice-index");
                            *e = n;
                        }
                    }
                } else if let Expr::Lit(l) = unparen(&r.expr) {
                    let _ = l;
                }
            }
            Expr::Index(i) => {
                if !matches!(unparen(&i.index), Expr::Range(_)) {
                    cnt(self.ctx, "index");
                    let (b, k) = (&i.expr, &i.index);
                    *e = parse_quote!((*#b.index_(#k)));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if segs.len() == 2 && segs[0] == "BigEndian" && c.args.len() == 1 {
                        cnt(self.ctx, "BigEndian::read");
                        let a = peel(&c.args[0]).clone();
                        let f = quote::format_ident!("be_{}", last);
                        // X.sub_from_(off)
                        if let Expr::MethodCall(m) = &a {
                            if m.method == "sub_from_" {
                                let (x, off) = (&m.receiver, &m.args[0]);
                                *e = parse_quote!(#x.#f(#off));
                                return;
                            }
                        }
                        *e = parse_quote!(#a.#f(0));
                        return;
                    }
                    if last == "from_be_bytes" && segs.len() == 2 {
                        // X[a..b].try_into().unwrap()
                        if let Expr::MethodCall(m) = unparen(&c.args[0]) {
                            if m.method == "unwrap" {
                                if let Expr::MethodCall(m2) = unparen(&m.receiver) {
                                    if m2.method == "try_into" {
                                        let inner = unparen(&m2.receiver);
                                        if let Expr::Index(i) = inner {
                                            if let Expr::Range(r) = unparen(&i.index) {
                                                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                                                    cnt(self.ctx, "from_be_bytes");
                                                    let x = &i.expr;
                                                    let f = quote::format_ident!("be_range_{}", segs[0]);
                                                    *e = parse_quote!(#x.#f(#a, #b));
                                                    return;
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if segs.len() == 2 && segs[0] == "char" && last == "from_u32" {
                        let a = &c.args[0];
                        *e = parse_quote!(__char_from_u32(#a));
                        return;
                    }
                    if (last == "from" || last == "from_static" || last == "from_str" || last == "from_slice")
                        && segs.len() == 2
                        && ["Symbol", "Str", "ByteString", "StaticSymbol"].contains(&segs[0].as_str())
                    {
                        if let Some(s) = strlit(&c.args[0]) {
                            cnt(self.ctx, "string-literal");
                            let l = lit_expr(&s);
                            let ty = quote::format_ident!("{}", segs[0]);
                            *e = parse_quote!(#ty::from_lit_(#l));
                            return;
                        }
                    }
                    if last == "StaticSymbol" && c.args.len() == 1 {
                        if let Some(s) = strlit(&c.args[0]) {
                            cnt(self.ctx, "string-literal");
                            let l = lit_expr(&s);
                            *e = parse_quote!(StaticSymbol(#l));
                            return;
                        }
                    }
                    if last == "with_capacity_and_hasher" {
                        cnt(self.ctx, "hasher-arg-dropped");
                        let a = &c.args[0];
                        if let Some(b) = self.opts.get("allocbound") {
                            let b: Expr = syn::parse_str(b).expect("allocbound");
                            *e = parse_quote!(HashMap::with_capacity_(#a, Ghost(#b)));
                        } else {
                            *e = parse_quote!(HashMap::with_capacity(#a));
                        }
                        return;
                    }
                    if last == "with_capacity" && segs.len() == 2 && (segs[0] == "Vec" || segs[0] == "HashMap") {
                        if let Some(b) = self.opts.get("allocbound") {
                            cnt(self.ctx, "with_capacity + bound");
                            let a = &c.args[0];
                            let ty = quote::format_ident!("{}", segs[0]);
                            let b: Expr = syn::parse_str(b).expect("allocbound");
                            *e = parse_quote!(#ty::with_capacity_(#a, Ghost(#b)));
                            return;
                        }
                    }
                    if segs == ["usize", "try_from"] || segs == ["u32", "try_from"] {
                        let f = quote::format_ident!("__{}_try_from", segs[0]);
                        let a = &c.args[0];
                        *e = parse_quote!(#f(#a));
                        return;
                    }
                    for (a, b) in &self.ctx.rename_paths {
                        let _ = (a, b);
                    }
                }
            }
            Expr::Try(t) if self.opts.get("trydesugar").is_some() => {
                cnt(self.ctx, "? desugared");
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(From::from(__e)) });
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "copy_from_slice" => {
                        if let Expr::MethodCall(s) = unparen(&m.args[0]) {
                            if s.method == "sub_to_" {
                                cnt(self.ctx, "copy_from_slice");
                                let (d, x, n) = (&m.receiver, &s.receiver, &s.args[0]);
                                *e = parse_quote!(#x.copy_to_(&mut #d, #n));
                                return;
                            }
                        }
                    }
                    "put_slice" | "extend_from_slice" => {
                        let a = m.args[0].clone();
                        if let Some(s) = strlit(&a) {
                            let l = lit_expr(&s);
                            m.args[0] = parse_quote!(&#l);
                        } else {
                            let p = match peel(&a) {
                                Expr::MethodCall(mm) if mm.method == "as_ref" => (*mm.receiver).clone(),
                                x => x.clone(),
                            };
                            // a reference is wanted; calls already return one
                            match p {
                                Expr::Call(ref c) if callee_name(&p).map_or(false, |n| self.ctx.const_fns.contains(&n)) && c.args.is_empty() => m.args[0] = parse_quote!((#p).r_()),
                                Expr::MethodCall(_) | Expr::Call(_) => m.args[0] = p,
                                Expr::Path(ref pp) if pp.path.is_ident("self") => m.args[0] = p,
                                p => m.args[0] = parse_quote!((#p).r_()),
                            }
                        }
                    }
                    "unsigned_abs" => {
                        let r = &m.receiver;
                        *e = parse_quote!(__unsigned_abs(#r));
                    }
                    "iter" if m.args.is_empty() => {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.iter_());
                    }
                    _ => {}
                }
            }
            Expr::Binary(b) => {
                // X.as_str() == "lit"
                if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                    if let Some(s) = strlit(&b.right) {
                        let mut l = (*b.left).clone();
                        if let Expr::MethodCall(m) = &l {
                            if m.method == "as_str" || m.method == "as_bytes" {
                                l = (*m.receiver).clone();
                            }
                        }
                        cnt(self.ctx, "eq-literal");
                        let le = lit_expr(&s);
                        let l = match l {
                            Expr::Reference(r) => *r.expr,
                            l => l,
                        };
                        let n: Expr = parse_quote!(#l.eq_lit(#le));
                        *e = if matches!(b.op, syn::BinOp::Eq(_)) { n } else { parse_quote!(!#n) };
                    } else if is_sub(&b.left) || is_sub(&b.right) {
                        // &x[a..b] == y
                        cnt(self.ctx, "slice-eq");
                        let (l, r) = (unref(&b.left), unref(&b.right));
                        let n: Expr = parse_quote!(slice_eq_(#l.r_(), #r.r_()));
                        *e = if matches!(b.op, syn::BinOp::Eq(_)) { n } else { parse_quote!(!#n) };
                    }
                }
            }
            Expr::Path(p) => {
                let l = p.path.segments.last().unwrap().ident.to_string();
                if self.ctx.const_fns.contains(&l) {
                    cnt(self.ctx, "assoc-const -> fn");
                    let p = p.clone();
                    *e = parse_quote!(#p());
                }
            }
            _ => {}
        }
    }
}

/// `if c {..} else EXPR` requires EXPR to be a block or an if
fn fix_else(e: Expr) -> Expr {
    match e {
        Expr::If(_) => e,
        Expr::Block(b) => Expr::Block(b),
        o => parse_quote!({ #o }),
    }
}

pub fn normalise(ctx: &Ctx, b: &mut syn::Block, subst: &Subst, opts: &Opts, _is_async: bool) {
    Mac { ctx }.visit_block_mut(b);
    TySub(subst).visit_block_mut(b);
    Flat(ctx).visit_block_mut(b);
    let mut rw = Rw { ctx, opts, n: 0 };
    rw.visit_block_mut(b);
    StripAttrs.visit_block_mut(b);
}
pub fn normalise_expr(ctx: &Ctx, e: &mut Expr, subst: &Subst) {
    let o = Opts::default();
    Mac { ctx }.visit_expr_mut(e);
    TySub(subst).visit_expr_mut(e);
    Flat(ctx).visit_expr_mut(e);
    Rw { ctx, opts: &o, n: 0 }.visit_expr_mut(e);
}

/// `E.insert(v)` -> `PLACE.insert_at_(E, v)`
struct VacIns {
    n: String,
    place: Expr,
}
impl VisitMut for VacIns {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "insert" && nows(&m.receiver) == self.n {
                let (p, r, a) = (&self.place, &m.receiver, &m.args);
                *e = parse_quote!(#p.insert_at_(#r, #a));
            }
        }
    }
}
struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- markers

struct Marker<'a> {
    spec: &'a FnSpec,
    loops: usize,
    done: Vec<bool>,
}
fn mk(name: &str, n: usize) -> Stmt {
    let i = quote::format_ident!("{}", name);
    let l = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
    parse_quote!(#i!(#l);)
}
impl Marker<'_> {
    fn loop_body(&mut self, b: &mut syn::Block) {
        let n = self.loops;
        self.loops += 1;
        self.visit_block_mut(b);
        let mut st = vec![mk("__vxinv", n), mk("__vxls", n)];
        st.append(&mut b.stmts);
        if self.spec.loopend.contains_key(&n) {
            if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                *semi = Some(Default::default());
            }
        }
        st.push(mk("__vxle", n));
        b.stmts = st;
    }
}
fn header_text(s: &Stmt) -> String {
    nows(s)
}
impl VisitMut for Marker<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => self.loop_body(&mut w.body),
            Expr::Loop(w) => self.loop_body(&mut w.body),
            Expr::ForLoop(w) => self.loop_body(&mut w.body),
            Expr::Match(m) => {
                // arms need blocks for inserts
                visit_mut::visit_expr_match_mut(self, m);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        // give expression arms a block when an insert pattern matches their text exactly
        if !matches!(*a.body, Expr::Block(_)) {
            let t = nows(&a.body);
            if self.spec.inserts.iter().enumerate().any(|(i, (_, p, _))| !self.done[i] && t.contains(p.as_str()) && t.starts_with(p.as_str())) {
                let b = &a.body;
                *a.body = parse_quote!({ #b });
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // children first: innermost statement wins
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        let n = b.stmts.len();
        for (si, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let t = header_text(&s);
            let mut after = vec![];
            for (i, (before, p, _)) in self.spec.inserts.iter().enumerate() {
                if !self.done[i] && t.contains(p.as_str()) && !t.contains(&format!("__vxins!({});", i)) {
                    self.done[i] = true;
                    if *before {
                        out.push(mk("__vxins", i));
                    } else {
                        after.push(mk("__vxins", i));
                    }
                }
            }
            let mut s = s;
            if !after.is_empty() && si + 1 == n {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

pub fn returns_unit(sig: &syn::Signature) -> bool {
    matches!(sig.output, syn::ReturnType::Default)
}

/// marker before every loop: `__vxpre!(N)`
struct PreLoop(Vec<usize>);
impl VisitMut for PreLoop {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let body = match &s {
                Stmt::Expr(Expr::While(w), _) => Some(&w.body),
                Stmt::Expr(Expr::Loop(w), _) => Some(&w.body),
                _ => None,
            };
            let mut post = None;
            if let Some(bl) = body {
                if let Some(Stmt::Macro(m)) = bl.stmts.first() {
                    if mac_name(&m.mac) == "__vxinv" {
                        let n: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                        out.push(mk("__vxpre", n));
                        if self.0.contains(&n) {
                            post = Some(n);
                        }
                    }
                }
            }
            let mut s = s;
            if let Some(n) = post {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
                out.push(s);
                out.push(mk("__vxpost", n));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn mark(b: &mut syn::Block, spec: &FnSpec, unit: bool) {
    let mut m = Marker { spec, loops: 0, done: vec![false; spec.inserts.len()] };
    m.visit_block_mut(b);
    PreLoop(spec.postloop.keys().copied().collect()).visit_block_mut(b);
    if spec.finish.is_some() {
        if unit {
            if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            b.stmts.push(parse_quote!(__vxfinish!();));
        } else if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
            b.stmts.push(parse_quote!(let __r = #e;));
            b.stmts.push(parse_quote!(__vxfinish!();));
            b.stmts.push(Stmt::Expr(parse_quote!(__r), None));
        }
    }
    if spec.start.is_some() {
        b.stmts.insert(0, parse_quote!(__vxstart!();));
    }
}

// ---------------------------------------------------------------- items

pub fn item_text(ctx: &Ctx, it: &syn::Item, opts: &Opts) -> String {
    let subst = opts.subst();
    let mut it = it.clone();
    TySub(&subst).visit_item_mut(&mut it);
    Flat(ctx).visit_item_mut(&mut it);
    StripAttrs.visit_item_mut(&mut it);
    let p: syn::Visibility = parse_quote!(pub);
    let derive = opts.get("derive").map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
    let name = opts.get("as").map(|s| quote::format_ident!("{}", s));
    match &mut it {
        syn::Item::Struct(s) => {
            s.vis = p.clone();
            trim_generics(&mut s.generics, opts, &subst);
            if let Some(n) = &name {
                s.ident = n.clone();
            }
            for f in s.fields.iter_mut() {
                f.vis = p.clone();
            }
            if let Some(d) = opts.get("dropfields") {
                let d: Vec<&str> = d.split(',').collect();
                if let syn::Fields::Named(n) = &mut s.fields {
                    n.named = n.named.iter().filter(|f| !d.contains(&f.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
                }
            }
            if let Some(g) = opts.get("addfields") {
                if let syn::Fields::Named(n) = &mut s.fields {
                    let extra: syn::FieldsNamed = syn::parse_str(&format!("{{ {} }}", g)).expect("addfields");
                    for f in extra.named {
                        n.named.push(f);
                    }
                }
            }
        }
        syn::Item::Enum(s) => {
            s.vis = p;
            trim_generics(&mut s.generics, opts, &subst);
            if let Some(n) = &name {
                s.ident = n.clone();
            }
        }
        syn::Item::Const(s) => {
            s.vis = p;
            let mut e = (*s.expr).clone();
            normalise_expr(ctx, &mut e, &subst);
            if let Some(c) = opts.get("constfn") {
                if let Some(s) = strlit(&e) {
                    e = lit_expr(&s);
                }
                let h = opts.get("hint").map(|h| format!("proof {{ {} }} ", h)).unwrap_or_default();
                return format!("pub fn {}() {}\n{{ {}{} }}\n", name.unwrap_or(s.ident.clone()), c, h, tok(unref(&e)));
            }
            *s.expr = e;
        }
        syn::Item::Type(s) => s.vis = p,
        syn::Item::Trait(s) => s.vis = p,
        _ => {}
    }
    let f = syn::File { shebang: None, attrs: vec![], items: vec![it] };
    format!("{}{}", derive, prettyplease::unparse(&f))
}

/// Shared cells: `P.get_mut().m(.., &P)` passes a second handle to the cell; hoist a clone of the handle.
/// `let x = P.get_mut(); .. P.get_ref()` uses the same cell under two names; use the first.
struct CellPrep<'a> {
    ctx: &'a Ctx,
    via: Vec<(String, String)>,
    poolchan: bool,
    mutb: Vec<String>,
    callas: Vec<(String, String)>,
    cellfield: Vec<(String, String)>,
    mutmatch: bool,
}
struct Repl {
    from: String,
    to: Expr,
    n: usize,
}
impl VisitMut for Repl {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if nows(e) == self.from {
            *e = self.to.clone();
            self.n += 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl VisitMut for CellPrep<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let n = b.stmts.len();
        for i in 0..n {
            let mut r = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*init.expr {
                        if m.method == "get_mut" && m.args.is_empty() {
                            let x = &id.ident;
                            r = Some((format!("{}.get_ref()", nows(&m.receiver)), parse_quote!(#x), format!("{}.clone()", nows(&m.receiver)), parse_quote!(#x.clone())));
                        }
                    }
                }
            }
            if let Some((from, to, from2, to2)) = r {
                let mut rp = Repl { from, to, n: 0 };
                for s in b.stmts[i + 1..].iter_mut() {
                    rp.visit_stmt_mut(s);
                }
                let mut rp2 = Repl { from: from2, to: to2, n: 0 };
                for s in b.stmts[i + 1..].iter_mut() {
                    rp2.visit_stmt_mut(s);
                }
                if rp.n + rp2.n > 0 {
                    cnt(self.ctx, "cell: second borrow");
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.by_ref.is_none() && self.mutb.iter().any(|m| p.ident == m.as_str()) {
            p.mutability = Some(Default::default());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let (true, Expr::Match(m)) = (self.mutmatch, &mut *e) {
            // what a match on the contents of a cell binds may be written through: bind by &mut
            struct NoRef;
            impl VisitMut for NoRef {
                fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
                    p.by_ref = None;
                    p.mutability = None;
                }
            }
            let place = match unparen(&m.expr) {
                Expr::Reference(r) => unparen(&r.expr).clone(),
                x => x.clone(),
            };
            let mut b = &place;
            while let Expr::Field(f) = b {
                b = &f.base;
            }
            if matches!(b, Expr::MethodCall(c) if c.method == "get_mut") && matches!(place, Expr::Field(_)) {
                cnt(self.ctx, "match on a cell -> match on &mut");
                struct NoGet;
                impl VisitMut for NoGet {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::MethodCall(c) = &*e {
                            if c.method == "get_mut" && c.args.is_empty() {
                                *e = (*c.receiver).clone();
                            }
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut place = place.clone();
                NoGet.visit_expr_mut(&mut place);
                *m.expr = parse_quote!(&mut #place);
                for a in m.arms.iter_mut() {
                    NoRef.visit_pat_mut(&mut a.pat);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut hoist = None;
        if let Expr::MethodCall(m) = e {
            for (f, fld) in &self.cellfield {
                if m.method == f.as_str() && m.args.is_empty() {
                    cnt(self.ctx, "accessor of a cell -> its field");
                    let r = &m.receiver;
                    let t: TokenStream = fld.parse().unwrap();
                    *e = parse_quote!(opt_mut_(&mut #r.#t));
                    return;
                }
            }
        }
        if let Some(n) = collect_loop(e) {
            cnt(self.ctx, "iter().filter_map().collect() -> loop");
            *e = n;
            return;
        }
        if let Expr::MethodCall(m) = e {
            if let Expr::MethodCall(g) = &*m.receiver {
                // pure getter: the argument can be evaluated first
                if g.method == "get_control_queue" && m.args.len() == 1 && matches!(&*g.receiver, Expr::Field(_)) && !matches!(m.args[0], Expr::Path(_)) {
                    cnt(self.ctx, "argument before pure receiver");
                    let a = m.args[0].clone();
                    m.args[0] = parse_quote!(__arg);
                    let c = m.clone();
                    *e = parse_quote!({ let __arg = #a; #c });
                    return;
                }
            }
            if let Expr::MethodCall(g) = &*m.receiver {
                if g.method == "get_mut" && g.args.is_empty() {
                    let p = (*g.receiver).clone();
                    let ps = nows(&p);
                    for a in m.args.iter_mut() {
                        if let Expr::Reference(r) = a {
                            if nows(&r.expr) == ps {
                                *a = parse_quote!(&__alias);
                                hoist = Some(p.clone());
                            }
                        } else if nows(a) == format!("{ps}.clone()") {
                            *a = parse_quote!(__alias);
                            hoist = Some(p.clone());
                        }
                    }
                }
            }
            if self.poolchan && m.method == "channel" && m.args.is_empty() {
                if let Expr::Field(f) = &*m.receiver {
                    if let syn::Member::Named(n) = &f.member {
                        if n.to_string().starts_with("pool_") {
                            cnt(self.ctx, "X.pool_*.channel() -> pool_channel_()");
                            *e = parse_quote!(pool_channel_());
                            return;
                        }
                    }
                }
            }
            for (f, to) in &self.callas {
                if m.method == f.as_str() {
                    cnt(self.ctx, "generic call -> instance");
                    m.method = quote::format_ident!("{}", to);
                }
            }
            for (f, fld) in &self.via {
                if m.method == f.as_str() && nows(&m.receiver) == "self" {
                    cnt(self.ctx, "self.m(..) -> m_f_(&self.field, ..)");
                    let fi = quote::format_ident!("{}_f_", f);
                    let fl = quote::format_ident!("{}", fld.trim_start_matches('+'));
                    let a = &m.args;
                    *e = if fld.starts_with('+') { parse_quote!(#fi(&mut self.#fl, #a)) } else { parse_quote!(#fi(&self.#fl, #a)) };
                    return;
                }
            }
        }
        if let Some(p) = hoist {
            cnt(self.ctx, "cell: aliased argument");
            let x = e.clone();
            *e = parse_quote!({ let __alias = #p.clone(); #x });
        }
    }
}
/// the body of the N-th async block
pub fn async_block(b: &syn::Block, k: usize) -> Option<syn::Block> {
    struct V(Vec<syn::Block>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_async(&mut self, a: &'a syn::ExprAsync) {
            self.0.push(a.block.clone());
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.get(k).cloned()
}
pub fn cell_prep(ctx: &Ctx, b: &mut syn::Block, opts: &Opts) {
    let via = opts
        .get("viafield")
        .map(|s| s.split(',').filter_map(|x| x.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
        .unwrap_or_default();
    let mutb = opts.get("mutbind").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let poolchan = opts.get("poolchan").is_some();
    let callas = opts
        .get("callas")
        .map(|s| s.split(',').filter_map(|x| x.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
        .unwrap_or_default();
    let cellfield = opts
        .get("cellfield")
        .map(|s| s.split(',').filter_map(|x| x.split_once(':').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
        .unwrap_or_default();
    let mutmatch = opts.get("mutmatch").is_some();
    CellPrep { ctx, via, poolchan, mutb, callas, cellfield, mutmatch }.visit_block_mut(b);
}
/// `X.iter().filter_map(|p| b).collect()` -> a loop that pushes
fn collect_loop(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(c) = e else { return None };
    if c.method != "collect" {
        return None;
    }
    let Expr::MethodCall(f) = &*c.receiver else { return None };
    let Expr::MethodCall(i) = &*f.receiver else { return None };
    if f.method != "filter_map" || i.method != "iter" || f.args.len() != 1 {
        return None;
    }
    let Expr::Closure(k) = &f.args[0] else { return None };
    if k.inputs.len() != 1 {
        return None;
    }
    let (p, b, r) = (&k.inputs[0], &k.body, &i.receiver);
    Some(parse_quote!({
        let mut __v = Vec::new();
        for #p in &#r {
            let __y = #b;
            if let Some(__y) = __y {
                __v.push(__y);
            }
        }
        __v
    }))
}
/// by-value parameters whose cells are written
pub fn mut_params(sig: &mut syn::Signature, b: &syn::Block) {
    let t = nows(b);
    for a in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(pt) = a {
            if matches!(*pt.ty, syn::Type::Reference(_)) {
                continue;
            }
            if let Pat::Ident(i) = &mut *pt.pat {
                let n = i.ident.to_string();
                let uses = t.match_indices(&format!("{}.", n)).any(|(p, _)| {
                    let before_ok = p == 0 || !t.as_bytes()[p - 1].is_ascii_alphanumeric() && t.as_bytes()[p - 1] != b'_' && t.as_bytes()[p - 1] != b'.';
                    let rest: String = t[p..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.').collect();
                    before_ok && rest.ends_with("get_mut") && t[p + rest.len()..].starts_with("()")
                });
                if uses {
                    i.mutability = Some(Default::default());
                }
            }
        }
    }
}
