//! The extraction proper. Every rewrite done here is listed in DESIGN.md
//! ("What the extraction changes").
use crate::annot::{Anchor, FnSpec, Specs};
use crate::mac::{self, MacroDef};
use crate::print::Printer;
use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct RunResult {
    pub text: String,
    pub map: serde_json::Value,
    pub baseline: BTreeMap<String, String>,
}

pub struct Extractor {
    specs: Specs,
    ext: HashSet<String>,
    ann: Vec<String>,
    baseline_in: BTreeMap<String, String>,
    baseline_out: BTreeMap<String, String>,
    fninfo: Vec<serde_json::Value>,
    dropped: Vec<String>,
    /// functions of the crates that carry no contract, by simple name
    unknown: HashMap<String, Helper>,
    crate_name: String,
    notes: Vec<String>,
}

#[derive(Clone)]
struct Helper {
    key: String,
    sig: Signature,
    block: Block,
    has_self: bool,
    ok: bool,
    /// it has `return` or `?`
    exits: bool,
    own: bool,
}

const MAX_INLINE: usize = 8;

fn strip_docs(attrs: &mut Vec<Attribute>) {
    attrs.retain(|a| !(a.path().is_ident("doc") || a.path().is_ident("derive") || a.path().is_ident("allow") || a.path().is_ident("inline") || a.path().is_ident("must_use") || a.path().is_ident("cfg") || a.path().is_ident("cfg_attr")));
}
fn has_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = norm(&quote!(#a).to_string());
        // as built here: a unix system, no test, no prover
        a.path().is_ident("cfg") && (t.contains("(test)") || t.contains("kani") || t == "#[cfg(not(unix))]" || t == "#[cfg(windows)]" || t == "#[cfg(not(target_family=\"unix\"))]")
    })
}
fn tstr<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn normt<T: ToTokens>(t: &T) -> String { norm(&tstr(t)) }

fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", ty_key(&r.elem)),
        Type::Group(g) => ty_key(&g.elem),
        Type::Paren(g) => ty_key(&g.elem),
        x => normt(x),
    }
}

fn flatten_use(t: &UseTree, prefix: &[String], out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => { let mut v = prefix.to_vec(); v.push(p.ident.to_string()); flatten_use(&p.tree, &v, out) }
        UseTree::Name(n) => {
            let mut v = prefix.to_vec();
            if n.ident == "self" { out.push((v, None)) } else { v.push(n.ident.to_string()); out.push((v, None)) }
        }
        UseTree::Rename(r) => {
            let mut v = prefix.to_vec();
            if r.ident != "self" { v.push(r.ident.to_string()); }
            out.push((v, Some(r.rename.to_string())))
        }
        UseTree::Glob(_) => { let mut v = prefix.to_vec(); v.push("*".into()); out.push((v, None)) }
        UseTree::Group(g) => for i in &g.items { flatten_use(i, prefix, out) },
    }
}

struct PathFix<'a> { table: &'a [(Vec<String>, Vec<String>)], krate: &'a str }
fn map_segs(segs: &[String], table: &[(Vec<String>, Vec<String>)], krate: &str) -> Option<Vec<String>> {
    if segs.is_empty() { return None; }
    if segs[0] == "crate" { let mut v = vec!["crate".to_string(), krate.to_string()]; v.extend_from_slice(&segs[1..]); return Some(v); }
    let mut best: Option<&(Vec<String>, Vec<String>)> = None;
    for e in table {
        if segs.len() >= e.0.len() && segs[..e.0.len()] == e.0[..] && best.map_or(true, |b| b.0.len() < e.0.len()) { best = Some(e); }
    }
    best.map(|(a, b)| { let mut v = b.clone(); v.extend_from_slice(&segs[a.len()..]); v })
}
impl<'a> VisitMut for PathFix<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() < 2 { return; }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(n) = map_segs(&segs, self.table, self.krate) {
            // the mapping replaces a prefix: keep the arguments of the remaining segments
            let keep = p.segments.len().min(n.len());
            let mut tail: Vec<PathSegment> = vec![];
            let old: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let mut k = 0;
            while k < keep && old[old.len() - 1 - k].ident == n[n.len() - 1 - k] { tail.push(old[old.len() - 1 - k].clone()); k += 1; }
            tail.reverse();
            let mut segs = punctuated::Punctuated::new();
            for s in &n[..n.len() - k] { segs.push(PathSegment::from(Ident::new(s, Span::call_site()))); }
            for s in tail { segs.push(s); }
            p.segments = segs;
            p.leading_colon = None;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let _ = m;
    }
}

/// Expr::Group / Type::Group left by macro expansion become plain (or parenthesised) nodes.
struct Ungroup;
impl VisitMut for Ungroup {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Group(g) = e {
            let inner = (*g.expr).clone();
            *e = match inner {
                Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Paren(_) | Expr::Macro(_) | Expr::Tuple(_) | Expr::Array(_) => inner,
                x => parse_quote!((#x)),
            };
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Group(g) = t { let i = (*g.elem).clone(); *t = i; }
        // `dyn Error` is outside the verifier's subset: an opaque type stands for the box
        if let Type::Path(p) = t {
            if let Some(s) = p.path.segments.last() {
                if s.ident == "Box" {
                    let a = norm(&tstr(&s.arguments));
                    if ["<dynstd::error::Error>", "<dyn::std::error::Error>", "<dyncore::error::Error>", "<dynError>", "<dynerror::Error>"].contains(&a.as_str()) { *t = parse_quote!(BoxError); }
                }
            }
        }
    }
}

struct MacroExpand<'a> { scopes: Vec<HashMap<String, MacroDef>>, errors: &'a mut Vec<String>, depth: usize }
impl<'a> MacroExpand<'a> {
    fn find(&self, p: &Path) -> Option<MacroDef> {
        let n = p.get_ident()?.to_string();
        self.scopes.iter().rev().find_map(|s| s.get(&n).cloned())
    }
}
impl<'a> VisitMut for MacroExpand<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(HashMap::new());
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (idx, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match &s {
                Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                    let name = m.ident.as_ref().unwrap().to_string();
                    match mac::parse_def(&name, m.mac.tokens.clone()) {
                        Ok(d) => { self.scopes.last_mut().unwrap().insert(name, d); }
                        Err(e) => self.errors.push(e),
                    }
                    continue;
                }
                Stmt::Macro(m) => {
                    if let Some(d) = self.find(&m.mac.path) {
                        match d.expand(m.mac.tokens.clone()).and_then(|ts| {
                            use syn::parse::Parser;
                            Block::parse_within.parse2(ts).map_err(|e| e.to_string())
                        }) {
                            Ok(mut st) => {
                                let last = idx + 1 == n && m.semi_token.is_none();
                                if !last {
                                    // a trailing expression of a statement macro is a statement
                                    if let Some(Stmt::Expr(_, semi)) = st.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
                                }
                                self.depth += 1;
                                if self.depth < 64 {
                                    let mut tmp = Block { brace_token: Default::default(), stmts: st };
                                    // expand nested uses in the same scope
                                    let mut saved = self.scopes.clone();
                                    self.visit_block_mut(&mut tmp);
                                    std::mem::swap(&mut saved, &mut self.scopes);
                                    out.extend(tmp.stmts);
                                }
                                self.depth -= 1;
                            }
                            Err(e) => self.errors.push(e),
                        }
                        continue;
                    }
                }
                _ => {}
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.scopes.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(d) = self.find(&m.mac.path) {
                match d.expand(m.mac.tokens.clone()).and_then(|ts| parse2::<Expr>(ts.clone()).or_else(|_| parse2::<Expr>(quote!({ #ts }))).map_err(|e| e.to_string())) {
                    Ok(x) => { *e = x; }
                    Err(er) => { self.errors.push(er); return; }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// format!/print!/println!/bitvec! and reference operands of shifts
struct Rewrite<'a> { dropped: &'a mut Vec<String>, refs: Vec<String>, maybe: Vec<String>, weights: Vec<String>, tmp: usize }
/// locals bound to what `get`, `first`, `last`, `next` gave: an integer or a reference to one
#[derive(Default)]
struct MaybeRefs { v: Vec<String> }
impl<'ast> Visit<'ast> for MaybeRefs {
    fn visit_local(&mut self, l: &'ast Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            let t = normt(&i.expr);
            if [".get(", ".first(", ".last(", ".next("].iter().any(|m| t.contains(m)) { self.v.push(p.ident.to_string()); }
        }
        visit::visit_local(self, l);
    }
}
fn is_range(e: &Expr) -> bool { match e { Expr::Range(_) => true, Expr::Paren(p) => is_range(&p.expr), Expr::MethodCall(m) if m.method == "rev" => is_range(&m.receiver), _ => false } }
impl<'a> Rewrite<'a> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "format" => { self.dropped.push(format!("format!({}) -> unspecified String", m.tokens)); Some(parse_quote!(crate::stub::fmt_string())) }
            "print" | "println" | "eprintln" | "eprint" => { self.dropped.push(format!("{}!({})", n, m.tokens)); Some(parse_quote!(crate::stub::print_text())) }
            "load_yaml" => { let t = &m.tokens; Some(parse_quote!(crate::vworld::clap::yaml(#t))) }
            "crate_name" | "crate_version" | "crate_authors" | "crate_description" => { self.dropped.push(format!("{}!({}) -> some text", n, m.tokens)); Some(parse_quote!(crate::vworld::clap::crate_text())) }
            "bitvec" => {
                let s: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let semi = s.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';'))?;
                let tys: TokenStream = s[..semi].iter().cloned().collect();
                let rest: TokenStream = s[semi + 1..].iter().cloned().collect();
                use syn::parse::Parser;
                let es = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(rest).ok()?;
                let mut pushes = vec![];
                for e in es { pushes.push(quote!(__bv.push((#e) != 0);)); }
                let e: Expr = parse2(quote!({ let mut __bv = BitVec::<#tys>::new(); #(#pushes)* __bv })).ok()?;
                Some(e)
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Rewrite<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = self.mac(&m.mac.clone()) { *e = x; } }
        if let Expr::ForLoop(f) = e {
            let mut pushed = false;
            if let Pat::Ident(p) = &*f.pat {
                let it = normt(&f.expr);
                if !is_range(&f.expr) && !it.ends_with(".copied()") && !it.ends_with(".cloned()") { self.refs.push(p.ident.to_string()); pushed = true; }
            }
            if let Expr::ForLoop(f) = e {
                if let Expr::Path(p) = &*f.expr {
                    if p.path.get_ident().map_or(false, |i| self.weights.contains(&i.to_string())) { let w = f.expr.clone(); f.expr = Box::new(parse_quote!(#w.vx_into_iter())); }
                }
            }
            visit_mut::visit_expr_mut(self, e);
            if pushed { self.refs.pop(); }
            // R11: `for p in f().iter()`: the value iterated over gets a name (it lives
            // as long either way)
            if let Expr::ForLoop(f) = e {
                if let Expr::MethodCall(m) = &mut *f.expr {
                    if m.method == "iter" && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                        self.tmp += 1;
                        let id = format_ident!("vx_tmp{}", self.tmp);
                        let recv = std::mem::replace(&mut *m.receiver, parse_quote!(#id));
                        let f = f.clone();
                        *e = parse_quote!({ let #id = #recv; #f });
                    }
                }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // R10: integer <-> byte array conversions have const-expression types the
        // verifier cannot match; they go through a trait with the same meaning
        const BYTES: [&str; 6] = ["to_be_bytes", "from_be_bytes", "to_le_bytes", "from_le_bytes", "to_ne_bytes", "from_ne_bytes"];
        match e {
            Expr::MethodCall(m) if m.method == "as_deref" || m.method == "as_deref_mut" || (m.method == "try_into" && m.args.is_empty()) || (m.method == "extend" && m.args.len() == 1) => { m.method = format_ident!("vx_{}", m.method); }
            Expr::MethodCall(m) if BYTES.contains(&m.method.to_string().as_str()) => { m.method = format_ident!("vx_{}", m.method); }
            Expr::Path(p) if p.path.segments.len() > 1 || p.qself.is_some() => {
                if let Some(l) = p.path.segments.last_mut() { if BYTES.contains(&l.ident.to_string().as_str()) { l.ident = format_ident!("vx_{}", l.ident); } }
            }
            _ => {}
        }
        // R8: `into_iter` on a value of a type parameter bounded by `Weights`
        if let Expr::MethodCall(m) = e {
            if m.method == "into_iter" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().map_or(false, |i| self.weights.contains(&i.to_string())) { m.method = format_ident!("vx_into_iter"); }
                }
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Shr(_) | BinOp::Shl(_) | BinOp::BitAnd(_)) {
                if let Expr::Path(p) = &*b.left {
                    if let Some(i) = p.path.get_ident() {
                        if self.refs.contains(&i.to_string()) { let l = b.left.clone(); b.left = Box::new(parse_quote!((*#l))); }
                        else if self.maybe.contains(&i.to_string()) { let l = b.left.clone(); b.left = Box::new(parse_quote!(#l.vx_val())); }
                    }
                }
                if let Expr::Path(p) = &*b.right {
                    if let Some(i) = p.path.get_ident() {
                        if self.maybe.contains(&i.to_string()) { let l = b.right.clone(); b.right = Box::new(parse_quote!(#l.vx_val())); }
                    }
                }
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.mac(&m.mac.clone()) { let semi = m.semi_token; *s = Stmt::Expr(x, semi); }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct Rename<'a> { map: &'a HashMap<String, Ident> }
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.map.get(&s.ident.to_string()) { s.ident = n.clone(); }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

#[derive(Default)]
struct Bindings { v: BTreeSet<String> }
impl<'ast> Visit<'ast> for Bindings {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.v.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}
#[derive(Default)]
struct OuterBindings { v: BTreeSet<String> }
impl<'ast> Visit<'ast> for OuterBindings {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.v.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
#[derive(Default)]
struct Paths { v: BTreeSet<String> }
impl<'ast> Visit<'ast> for Paths {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(i) = p.path.get_ident() { self.v.insert(i.to_string()); } }
}
#[derive(Default)]
struct HasExit { yes: bool }
impl<'ast> Visit<'ast> for HasExit {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.yes = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.yes = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
struct CountUse<'a> { name: &'a str, n: usize }
impl<'ast, 'a> Visit<'ast> for CountUse<'a> {
    fn visit_expr_path(&mut self, i: &'ast ExprPath) { if i.path.is_ident(self.name) { self.n += 1; } }
    fn visit_macro(&mut self, m: &'ast Macro) { if tstr(&m.tokens).contains(self.name) { self.n += 1; } }
}

/// Beta-inlining of local closures that are only ever called.
struct ClosureInline<'a> { name: String, clo: ExprClosure, outer: &'a BTreeSet<String>, done: usize, ok: bool }
impl<'a> ClosureInline<'a> {
    fn build(&mut self, args: &punctuated::Punctuated<Expr, Token![,]>, cloned: bool) -> Option<Expr> {
        if args.len() != self.clo.inputs.len() { self.ok = false; return None; }
        let mut lets: Vec<TokenStream> = vec![];
        if cloned {
            let mut ps = Paths::default();
            ps.visit_expr(&self.clo.body);
            let params: BTreeSet<String> = { let mut b = Bindings::default(); for i in &self.clo.inputs { b.visit_pat(i); } b.v };
            for v in ps.v.iter().filter(|v| self.outer.contains(*v) && !params.contains(*v)) {
                let id = format_ident!("{}", v);
                lets.push(quote!(let #id = #id.clone();));
            }
        }
        for (p, a) in self.clo.inputs.iter().zip(args.iter()) {
            match p { Pat::Type(t) => { let (p, ty) = (&t.pat, &t.ty); lets.push(quote!(let #p: #ty = #a;)) } p => lets.push(quote!(let #p = #a;)) }
        }
        let body = &self.clo.body;
        let inner: TokenStream = match &**body { Expr::Block(b) => { let s = &b.block.stmts; quote!(#(#s)*) } e => quote!(#e) };
        self.done += 1;
        parse2(quote!({ #(#lets)* #inner })).ok()
    }
}
impl<'a> VisitMut for ClosureInline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let direct = matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name));
            let cloned = matches!(&*c.func, Expr::MethodCall(m) if m.method == "clone" && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)));
            if direct || cloned { let a = c.args.clone(); if let Some(x) = self.build(&a, cloned) { *e = x; } else { self.ok = false; } }
        }
    }
}

/// R3 over a block and the blocks in it
struct ClosureBlocks { outer: BTreeSet<String> }
impl VisitMut for ClosureBlocks {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, block: &mut Block) {
        visit_mut::visit_block_mut(self, block);
        loop {
            let cand = block.stmts.iter().enumerate().find_map(|(i, s)| {
                if let Stmt::Local(l) = s {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            let mut he = HasExit::default();
                            he.visit_expr(&c.body);
                            if !he.yes { return Some((i, p.ident.to_string(), c.clone())); }
                        }
                    }
                }
                None
            });
            let Some((i, name, clo)) = cand else { break };
            let mut nb = block.clone();
            nb.stmts.remove(i);
            let mut ci = ClosureInline { name: name.clone(), clo, outer: &self.outer, done: 0, ok: true };
            ci.visit_block_mut(&mut nb);
            let (ok, done) = (ci.ok, ci.done);
            let mut cu = CountUse { name: &name, n: 0 };
            cu.visit_block(&nb);
            if ok && done > 0 && cu.n == 0 { *block = nb; } else { break; }
        }
    }
}

struct HelperInline<'a> { tab: &'a HashMap<String, Helper>, used: Vec<String>, failed: Vec<String>, n: usize, this: String, ret: String, err: Option<String>, closure: usize }
struct SelfSub { with: Ident }
impl VisitMut for SelfSub {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { p.path = Path::from(self.with.clone()); } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // macro arguments are tokens
        fn go(ts: TokenStream, w: &Ident) -> TokenStream {
            ts.into_iter().map(|t| match t {
                TokenTree::Ident(i) if i == "self" => TokenTree::Ident(w.clone()),
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), w))),
                t => t,
            }).collect()
        }
        m.tokens = go(m.tokens.clone(), &self.with);
    }
}
impl<'a> HelperInline<'a> {
    fn inline(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, how: How) -> Option<Expr> {
        if !h.ok || self.n >= MAX_INLINE { return None; }
        // `Self` means something else elsewhere
        if h.own && !self.this.starts_with(&h.key[..h.key.rfind("::").map_or(0, |x| x + 2)]) { return None; }
        self.n += 1;
        let k = self.n;
        let mut body = match how {
            _ if !h.exits => h.block.clone(),
            How::Value => crate::desugar::no_returns(&h.block, false)?,
            How::Try => { if self.closure > 0 || self.err.is_none() || err_of(&h.sig) != self.err { return None; } crate::desugar::no_returns(&h.block, true)? }
            How::Return => { if self.closure > 0 || ret_of(&h.sig) != self.ret { return None; } h.block.clone() }
        };
        let mut lets: Vec<TokenStream> = vec![];
        let gen: BTreeSet<String> = h.sig.generics.params.iter().filter_map(|g| match g { GenericParam::Type(t) => Some(t.ident.to_string()), GenericParam::Const(t) => Some(t.ident.to_string()), _ => None }).collect();
        let mut rest = args.into_iter();
        let mut pre: Vec<TokenStream> = vec![];
        for inp in h.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(r) => {
                    let x = match &recv { Some(x) => x.clone(), None => rest.next()? };
                    let id = format_ident!("__self{}", k);
                    let via_self = matches!(&x, Expr::Path(p) if p.path.is_ident("self"));
                    if recv.is_none() { lets.push(quote!(let #id = #x;)); }
                    else if r.reference.is_some() && r.mutability.is_some() { if via_self { lets.push(quote!(let #id = &mut *#x;)) } else { lets.push(quote!(let #id = &mut #x;)) } }
                    else if r.reference.is_some() { if via_self { lets.push(quote!(let #id = &*#x;)) } else { lets.push(quote!(let #id = &#x;)) } }
                    else { lets.push(quote!(let #id = #x;)); }
                    SelfSub { with: id }.visit_block_mut(&mut body);
                }
                FnArg::Typed(t) => {
                    let a = rest.next()?;
                    let (p, ty) = (&t.pat, &t.ty);
                    let tmp = format_ident!("__arg{}_{}", k, pre.len());
                    let uses_gen = { let s: Vec<String> = ty.to_token_stream().into_iter().flat_map(flat).collect(); s.iter().any(|x| gen.contains(x) || x == "impl" || x == "'") };
                    if uses_gen { pre.push(quote!(let #tmp = #a;)); } else { pre.push(quote!(let #tmp: #ty = #a;)); }
                    lets.push(quote!(let #p = #tmp;));
                }
            }
        }
        self.used.push(h.key.clone());
        let st = &body.stmts;
        // arguments are evaluated before any parameter name is bound
        let x: Expr = match (&how, &h.sig.output) {
            (How::Try, ReturnType::Type(_, ty)) if !flat_all(ty.to_token_stream()).iter().any(|x| gen.contains(x) || x == "impl" || x == "'") => {
                let r = format_ident!("vx_h{}", k);
                parse2(quote!({ #(#pre)* #(#lets)* let #r: #ty = { #(#st)* }; #r })).ok()?
            }
            _ => parse2(quote!({ #(#pre)* #(#lets)* #(#st)* })).ok()?,
        };
        Some(x)
    }
}
/// the type or module a key `..::base::name` belongs to
fn base_of(key: &str) -> &str { key.rsplit("::").nth(1).unwrap_or("") }
fn flat(t: TokenTree) -> Vec<String> {
    match t { TokenTree::Group(g) => g.stream().into_iter().flat_map(flat).collect(), t => vec![t.to_string()] }
}
#[derive(Clone, Copy, PartialEq)]
enum How { Value, Try, Return }
fn flat_all(t: TokenStream) -> Vec<String> { t.into_iter().flat_map(flat).collect() }
fn ret_of(s: &Signature) -> String { match &s.output { ReturnType::Default => "()".into(), ReturnType::Type(_, t) => tstr(&t.to_token_stream()) } }
/// what names the error type of the Result a function returns
fn err_of(s: &Signature) -> Option<String> {
    let ReturnType::Type(_, t) = &s.output else { return None };
    let Type::Path(p) = &**t else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "Result" { return None; }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    if a.args.len() == 2 { return Some(tstr(&a.args[1].to_token_stream())); }
    let segs: Vec<String> = p.path.segments.iter().take(p.path.segments.len() - 1).map(|s| s.ident.to_string()).collect();
    Some(format!("{}::Error of Result", segs.join("::")))
}
impl<'a> HelperInline<'a> {
    /// `Type::name`, or a name that only one function has
    fn named(&self, p: &Path) -> Option<&'a Helper> {
        let n = p.segments.len();
        let name = p.segments.last()?.ident.to_string();
        if n >= 2 {
            let q = p.segments[n - 2].ident.to_string();
            let q = if q == "Self" { base_of(&self.this).to_string() } else { q };
            if let Some(h) = self.tab.get(&format!("{}::{}", q, name)) { return Some(h); }
        }
        self.tab.get(&name)
    }
    fn call(&mut self, e: &Expr, how: How) -> Option<Expr> {
        let tab = self.tab;
        let (h, recv, args): (&Helper, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let h = self.named(&p.path)?;
                (h, None, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                let h = tab.get(&m.method.to_string())?;
                if !h.has_self { return None; }
                (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect())
            }
            _ => return None,
        };
        if h.key == self.this { return None; }
        let r = self.inline(h, recv, args, how);
        if r.is_none() && how == How::Value { self.failed.push(h.key.clone()); }
        r
    }
    fn parts(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => { for a in c.args.iter_mut() { self.visit_expr_mut(a); } }
            Expr::MethodCall(m) => { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
            _ => {}
        }
    }
    fn is_call(&self, e: &Expr) -> bool {
        match e {
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if self.named(&p.path).map_or(false, |h| h.exits)),
            Expr::MethodCall(m) => self.tab.get(&m.method.to_string()).map_or(false, |h| h.exits),
            _ => false,
        }
    }
    /// the value of the function is the value of this expression
    pub fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => { if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() { self.tail(x); } }
            Expr::If(i) => { if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() { self.tail(x); } if let Some((_, x)) = &mut i.else_branch { self.tail(x); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail(&mut a.body); },
            Expr::Return(r) => if let Some(x) = &mut r.expr { self.tail(x); },
            x if self.is_call(x) => {
                self.parts(x);
                if let Some(mut y) = self.call(x, How::Return) { visit_mut::visit_expr_mut(self, &mut y); *x = y; }
            }
            _ => {}
        }
    }
}
impl<'a> VisitMut for HelperInline<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { self.closure += 1; visit_mut::visit_expr_closure_mut(self, c); self.closure -= 1; }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if self.is_call(&t.expr) {
                self.parts(&mut t.expr);
                if let Some(mut x) = self.call(&t.expr, How::Try) { visit_mut::visit_expr_mut(self, &mut x); t.expr = Box::new(x); return; }
            }
        }
        if let Expr::Return(r) = e { if self.closure == 0 { if let Some(x) = &mut r.expr { self.tail(x); } } }
        visit_mut::visit_expr_mut(self, e);
        if let Some(mut x) = self.call(e, How::Value) { visit_mut::visit_expr_mut(self, &mut x); *e = x; }
    }
}

fn lit(n: usize) -> Literal { Literal::usize_unsuffixed(n) }
fn marker(id: usize) -> Stmt { let l = lit(id); parse_quote!(__vx!(#l);) }

struct LoopMark<'a> { ann: &'a mut Vec<String>, spec: &'a BTreeMap<usize, (Option<String>, String)>, n: usize, ids: Vec<usize>, kinds: Vec<&'static str>, used: BTreeSet<usize> }
impl<'a> LoopMark<'a> {
    fn mark(&mut self, body: &mut Block, kind: &'static str) {
        let k = self.n;
        self.n += 1;
        let text = self.spec.get(&k).map(|x| x.1.clone()).unwrap_or_default();
        if self.spec.contains_key(&k) { self.used.insert(k); }
        self.ann.push(text);
        let id = self.ann.len() - 1;
        self.ids.push(id);
        self.kinds.push(kind);
        let l = lit(id);
        body.stmts.insert(0, parse_quote!(__vxloop!(#l);));
    }
}
impl<'a> VisitMut for LoopMark<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { visit_mut::visit_expr_closure_mut(self, c) }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let it = self.spec.get(&self.n).and_then(|x| x.0.clone());
                self.mark(&mut f.body, "for");
                if let Some(it) = it {
                    let id = format_ident!("{}", it);
                    let ex = &f.expr;
                    *f.expr = parse_quote!(__vxinl!{#id : #ex});
                }
            }
            Expr::While(f) => self.mark(&mut f.body, "while"),
            Expr::Loop(f) => self.mark(&mut f.body, "loop"),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn loop_of(s: &Stmt) -> Option<&Block> {
    match s { Stmt::Expr(Expr::ForLoop(f), _) => Some(&f.body), Stmt::Expr(Expr::While(f), _) => Some(&f.body), Stmt::Expr(Expr::Loop(f), _) => Some(&f.body), _ => None }
}
fn loop_of_mut(s: &mut Stmt) -> Option<&mut Block> {
    match s { Stmt::Expr(Expr::ForLoop(f), _) => Some(&mut f.body), Stmt::Expr(Expr::While(f), _) => Some(&mut f.body), Stmt::Expr(Expr::Loop(f), _) => Some(&mut f.body), _ => None }
}
fn loop_id(b: &Block) -> Option<usize> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() { if m.mac.path.is_ident("__vxloop") { return m.mac.tokens.to_string().trim().parse().ok(); } }
    None
}
struct AtLoop { id: usize, ann: usize, how: u8, done: bool }
impl VisitMut for AtLoop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if !self.done && loop_of(&b.stmts[i]).and_then(loop_id) == Some(self.id) {
                self.done = true;
                match self.how {
                    0 => { loop_of_mut(&mut b.stmts[i]).unwrap().stmts.insert(1, marker(self.ann)); }
                    1 => { let body = loop_of_mut(&mut b.stmts[i]).unwrap();
                           if let Some(Stmt::Expr(_, s)) = body.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()); } }
                           body.stmts.push(marker(self.ann)); }
                    2 => { b.stmts.insert(i, marker(self.ann)); }
                    _ => {
                        if let Stmt::Expr(_, s) = &mut b.stmts[i] { if s.is_none() { *s = Some(Default::default()); } }
                        b.stmts.insert(i + 1, marker(self.ann));
                    }
                }
                return;
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.done { return; }
            i += 1;
        }
    }
}
struct AtPat { pat: String, n: usize, ann: usize, after: bool, count: usize, done: bool }
impl VisitMut for AtPat {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let before = self.count;
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.done { return; }
            if self.count == before && normt(&b.stmts[i]).contains(&self.pat) {
                if self.count == self.n {
                    self.done = true;
                    if self.after {
                        if let Stmt::Expr(_, s) = &mut b.stmts[i] { if s.is_none() { *s = Some(Default::default()); } }
                        b.stmts.insert(i + 1, marker(self.ann));
                    } else { b.stmts.insert(i, marker(self.ann)); }
                    return;
                }
                self.count += 1;
            }
            i += 1;
        }
    }
}
struct ClosureMark<'a> { ann: &'a mut Vec<String>, spec: &'a BTreeMap<usize, (Option<String>, String)>, n: usize, used: BTreeSet<usize> }
impl<'a> VisitMut for ClosureMark<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.n;
        self.n += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        if let Some((ret, text)) = self.spec.get(&k) {
            self.used.insert(k);
            self.ann.push(text.clone());
            let l = lit(self.ann.len() - 1);
            if let Some(r) = ret { if let Ok(ts) = r.parse::<TokenStream>() { c.output = parse_quote!(-> __vxinl!{(#ts)}); } }
            let body = &c.body;
            let stmts: TokenStream = match &**body { Expr::Block(b) => { let s = &b.block.stmts; quote!(#(#s)*) } e => quote!(#e) };
            c.body = Box::new(parse_quote!({ __vxspec!(#l); #stmts }));
        } else if matches!(c.output, ReturnType::Default) && crate::desugar::states(&c.body) {
            let body = &c.body;
            self.ann.push(format!("ensures vx_b == ({}),", tstr(body)));
            let l = lit(self.ann.len() - 1);
            c.output = parse_quote!(-> __vxinl!{(vx_b: bool)});
            c.body = Box::new(parse_quote!({ __vxspec!(#l); #body }));
        }
    }
}

impl Extractor {
    pub fn new(specs: Specs, ext: HashSet<String>, baseline: BTreeMap<String, String>) -> Self {
        Extractor { specs, ext, ann: vec![], baseline_in: baseline, baseline_out: Default::default(), fninfo: vec![], dropped: vec![], unknown: HashMap::new(), crate_name: String::new(), notes: vec![] }
    }
    fn a(&mut self, s: String) -> usize { self.ann.push(s); self.ann.len() - 1 }
    fn m(&mut self, s: String) -> TokenStream { let l = lit(self.a(s)); quote!(__vx!(#l);) }

    pub fn run(&mut self, crates: Vec<(String, Vec<Item>)>) -> RunResult {
        let mut body = TokenStream::new();
        for (name, items) in crates {
            self.crate_name = name.clone();
            let scopes = vec![HashMap::new()];
            let items = self.prep(items, &scopes);
            self.unknown.clear();
            self.collect_unknown(&items, &name);
            let ts = self.module(items, &name);
            let id = format_ident!("{}", name);
            body.extend(quote!(pub mod #id { #ts }));
        }
        let mut lost_items: Vec<String> = vec![];
        for (k, f) in &self.specs.fns { if !f.seen { lost_items.push(k.clone()); } }
        let mut p = Printer::new(&self.ann);
        p.out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, unreachable_patterns, mismatched_lifetime_syntaxes, unused_macros, unused_must_use, path_statements, suspicious_double_ref_op, noop_method_call)]\n#![feature(allocator_api)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus!{\n");
        p.out.push_str("// ---- ghost definitions, lemmas and stubs (from /verif/spec) ----\n");
        p.out.push_str(&self.specs.prelude);
        p.out.push_str("\n// ---- extracted from /repo ----\n");
        p.ts(body);
        p.out.push_str("\n} // verus!\nfn main(){}\n");
        let map = json!({ "fns": self.fninfo, "dropped": self.dropped, "missing": lost_items, "notes": self.notes });
        RunResult { text: std::mem::take(&mut p.out), map, baseline: self.baseline_out.clone() }
    }

    /// module-level macro definitions, cfg(test) items, path rewriting
    fn prep(&mut self, items: Vec<Item>, scopes: &[HashMap<String, MacroDef>]) -> Vec<Item> {
        let mut scopes = scopes.to_vec();
        scopes.push(HashMap::new());
        let mut work: Vec<Item> = items;
        work.reverse();
        let mut out = vec![];
        let mut budget = 500;
        while let Some(it) = work.pop() {
            match it {
                Item::Macro(m) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                    let n = m.ident.as_ref().unwrap().to_string();
                    match mac::parse_def(&n, m.mac.tokens.clone()) { Ok(d) => { scopes.last_mut().unwrap().insert(n, d); } Err(e) => self.notes.push(e) }
                }
                Item::Macro(m) => {
                    let d = m.mac.path.get_ident().and_then(|i| scopes.iter().rev().find_map(|s| s.get(&i.to_string()).cloned()));
                    match d {
                        Some(d) if budget > 0 => {
                            budget -= 1;
                            match d.expand(m.mac.tokens.clone()).and_then(|ts| parse2::<File>(ts).map_err(|e| e.to_string())) {
                                Ok(f) => { for i in f.items.into_iter().rev() { work.push(i); } }
                                Err(e) => self.notes.push(format!("item macro: {}", e)),
                            }
                        }
                        _ => self.notes.push(format!("item macro {} left out", tstr(&m.mac.path))),
                    }
                }
                Item::Mod(mut m) => {
                    if crate::is_cfg_test(&m.attrs) { continue; }
                    if let Some((b, its)) = m.content.take() { let its = self.prep(its, &scopes); m.content = Some((b, its)); }
                    out.push(Item::Mod(m));
                }
                mut x => {
                    let attrs: Vec<Attribute> = match &x { Item::Fn(f) => f.attrs.clone(), Item::Impl(f) => f.attrs.clone(), Item::Struct(f) => f.attrs.clone(), Item::Use(u) => u.attrs.clone(), Item::Const(u) => u.attrs.clone(), _ => vec![] };
                    if has_cfg_off(&attrs) { continue; }
                    if let Item::Use(u) = &x {
                        let mut fl = vec![];
                        flatten_use(&u.tree, &[], &mut fl);
                        let vis = &u.vis;
                        for (segs, alias) in fl {
                            let mapped = if segs.len() == 1 && segs[0] == "bitvec" { vec!["crate".into(), "stub".into(), "bitvec".into()] } else { map_segs(&segs, &self.specs.paths, &self.crate_name).unwrap_or(segs.clone()) };
                            if mapped.is_empty() || mapped[0] == "drop" { self.dropped.push(format!("use {}", segs.join("::"))); continue; }
                            let txt = mapped.join("::");
                            let v = vis.to_token_stream().to_string();
                            let al = alias.map(|a| format!(" as {}", a)).unwrap_or_default();
                            match parse_str::<Item>(&format!("{} use {}{};", v, txt, al)) { Ok(i) => out.push(i), Err(e) => self.notes.push(format!("use {}: {}", txt, e)) }
                        }
                        continue;
                    }
                    let mut errs = vec![];
                    { let mut me = MacroExpand { scopes: scopes.clone(), errors: &mut errs, depth: 0 }; me.visit_item_mut(&mut x); }
                    self.notes.extend(errs);
                    Ungroup.visit_item_mut(&mut x);
                    PathFix { table: &self.specs.paths, krate: &self.crate_name }.visit_item_mut(&mut x);
                    out.push(x);
                }
            }
        }
        out
    }

    fn collect_unknown(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => if let Some((_, its)) = &m.content { self.collect_unknown(its, &format!("{}::{}", path, m.ident)); },
                Item::Fn(f) => { let key = format!("{}::{}", path, f.sig.ident); self.note_unknown(key, &f.sig, &f.block); }
                Item::Impl(i) if i.trait_.is_none() => {
                    let base = format!("{}::{}", path, ty_key(&i.self_ty));
                    for x in &i.items { if let ImplItem::Fn(f) = x { self.note_unknown(format!("{}::{}", base, f.sig.ident), &f.sig, &f.block); } }
                }
                _ => {}
            }
        }
    }
    fn note_unknown(&mut self, key: String, sig: &Signature, block: &Block) {
        if self.specs.fns.contains_key(&key) { return; }
        let name = sig.ident.to_string();
        let mut ex = HasExit::default();
        ex.visit_block(block);
        let mut cu = CountUse { name: &name, n: 0 };
        cu.visit_block(block);
        let exits = ex.yes;
        let ok = cu.n == 0;
        let common = self.baseline_in.values().any(|b| b.split(' ').any(|w| w == name));
        const STD: [&str; 40] = ["unwrap", "expect", "len", "get", "get_mut", "push", "pop", "new", "clone", "iter", "iter_mut", "next", "into_iter", "is_empty", "insert", "remove", "take", "map", "fmt", "from", "into", "eq", "cmp", "add", "default", "read", "write", "seek", "flush", "contains", "extend", "append", "clear", "truncate", "first", "last", "as_ref", "as_mut", "entry", "open"];
        // a body that names its own type parameters cannot be moved
        let mut toks = vec![];
        for t in quote!(#block) { toks.extend(flat(t)); }
        let ok = ok && !sig.generics.type_params().any(|g| toks.iter().any(|t| *t == g.ident.to_string()));
        let has_self = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
        let own = toks.iter().any(|t| t == "Self");
        let full = format!("{}::{}", base_of(&key), name);
        for (n, ok) in [(name.clone(), ok && !common && !STD.contains(&name.as_str())), (full, ok)] {
            if let Some(o) = self.unknown.get_mut(&n) { o.ok = false; }
            else { self.unknown.insert(n, Helper { key: key.clone(), sig: sig.clone(), block: block.clone(), has_self, ok, exits, own }); }
        }
    }

    fn module(&mut self, items: Vec<Item>, path: &str) -> TokenStream {
        let mut ts = quote!(use vstd::prelude::*; #[allow(unused_imports)] use crate::vspec::*; #[allow(unused_imports)] use crate::stub::ext::*;);
        if path == "huff" || path.starts_with("huff::") { ts.extend(quote!(#[allow(unused_imports)] use crate::vworld::ext::*;)); }
        for it in items { let t = self.item(it, path); ts.extend(t); }
        if let Some(x) = self.specs.items.get(path).cloned() { let m = self.m(format!("// @fn {}::(ghost items)\n{}\n// @endfn\n", path, x)); ts.extend(m); }
        ts
    }

    fn pub_fields(&self, f: &mut Fields) {
        match f {
            Fields::Named(n) => for x in n.named.iter_mut() { x.vis = parse_quote!(pub); strip_docs(&mut x.attrs) },
            Fields::Unnamed(n) => for x in n.unnamed.iter_mut() { x.vis = parse_quote!(pub); strip_docs(&mut x.attrs) },
            Fields::Unit => {}
        }
    }

    fn derives(&mut self, attrs: &[Attribute], name: &Ident, gen: &Generics, path: &str) -> (TokenStream, TokenStream) {
        let mut set = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { if let Some(s) = m.path.segments.last() { set.insert(s.ident.to_string()); } Ok(()) });
            }
        }
        let mut pre = TokenStream::new();
        let mut post = TokenStream::new();
        let (ig, tg, wc) = gen.split_for_impl();
        let key = format!("{}::{}", path, name);
        if set.contains("Copy") && set.contains("Clone") { pre.extend(quote!(#[derive(Clone, Copy)])); }
        else if set.contains("Clone") {
            let k = format!("{}::Clone::clone", key);
            let sp = self.specs.fns.get_mut(&k).map(|f| { f.seen = true; f.spec.clone() }).unwrap_or_default();
            self.dropped.push(format!("derive(Clone) of {} -> trusted contract", key));
            let l = lit(self.a(sp));
            post.extend(quote!(impl #ig Clone for #name #tg #wc { #[verifier::external_body] fn clone(&self) -> __vxinl!{(r: Self)} { __vxspec!(#l); unimplemented!() } }));
        }
        if set.contains("PartialEq") { pre.extend(quote!(#[derive(PartialEq)])); }
        if set.contains("Eq") { post.extend(quote!(impl #ig Eq for #name #tg #wc {})); }
        if set.contains("Default") { pre.extend(quote!(#[derive(Default)])); }
        for d in &set { if !["Clone", "Copy", "PartialEq", "Eq", "Default"].contains(&d.as_str()) { self.dropped.push(format!("derive({}) of {}", d, key)); } }
        (pre, post)
    }
    fn item_attr(&mut self, key: &str) -> TokenStream {
        match self.specs.attrs.get(key).cloned() { Some(t) => t.parse().unwrap(), None => TokenStream::new() }
    }

    fn item(&mut self, it: Item, path: &str) -> TokenStream {
        match it {
            Item::Mod(m) => {
                let id = &m.ident;
                let p = format!("{}::{}", path, id);
                let inner = m.content.map(|c| c.1).unwrap_or_default();
                let ts = self.module(inner, &p);
                quote!(pub mod #id { #ts })
            }
            Item::Use(mut u) => { u.attrs.clear(); quote!(#u) }
            Item::Const(mut c) => { strip_docs(&mut c.attrs); c.vis = parse_quote!(pub); if let Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } } quote!(#c) }
            Item::Static(c) => { self.dropped.push(format!("static {}", c.ident)); TokenStream::new() }
            Item::Type(mut c) => { strip_docs(&mut c.attrs); c.vis = parse_quote!(pub); quote!(#c) }
            Item::Struct(mut s) => {
                let key = format!("{}::{}", path, s.ident);
                let (pre, post) = self.derives(&s.attrs.clone(), &s.ident.clone(), &s.generics.clone(), path);
                strip_docs(&mut s.attrs);
                s.vis = parse_quote!(pub);
                if !self.specs.private.contains(&format!("{}::{}", path, s.ident)) { self.pub_fields(&mut s.fields); }
                let at = self.item_attr(&key);
                quote!(#at #pre #s #post)
            }
            Item::Enum(mut s) => {
                let key = format!("{}::{}", path, s.ident);
                let (pre, post) = self.derives(&s.attrs.clone(), &s.ident.clone(), &s.generics.clone(), path);
                strip_docs(&mut s.attrs);
                for v in s.variants.iter_mut() { strip_docs(&mut v.attrs); }
                s.vis = parse_quote!(pub);
                let at = self.item_attr(&key);
                quote!(#at #pre #s #post)
            }
            Item::Trait(mut t) => {
                let key = format!("{}::{}", path, t.ident);
                strip_docs(&mut t.attrs);
                t.vis = parse_quote!(pub);
                let at = self.item_attr(&key);
                let mut inner = TokenStream::new();
                if let Some(x) = self.specs.traititems.get(&key).cloned() {
                    // R8: `into_iter` of the trait is used through `vx_into_iter`
                    if x.contains("vx_into_iter") {
                        let n = t.supertraits.len();
                        t.supertraits = t.supertraits.into_iter().filter(|b| !normt(b).starts_with("IntoIterator")).collect();
                        if t.supertraits.len() != n { self.dropped.push(format!("supertrait IntoIterator of {} -> contract on vx_into_iter", key)); }
                    }
                    inner.extend(self.m(x));
                }
                for x in std::mem::take(&mut t.items) {
                    match x {
                        TraitItem::Fn(mut f) => {
                            strip_docs(&mut f.attrs);
                            let k = format!("{}::{}", key, f.sig.ident);
                            let (ts, extra) = self.func(&k, f.attrs, None, f.sig, f.default, path);
                            inner.extend(ts);
                            if !extra.is_empty() { self.notes.push(format!("nested fn in trait {}", k)); }
                        }
                        x => inner.extend(quote!(#x)),
                    }
                }
                let (id, g, st, wc) = (&t.ident, &t.generics, &t.supertraits, &t.generics.where_clause);
                let colon = if st.is_empty() { quote!() } else { quote!(:) };
                quote!(#at pub trait #id #g #colon #st #wc { #inner })
            }
            Item::Impl(mut i) => {
                strip_docs(&mut i.attrs);
                let tr = i.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let tk = ty_key(&i.self_ty);
                let key = match &tr { Some(t) => format!("{}::{}::{}", path, tk, t), None => format!("{}::{}", path, tk) };
                let drop_std = matches!(tr.as_deref(), Some("Display") | Some("Debug") | Some("Error"));
                if drop_std || self.specs.dropimpl.contains(&key) { self.dropped.push(format!("impl {}", key)); return TokenStream::new(); }
                let at = self.item_attr(&key);
                let mut inner = TokenStream::new();
                if let Some(x) = self.specs.traititems.get(&key).cloned() { inner.extend(self.m(x)); }
                let mut extra = TokenStream::new();
                for x in std::mem::take(&mut i.items) {
                    match x {
                        ImplItem::Fn(mut f) => {
                            strip_docs(&mut f.attrs);
                            let k = format!("{}::{}", key, f.sig.ident);
                            let vis = if tr.is_none() { Some(()) } else { None };
                            let (ts, ex) = self.func(&k, f.attrs, vis, f.sig, Some(f.block), path);
                            inner.extend(ts);
                            extra.extend(ex);
                        }
                        ImplItem::Const(mut c) => { strip_docs(&mut c.attrs); if tr.is_none() { c.vis = parse_quote!(pub); } inner.extend(quote!(#c)) }
                        x => inner.extend(quote!(#x)),
                    }
                }
                let (g, wc, st) = (&i.generics, &i.generics.where_clause, &i.self_ty);
                let t = match &i.trait_ { Some((b, p, f)) => quote!(#b #p #f), None => quote!() };
                quote!(#at impl #g #t #st #wc { #inner } #extra)
            }
            Item::Fn(mut f) => {
                strip_docs(&mut f.attrs);
                let k = format!("{}::{}", path, f.sig.ident);
                let (ts, ex) = self.func(&k, f.attrs, Some(()), f.sig, Some(*f.block), path);
                quote!(#ts #ex)
            }
            x => { self.dropped.push(format!("item {}", tstr(&x).chars().take(60).collect::<String>())); TokenStream::new() }
        }
    }

    /// one function: rewrites, then annotations; returns (itself, lifted nested functions)
    fn func(&mut self, key: &str, attrs: Vec<Attribute>, vis: Option<()>, mut sig: Signature, block: Option<Block>, path: &str) -> (TokenStream, TokenStream) {
        let mut extra = TokenStream::new();
        let is_unknown = !self.specs.fns.contains_key(key) && block.is_some();
        let mut lost: Vec<String> = vec![];
        let mut inlined: Vec<String> = vec![];
        let had_block = block.is_some();
        let mut block = block.unwrap_or_else(|| parse_quote!({}));

        // R2: nested functions move to module level
        let nested: Vec<ItemFn> = block.stmts.iter().filter_map(|s| match s { Stmt::Item(Item::Fn(f)) => Some(f.clone()), _ => None }).collect();
        if !nested.is_empty() {
            block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(_))));
            let map: HashMap<String, Ident> = nested.iter().map(|f| (f.sig.ident.to_string(), format_ident!("{}__{}", sig.ident, f.sig.ident))).collect();
            Rename { map: &map }.visit_block_mut(&mut block);
            for mut f in nested {
                let k = format!("{}::{}", key, f.sig.ident);
                f.sig.ident = map[&f.sig.ident.to_string()].clone();
                Rename { map: &map }.visit_block_mut(&mut f.block);
                strip_docs(&mut f.attrs);
                let (ts, ex) = self.func(&k, f.attrs, Some(()), f.sig, Some(*f.block), path);
                extra.extend(ts);
                extra.extend(ex);
            }
        }
        // R9: `mut self` by value becomes a local
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                if had_block {
                    let w = format_ident!("vx_self");
                    SelfSub { with: w.clone() }.visit_block_mut(&mut block);
                    block.stmts.insert(0, parse_quote!(let mut #w = self;));
                }
            }
        }
        // R3: local closures that are only called are inlined
        {
            let mut outer = OuterBindings::default();
            for i in &sig.inputs { outer.visit_fn_arg(i); }
            outer.visit_block(&block);
            ClosureBlocks { outer: outer.v }.visit_block_mut(&mut block);
        }
        // R4: calls to functions that carry no contract are inlined
        if !is_unknown || true {
            let tab = self.unknown.clone();
            let mut hi = HelperInline { tab: &tab, used: vec![], failed: vec![], n: 0, this: key.to_string(), ret: ret_of(&sig), err: err_of(&sig), closure: 0 };
            if let Some(Stmt::Expr(x, None)) = block.stmts.last_mut() { hi.tail(x); }
            hi.visit_block_mut(&mut block);
            inlined = hi.used.clone();
            for f in hi.failed { lost.push(format!("call to {} which has no contract", f)); }
        }
        // R16-R19
        crate::desugar::all(&mut block);
        // R5/R6
        {
            let mut refs: Vec<String> = vec![];
            for i in &sig.inputs { if let FnArg::Typed(t) = i { if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_none() && ["u8", "u16", "u32", "u64", "usize"].contains(&normt(&r.elem).as_str()) { refs.push(p.ident.to_string()); } } } }
            let mut wty: Vec<String> = vec![];
            let hasw = |b: &punctuated::Punctuated<TypeParamBound, Token![+]>| b.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map_or(false, |s| s.ident == "Weights")));
            for g in sig.generics.type_params() { if hasw(&g.bounds) { wty.push(g.ident.to_string()); } }
            if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if hasw(&t.bounds) { wty.push(normt(&t.bounded_ty)); } } } }
            let mut weights: Vec<String> = vec![];
            for i in &sig.inputs { if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat {
                let imp = if let Type::ImplTrait(it) = &*t.ty { hasw(&it.bounds) } else { false };
                if imp || wty.contains(&normt(&t.ty)) { weights.push(p.ident.to_string()); }
            } } }
            let maybe = { let mut m = MaybeRefs::default(); m.visit_block(&block); m.v };
            let mut rw = Rewrite { dropped: &mut self.dropped, refs, maybe, weights, tmp: 0 };
            rw.visit_block_mut(&mut block);
        }
        // R13, R12, R14
        {
            crate::world::StrMatch { n: 0 }.visit_block_mut(&mut block);
            let uses: Vec<Stmt> = std::mem::take(&mut block.stmts);
            for s in uses {
                if let Stmt::Item(Item::Use(u)) = &s {
                    let mut fl = vec![];
                    flatten_use(&u.tree, &[], &mut fl);
                    if fl.iter().all(|(segs, _)| map_segs(segs, &self.specs.paths, &self.crate_name).map_or(false, |m| m[0] == "drop")) { continue; }
                }
                block.stmts.push(s);
            }
            if self.specs.fns.get(key).map_or(false, |f| f.world) {
                let (calls, methods, fns) = crate::world::table(&self.specs);
                crate::world::World { calls: &calls, methods: &methods, fns: &fns, dropped: &mut self.dropped }.visit_block_mut(&mut block);
                crate::world::add_param(&mut sig);
            }
        }

        let spec = self.specs.fns.get(key).cloned();
        let toks = normal_tokens(&quote!(#sig #block));
        if spec.is_some() { self.baseline_out.insert(key.to_string(), toks.clone()); }
        let mut spec: FnSpec = spec.unwrap_or_default();
        if let Some(f) = self.specs.fns.get_mut(key) { f.seen = true; }
        let mut renames: BTreeMap<String, String> = BTreeMap::new();
        let mut changed = false;
        if let Some(b) = self.baseline_in.get(key) {
            if *b != toks { changed = true; renames = infer_renames(b, &toks); }
        }
        if !renames.is_empty() {
            let f = |s: &mut String| { *s = rename_text(s, &renames) };
            f(&mut spec.spec);
            for l in spec.loops.values_mut() { f(&mut l.1); }
            for l in spec.closures.values_mut() { f(&mut l.1); }
            for l in spec.at.iter_mut() {
                f(&mut l.1);
                match &mut l.0 { Anchor::Before(_, p) | Anchor::After(_, p) => f(p), _ => {} }
            }
        }
        if changed {
            let b = rename_text(&self.baseline_in[key], &renames);
            follow_loops(&mut spec, &loops_in(&b), &loops_in(&toks));
        }
        let external = self.ext.contains(key) || (is_unknown && had_block);

        // annotations
        let mut nloops = 0;
        let mut loop_kinds: Vec<&'static str> = vec![];
        if had_block && !external {
            let (ids, used, kinds) = {
                let mut lm = LoopMark { ann: &mut self.ann, spec: &spec.loops, n: 0, ids: vec![], kinds: vec![], used: Default::default() };
                lm.visit_block_mut(&mut block);
                (lm.ids, lm.used, lm.kinds)
            };
            nloops = ids.len();
            loop_kinds = kinds;
            for k in spec.loops.keys() { if !used.contains(k) { lost.push(format!("loop {}", k)); } }
            for k in 0..nloops { if !spec.loops.contains_key(&k) { lost.push(format!("loop {} has no invariant", k)); } }
            let cused = {
                let mut cm = ClosureMark { ann: &mut self.ann, spec: &spec.closures, n: 0, used: Default::default() };
                cm.visit_block_mut(&mut block);
                cm.used
            };
            for k in spec.closures.keys() { if !cused.contains(k) { lost.push(format!("closure {}", k)); } }
            // pattern anchors first, so that later insertions cannot disturb them
            let mut ats: Vec<(usize, Anchor, String)> = spec.at.iter().cloned().enumerate().map(|(i, (a, t))| (i, a, t)).collect();
            ats.sort_by_key(|(_, a, _)| match a { Anchor::Before(..) | Anchor::After(..) => 0, _ => 1 });
            for (_, a, text) in ats {
                let id = self.a(text);
                match a {
                    Anchor::Start => block.stmts.insert(0, marker(id)),
                    Anchor::End => {
                        match block.stmts.pop() {
                            Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                                block.stmts.push(parse_quote!(let vx_ret = #e;));
                                block.stmts.push(marker(id));
                                block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                            }
                            Some(Stmt::Expr(e, None)) => { block.stmts.push(Stmt::Expr(e, Some(Default::default()))); block.stmts.push(marker(id)); }
                            Some(s) => { block.stmts.push(s); block.stmts.push(marker(id)); }
                            None => block.stmts.push(marker(id)),
                        }
                    }
                    Anchor::LoopBegin(k) | Anchor::LoopEnd(k) | Anchor::BeforeLoop(k) | Anchor::AfterLoop(k) => {
                        if k >= ids.len() { lost.push(format!("{:?}", a)); continue; }
                        let how = match a { Anchor::LoopBegin(_) => 0, Anchor::LoopEnd(_) => 1, Anchor::BeforeLoop(_) => 2, _ => 3 };
                        let mut v = AtLoop { id: ids[k], ann: id, how, done: false };
                        v.visit_block_mut(&mut block);
                        if !v.done { lost.push(format!("{:?}", a)); }
                    }
                    Anchor::Before(n, p) => { let mut v = AtPat { pat: p.clone(), n, ann: id, after: false, count: 0, done: false }; v.visit_block_mut(&mut block); if !v.done { lost.push(format!("before {} `{}`", n, p)); } }
                    Anchor::After(n, p) => { let mut v = AtPat { pat: p.clone(), n, ann: id, after: true, count: 0, done: false }; v.visit_block_mut(&mut block); if !v.done { lost.push(format!("after {} `{}`", n, p)); } }
                }
            }
        }
        if let ReturnType::Type(_, t) = &sig.output {
            let r = format_ident!("{}", spec.ret.clone().unwrap_or_else(|| "r".into()));
            sig.output = parse_quote!(-> __vxinl!{(#r: #t)});
        }
        let mut at = TokenStream::new();
        for a in &spec.attrs { let t: TokenStream = a.parse().unwrap_or_default(); at.extend(quote!(#[verifier::#t])); }
        if external && had_block { at.extend(quote!(#[verifier::external_body])); }
        let vis_ts = if vis.is_some() { quote!(pub) } else { quote!() };
        let begin = self.m(format!("// @fn {}\n", key));
        let end = self.m("// @endfn\n".to_string());
        let ts = if had_block {
            let mut text = spec.spec.clone();
            if is_unknown { text = String::new(); }
            let l = lit(self.a(text));
            let body: TokenStream = if external { quote!(unimplemented!()) } else { let st = &block.stmts; quote!(#(#st)*) };
            quote!(#begin #(#attrs)* #at #vis_ts #sig { __vxspec!(#l); #body } #end)
        } else {
            let t = spec.spec.trim().trim_end_matches(',').to_string();
            if t.is_empty() { quote!(#begin #(#attrs)* #at #sig; #end) }
            else { let m = self.m(format!("{};\n", spec.spec)); quote!(#begin #(#attrs)* #at #sig #m #end) }
        };
        self.fninfo.push(json!({
            "key": key, "contract": !is_unknown, "external": external, "spec_nonempty": !spec.spec.trim().is_empty(),
            "lost": lost, "inlined": inlined, "loops": nloops, "loop_kinds": loop_kinds, "changed": changed, "renames": renames, "has_body": had_block,
        }));
        (ts, extra)
    }
}

fn normal_tokens(ts: &TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), proc_macro2::Delimiter::Parenthesis => ("(", ")"), _ => ("", "") };
                    if !a.is_empty() { out.push(a.into()); }
                    go(g.stream(), out);
                    if !b.is_empty() { out.push(b.into()); }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(ts.clone(), &mut v);
    v.join(" ")
}
const KEYWORDS: [&str; 30] = ["if", "else", "match", "for", "while", "loop", "let", "mut", "ref", "return", "break", "continue", "in", "fn", "true", "false", "as", "self", "Self", "move", "impl", "pub", "use", "mod", "struct", "enum", "where", "crate", "super", "_"];
fn is_ident(s: &str) -> bool { !KEYWORDS.contains(&s) && s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') && s.chars().all(|c| c.is_alphanumeric() || c == '_') }

/// identifiers that were consistently replaced by another one since the baseline
/// the texts of the loops of a function, in order
fn loops_in(toks: &str) -> Vec<Vec<String>> {
    let t: Vec<&str> = toks.split(' ').collect();
    let mut out = vec![];
    for i in 0..t.len() {
        let kw = (t[i] == "for" && t.get(i + 1) != Some(&"<")) || t[i] == "while" || t[i] == "loop";
        if !kw || (i > 0 && t[i - 1] == ".") { continue; }
        let (mut depth, mut j) = (0i32, i + 1);
        while j < t.len() && !(depth == 0 && t[j] == "{") {
            match t[j] { "(" | "[" | "{" => depth += 1, ")" | "]" | "}" => depth -= 1, _ => {} }
            j += 1;
        }
        depth = 0;
        while j < t.len() {
            match t[j] { "{" => depth += 1, "}" => { depth -= 1; if depth == 0 { break; } } _ => {} }
            j += 1;
        }
        out.push(t[i..t.len().min(j + 1)].iter().map(|x| x.to_string()).collect());
    }
    out
}
/// how much of two token sequences is shared, in order, of 100
fn alike(a: &[String], b: &[String]) -> i64 {
    if a.len() * b.len() > 4_000_000 { return 0; }
    let mut d = vec![vec![0i64; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() { for j in (0..b.len()).rev() { d[i][j] = if a[i] == b[j] { d[i + 1][j + 1] + 1 } else { d[i + 1][j].max(d[i][j + 1]) }; } }
    200 * d[0][0] / (a.len() + b.len()).max(1) as i64
}
/// when loops came or went, the invariants stay with the loops they were written for
fn follow_loops(spec: &mut FnSpec, old: &[Vec<String>], new: &[Vec<String>]) {
    if old.len() == new.len() || old.is_empty() { return; }
    let (n, m) = (old.len(), new.len());
    let sim: Vec<Vec<i64>> = old.iter().map(|a| new.iter().map(|b| { let x = alike(a, b); if x < 40 { -1 } else { x } }).collect()).collect();
    let mut d = vec![vec![0i64; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { d[i][j] = d[i + 1][j].max(d[i][j + 1]); if sim[i][j] >= 0 { d[i][j] = d[i][j].max(d[i + 1][j + 1] + sim[i][j]); } } }
    let mut to: Vec<usize> = (0..n).map(|k| 1000 + k).collect();
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if sim[i][j] >= 0 && d[i][j] == d[i + 1][j + 1] + sim[i][j] { to[i] = j; i += 1; j += 1; }
        else if d[i][j] == d[i + 1][j] { i += 1 } else { j += 1 }
    }
    let f = |k: usize| to.get(k).copied().unwrap_or(1000 + k);
    spec.loops = std::mem::take(&mut spec.loops).into_iter().map(|(k, v)| (f(k), v)).collect();
    for a in spec.at.iter_mut() {
        match &mut a.0 { Anchor::LoopBegin(k) | Anchor::LoopEnd(k) | Anchor::BeforeLoop(k) | Anchor::AfterLoop(k) => *k = f(*k), _ => {} }
    }
}
fn infer_renames(old: &str, new: &str) -> BTreeMap<String, String> {
    let a: Vec<&str> = old.split(' ').collect();
    let b: Vec<&str> = new.split(' ').collect();
    let (n, m) = (a.len(), b.len());
    if n * m > 4_000_000 { return Default::default(); }
    // cost alignment: equal 0, identifier-for-identifier 1.0 (x10), gap 8
    let sub = |x: &str, y: &str| -> i64 { if x == y { 0 } else if is_ident(x) && is_ident(y) { 10 } else { 20 } };
    let gap = 8i64;
    let mut d = vec![vec![0i64; m + 1]; n + 1];
    for i in 0..=n { d[i][m] = gap * (n - i) as i64; }
    for j in 0..=m { d[n][j] = gap * (m - j) as i64; }
    for i in (0..n).rev() { for j in (0..m).rev() { d[i][j] = (d[i + 1][j + 1] + sub(a[i], b[j])).min(d[i + 1][j] + gap).min(d[i][j + 1] + gap); } }
    let (mut i, mut j) = (0, 0);
    let mut votes: BTreeMap<(String, String), usize> = BTreeMap::new();
    while i < n && j < m {
        if d[i][j] == d[i + 1][j + 1] + sub(a[i], b[j]) {
            if a[i] != b[j] && is_ident(a[i]) && is_ident(b[j]) { *votes.entry((a[i].into(), b[j].into())).or_default() += 1; }
            i += 1; j += 1;
        } else if d[i][j] == d[i + 1][j] + gap { i += 1 } else { j += 1 }
    }
    let olds: HashSet<&str> = a.iter().cloned().collect();
    let news: HashSet<&str> = b.iter().cloned().collect();
    let mut best: BTreeMap<String, (String, usize)> = BTreeMap::new();
    for ((x, y), c) in votes {
        if news.contains(x.as_str()) || olds.contains(y.as_str()) { continue; } // a rename removes the old name and introduces a new one
        let e = best.entry(x).or_insert((y.clone(), 0));
        if c > e.1 { *e = (y, c); }
    }
    best.into_iter().map(|(k, v)| (k, v.0)).collect()
}
fn rename_text(s: &str, r: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    let mut prev_dot = false;
    let flush = |cur: &mut String, out: &mut String, prev_dot: bool| {
        if !cur.is_empty() {
            match r.get(cur.as_str()) { Some(n) if !prev_dot => out.push_str(n), _ => out.push_str(cur) }
            cur.clear();
        }
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' { cur.push(c); }
        else {
            let had = !cur.is_empty();
            flush(&mut cur, &mut out, prev_dot);
            if had || c != ' ' { prev_dot = c == '.'; }
            out.push(c);
        }
    }
    flush(&mut cur, &mut out, prev_dot);
    out
}
