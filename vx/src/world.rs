//! Rules for the command-line crate.
//!
//! R12: functions marked `world` take one more, ghost, parameter (the state of the file
//! system and what the user said), and so does every operation listed with `@worldcall`
//! and `@worldmethod`; the parameter is erased when compiled.
//! R13: `match` over string literals becomes a chain of comparisons.
//! R15: `collect::<String>()` and `starts_with("…")` go through traits with the same meaning.
//! R14: `write!`/`writeln!` become one opaque write to their destination.
use crate::annot::Specs;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm_path(p: &Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }

pub struct World<'a> { pub calls: &'a [Vec<String>], pub methods: &'a HashSet<String>, pub fns: &'a HashSet<String>, pub dropped: &'a mut Vec<String> }
fn arg() -> Expr { parse_quote!(Tracked(&mut *vx_w)) }
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "write" || n == "writeln" {
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let end = ts.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).unwrap_or(ts.len());
                let dst: TokenStream = ts[..end].iter().cloned().collect();
                if let Ok(d) = parse2::<Expr>(dst) {
                    self.dropped.push(format!("{}!({})", n, m.mac.tokens));
                    *e = parse_quote!((#d).vx_write_text(Tracked(&mut *vx_w)));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // R15: text operations that are generic in std
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() && m.turbofish.as_ref().map_or(false, |t| quote!(#t).to_string().replace(' ', "") == "::<String>") { m.method = format_ident!("vx_collect_string"); m.turbofish = None; }
            if m.method == "starts_with" && m.args.len() == 1 {
                // a text starts with a character when it starts with the text of it alone
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] { let l = LitStr::new(&c.value().to_string(), c.span()); m.args[0] = parse_quote!(#l); }
            }
            if m.method == "starts_with" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) { m.method = format_ident!("vx_starts_with"); }
        }
        match e {
            Expr::MethodCall(m) if self.methods.contains(&m.method.to_string()) => m.args.push(arg()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs = norm_path(&p.path);
                    let last = segs.last().cloned().unwrap_or_default();
                    if self.calls.iter().any(|x| segs.len() >= x.len() && segs[segs.len() - x.len()..] == x[..]) || self.fns.contains(&last) { c.args.push(arg()) }
                }
            }
            _ => {}
        }
    }
}

fn str_pat(p: &Pat) -> Option<Vec<Lit>> {
    match p {
        Pat::Lit(l) => match &l.lit { Lit::Str(_) => Some(vec![l.lit.clone()]), _ => None },
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(str_pat(c)?); } Some(v) }
        Pat::Paren(p) => str_pat(&p.pat),
        _ => None,
    }
}
/// R13
pub struct StrMatch { pub n: usize }
impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            if !m.arms.iter().any(|a| str_pat(&a.pat).is_some()) { return; }
            let last = match m.arms.last() { Some(l) => l.clone(), None => return };
            let whole = |p: &Pat| matches!(p, Pat::Wild(_));
            if !whole(&last.pat) || last.guard.is_some() { return; }
            self.n += 1;
            let id = format_ident!("vx_str{}", self.n);
            // `&x[..]` and `x.as_str()` are the whole text
            let mut s = (*m.expr).clone();
            if let Expr::Reference(r) = &s { if let Expr::Index(i) = &*r.expr { if let Expr::Range(g) = &*i.index { if g.start.is_none() && g.end.is_none() { let x = i.expr.clone(); s = parse_quote!(#x.vx_text()); } } } }
            let b = &last.body;
            let mut out: Expr = parse_quote!({ #b });
            for a in m.arms.iter().rev().skip(1) {
                let lits = match str_pat(&a.pat) { Some(l) => l, None => return };
                let mut cond: Expr = parse_quote!(true);
                for (k, l) in lits.iter().enumerate() {
                    let c: Expr = parse_quote!(crate::vworld::str_is(#id, #l));
                    cond = if k == 0 { c } else { parse_quote!(#cond || #c) };
                }
                if let Some((_, g)) = &a.guard { cond = parse_quote!((#cond) && (#g)); }
                let b = &a.body;
                out = parse_quote!(if #cond { #b } else #out);
            }
            *e = parse_quote!({ let #id: &str = #s; #out });
        }
    }
}

pub fn add_param(sig: &mut Signature) {
    sig.inputs.push(parse_quote!(Tracked(vx_w): Tracked<&mut crate::vworld::World>));
}
pub fn table(specs: &Specs) -> (Vec<Vec<String>>, HashSet<String>, HashSet<String>) {
    let calls = specs.worldcalls.iter().map(|c| c.split("::").map(|x| x.to_string()).collect()).collect();
    let methods = specs.worldmethods.iter().cloned().collect();
    let fns = specs.fns.iter().filter(|(_, f)| f.world).map(|(k, _)| k.rsplit("::").next().unwrap().to_string()).collect();
    (calls, methods, fns)
}
