//! Rewritings of one construct by another with the same meaning, for constructs the verifier
//! has no or weaker rules for.  Everything here is an equivalence of Rust, whatever the types.
use proc_macro2::Ident;
use quote::format_ident;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---- `return`, `?`, `break` or `continue` in a closure's body mean something else outside it
#[derive(Default)]
struct Jumps { yes: bool }
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.yes = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.yes = true; }
    fn visit_expr_await(&mut self, _: &'a ExprAwait) { self.yes = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) { if jumps_in(m.tokens.clone()) { self.yes = true; } }
}
fn jumps_in(ts: proc_macro2::TokenStream) -> bool {
    use proc_macro2::TokenTree::*;
    ts.into_iter().any(|t| match t { Group(g) => jumps_in(g.stream()), Ident(i) => i == "return" || i == "break" || i == "continue", Punct(p) => p.as_char() == '?', Literal(_) => false })
}
fn closure(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() != n || c.asyncness.is_some() { return None; }
    let mut j = Jumps::default();
    j.visit_expr(&c.body);
    if j.yes { return None; }
    let ps: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
    // a pattern that always matches
    if !ps.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_)) || matches!(p, Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_) | Pat::Wild(_)))) { return None; }
    Some((ps, (*c.body).clone()))
}
/// R16: methods of Option and Result whose argument is a closure become a `match`
pub struct Combinators;
impl VisitMut for Combinators {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        if m.turbofish.is_some() { return; }
        let x = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let r: Option<Expr> = match (m.method.to_string().as_str(), a.as_slice()) {
            ("ok_or_else", [f]) => closure(f, 0).map(|(_, b)| parse_quote!((match #x { Some(vx_v) => Ok(vx_v), None => Err(#b) }))),
            ("map_err", [f]) => closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })) }),
            ("or_else", [f]) => closure(f, 0).map(|(_, b)| parse_quote!((match #x { Some(vx_v) => Some(vx_v), None => #b })))
                .or_else(|| closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Ok(vx_v) => Ok(vx_v), Err(#p) => #b })) })),
            ("unwrap_or_else", [f]) => closure(f, 0).map(|(_, b)| parse_quote!((match #x { Some(vx_v) => vx_v, None => #b })))
                .or_else(|| closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Ok(vx_v) => vx_v, Err(#p) => #b })) })),
            ("map_or_else", [d, f]) => match (closure(d, 0), closure(d, 1), closure(f, 1)) {
                (Some((_, d)), _, Some((p, b))) => { let p = &p[0]; Some(parse_quote!((match #x { Some(#p) => #b, None => #d }))) }
                (_, Some((q, d)), Some((p, b))) => { let (p, q) = (&p[0], &q[0]); Some(parse_quote!((match #x { Ok(#p) => #b, Err(#q) => #d }))) }
                _ => None,
            },
            ("is_some_and", [f]) => closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Some(#p) => #b, None => false })) }),
            ("is_none_or", [f]) => closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Some(#p) => #b, None => true })) }),
            ("is_ok_and", [f]) => closure(f, 1).map(|(p, b)| { let p = &p[0]; parse_quote!((match #x { Ok(#p) => #b, Err(_) => false })) }),
            ("or_default", []) if matches!(&**x, Expr::MethodCall(e) if e.method == "entry") => Some(parse_quote!(#x.or_insert(Default::default()))),
            _ => None,
        };
        if let Some(r) = r { *e = r; }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

/// R17: `assert_eq!` and the like become the test they make
pub struct Asserts;
impl Asserts {
    fn of(&self, m: &Macro) -> Option<Expr> {
        let n = m.path.get_ident()?.to_string();
        let eq = match n.trim_start_matches("debug_") { "assert_eq" => true, "assert_ne" => false, _ => return None };
        let a: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
        if a.len() < 2 { return None; }
        let (a, b) = (&a[0], &a[1]);
        Some(if eq { parse_quote!({ if !((#a) == (#b)) { panic!("assertion failed") } }) } else { parse_quote!({ if (#a) == (#b) { panic!("assertion failed") } }) })
    }
}
impl VisitMut for Asserts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = self.of(&m.mac) { *e = x; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { if let Some(x) = self.of(&m.mac) { *s = Stmt::Expr(x, None); } }
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct Ren<'a> { from: &'a str, to: Ident, hard: bool }
impl<'a> VisitMut for Ren<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(self.from) { p.path = Path::from(self.to.clone()); } }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.from { self.hard = true; } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if m.tokens.to_string().contains(self.from) { self.hard = true; } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
}
/// R18: `for &x in e` and `for x in e.iter().copied()` bind the reference, and the value in the body
pub struct RefPats;
impl VisitMut for RefPats {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        let mut name: Option<Ident> = None;
        if let Pat::Reference(r) = &*f.pat { if r.mutability.is_none() { if let Pat::Ident(p) = &*r.pat { if p.by_ref.is_none() && p.mutability.is_none() && p.subpat.is_none() { name = Some(p.ident.clone()); } } } }
        let mut strip = false;
        if let (Pat::Ident(p), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
            if m.method == "copied" && m.args.is_empty() && p.mutability.is_none() && p.by_ref.is_none() { name = Some(p.ident.clone()); strip = true; }
        }
        let Some(n) = name else { return };
        let v = format_ident!("vx_{}", n);
        let mut body = f.body.clone();
        let mut r = Ren { from: &n.to_string(), to: v.clone(), hard: false };
        r.visit_block_mut(&mut body);
        if r.hard { return; }
        body.stmts.insert(0, parse_quote!(let #v = *#n;));
        f.body = body;
        f.pat = Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: n, subpat: None }));
        if strip { if let Expr::MethodCall(m) = &*f.expr { f.expr = m.receiver.clone(); } }
    }
}

// ---- R19: `continue` in a `for` loop: the rest of the body becomes the other branch
#[derive(Default)]
struct Continues { n: usize }
impl<'a> Visit<'a> for Continues {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) { if c.label.is_none() { self.n += 1; } }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn conts_b(b: &Block) -> usize { let mut c = Continues::default(); c.visit_block(b); c.n }
fn conts_s(s: &Stmt) -> usize { let mut c = Continues::default(); c.visit_stmt(s); c.n }
fn conts_e(e: &Expr) -> usize { let mut c = Continues::default(); c.visit_expr(e); c.n }
fn is_cont(e: &Expr) -> bool { matches!(e, Expr::Continue(c) if c.label.is_none()) }
fn as_block(e: &Expr) -> Block {
    match e { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] } }
}
/// the block without the `continue` it ends in, when that is the only one
fn ends(b: &Block) -> Option<Block> {
    if conts_b(b) != 1 { return None; }
    let mut b = b.clone();
    match b.stmts.pop()? {
        Stmt::Expr(e, _) if is_cont(&e) => Some(b),
        Stmt::Expr(e, None) => { let inner = match &e { Expr::Block(x) if x.label.is_none() => ends(&x.block)?, _ => return None }; b.stmts.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: inner }), None)); Some(b) }
        _ => None,
    }
}
fn seal(mut b: Block) -> Block { if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()); } } b }
fn block(stmts: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts } }
/// a list of statements run for their effect
fn list(v: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let i = match v.iter().position(|s| conts_s(s) > 0) { None => return Some(v), Some(i) => i };
    let mut out: Vec<Stmt> = v[..i].to_vec();
    let rest: Vec<Stmt> = v[i + 1..].to_vec();
    let last = rest.is_empty();
    match &v[i] {
        Stmt::Expr(e, _) if is_cont(e) => { return Some(out); }
        Stmt::Expr(Expr::If(x), _) => {
            if conts_e(&x.cond) > 0 { return None; }
            let els: Option<Block> = x.else_branch.as_ref().map(|(_, e)| as_block(e));
            let c = &x.cond;
            if last {
                let t = block(list(x.then_branch.stmts.clone())?);
                out.push(match els { None => Stmt::Expr(parse_quote!(if #c #t), None), Some(b) => { let b = block(list(b.stmts)?); Stmt::Expr(parse_quote!(if #c #t else #b), None) } });
                return Some(out);
            }
            let n = els.as_ref().map_or(0, conts_b);
            if let (Some(t), 0) = (ends(&x.then_branch), n) {
                let mut s = els.map_or(vec![], |b| seal(b).stmts);
                s.extend(rest);
                let (t, b) = (seal(t), block(list(s)?));
                out.push(Stmt::Expr(parse_quote!(if #c #t else #b), None));
                return Some(out);
            }
            if let (0, Some(b)) = (conts_b(&x.then_branch), els.as_ref().and_then(ends)) {
                let mut s = seal(x.then_branch.clone()).stmts;
                s.extend(rest);
                let (t, b) = (block(list(s)?), seal(b));
                out.push(Stmt::Expr(parse_quote!(if #c #t else #b), None));
                return Some(out);
            }
            None
        }
        Stmt::Expr(Expr::Match(x), _) => {
            let mut x = x.clone();
            if conts_e(&x.expr) > 0 { return None; }
            let mut through = 0;
            for a in x.arms.iter_mut() {
                if a.guard.as_ref().map_or(false, |g| conts_e(&g.1) > 0) { return None; }
                let b = as_block(&a.body);
                let b = if conts_b(&b) > 0 && !last { seal(ends(&b)?) } else if last { block(list(seal(b).stmts)?) } else { through += 1; let mut s = seal(b).stmts; s.extend(rest.clone()); block(list(s)?) };
                a.body = Box::new(parse_quote!(#b));
            }
            if through > 1 { return None; }
            out.push(Stmt::Expr(Expr::Match(x), None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let (pat, x) = (&l.pat, &init.expr);
            if let Some((_, d)) = &init.diverge {
                if conts_e(x) > 0 { return None; }
                let (t, b) = (block(list(rest)?), seal(ends(&as_block(d))?));
                out.push(Stmt::Expr(parse_quote!(if let #pat = #x #t else #b), None));
                return Some(out);
            }
            if let Expr::Match(m) = &**x {
                let mut m = m.clone();
                if conts_e(&m.expr) > 0 { return None; }
                let mut through = 0;
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().map_or(false, |g| conts_e(&g.1) > 0) { return None; }
                    let b = as_block(&a.body);
                    let b = if conts_b(&b) > 0 { seal(ends(&b)?) } else { through += 1; let v = &a.body; let mut s: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)]; s.extend(rest.clone()); block(list(s)?) };
                    a.body = Box::new(parse_quote!(#b));
                }
                if through != 1 { return None; }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            None
        }
        _ => None,
    }
}
pub struct NoContinue;
impl VisitMut for NoContinue {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if conts_b(&f.body) == 0 { return; }
        let mut v = f.body.stmts.clone();
        if let Some(Stmt::Expr(e, s)) = v.last_mut() { if s.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_)) { *s = Some(Default::default()); } }
        if let Some(v) = list(v) { f.body.stmts = v; }
    }
}

// ---- R20: a closure that makes a comparison says so
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Lit(_) => true,
        Expr::Paren(p) => plain(&p.expr),
        Expr::Field(f) => plain(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && plain(&u.expr),
        _ => false,
    }
}
pub fn states(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => states(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && states(&u.expr),
        Expr::Binary(b) => match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => plain(&b.left) && plain(&b.right),
            BinOp::And(_) | BinOp::Or(_) => states(&b.left) && states(&b.right),
            _ => false,
        },
        _ => false,
    }
}
pub fn all(b: &mut Block) {
    Counters.visit_block_mut(b);
    Indices.visit_block_mut(b);
    Asserts.visit_block_mut(b);
    Combinators.visit_block_mut(b);
    RefPats.visit_block_mut(b);
    NoContinue.visit_block_mut(b);
    ByRef.visit_block_mut(b);
    Guards.visit_block_mut(b);
}

/// R23: a guarded arm before the last one, `_`, asks the guard inside
struct Guards;
impl VisitMut for Guards {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let n = m.arms.len();
        if n < 2 || !matches!(m.arms[n - 1].pat, Pat::Wild(_)) || m.arms[n - 1].guard.is_some() { return; }
        let b = m.arms[n - 1].body.clone();
        let mut l = Loops { yes: false };
        l.visit_expr(&b);
        if l.yes { return; }
        let Some((_, g)) = m.arms[n - 2].guard.take() else { return };
        let a = &m.arms[n - 2].body;
        m.arms[n - 2].body = Box::new(parse_quote!({ if #g { #a } else { #b } }));
    }
}

/// R22: a `for` loop over what is left of an iterator asks it for one after another
struct ByRef;
impl VisitMut for ByRef {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for s in b.stmts.iter_mut() {
            let Stmt::Expr(e, _) = s else { continue };
            let Expr::ForLoop(f) = &*e else { continue };
            if f.label.is_some() { continue; }
            let x = match &*f.expr {
                Expr::MethodCall(m) if m.method == "by_ref" && m.args.is_empty() => &*m.receiver,
                Expr::Reference(r) if r.mutability.is_some() => &*r.expr,
                _ => continue,
            };
            let Expr::Path(x) = x else { continue };
            if x.path.get_ident().is_none() { continue; }
            let (p, b) = (&f.pat, &f.body);
            *e = parse_quote!(while let Some(#p) = #x.next() #b);
        }
    }
}

// ---- R21: early returns of a function that is moved to where it is called
struct Rets { keep: bool, n: usize }
fn is_err(e: &Expr) -> bool { matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) && c.args.len() == 1) }
impl<'a> Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        if !(self.keep && r.expr.as_ref().map_or(false, |e| is_err(e))) { self.n += 1; }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) { if !self.keep { self.n += 1; } syn::visit::visit_expr_try(self, t); }
    fn visit_expr_await(&mut self, _: &'a ExprAwait) { self.n += 1; }
    fn visit_macro(&mut self, m: &'a Macro) { if jumps_in(m.tokens.clone()) { self.n += 1; } }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
struct Loops { yes: bool }
impl<'a> Visit<'a> for Loops {
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) { self.yes = true; }
    fn visit_expr_while(&mut self, _: &'a ExprWhile) { self.yes = true; }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) { self.yes = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.yes = true; }
}
fn over(s: &[Stmt]) -> bool { matches!(s.last(), Some(Stmt::Expr(e, _)) if over_e(e)) }
fn over_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => over(&b.block.stmts),
        Expr::If(i) => over(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| over_e(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| over_e(&a.body)),
        _ => false,
    }
}
/// the body of a function as a block without `return`: the same value in the end; with `keep`,
/// `return Err(..)` and `?` stay
pub fn no_returns(b: &Block, keep: bool) -> Option<Block> { Some(block(value(b.stmts.clone(), keep)?)) }
fn value(v: Vec<Stmt>, keep: bool) -> Option<Vec<Stmt>> {
    let n_s = |s: &Stmt| { let mut r = Rets { keep, n: 0 }; r.visit_stmt(s); r.n };
    let n_e = |e: &Expr| { let mut r = Rets { keep, n: 0 }; r.visit_expr(e); r.n };
    let i = match v.iter().position(|s| n_s(s) > 0) { None => return Some(v), Some(i) => i };
    let mut out: Vec<Stmt> = v[..i].to_vec();
    let rest: Vec<Stmt> = v[i + 1..].to_vec();
    let twice = { let mut l = Loops { yes: false }; for s in &rest { l.visit_stmt(s); } !l.yes };
    let tail = rest.is_empty() && matches!(&v[i], Stmt::Expr(_, None));
    // what a branch goes on to
    let on = |b: Block, through: &mut usize| -> Option<Block> {
        if tail || over(&b.stmts) { return Some(block(value(b.stmts, keep)?)); }
        *through += 1;
        let mut s = seal(b).stmts;
        s.extend(rest.clone());
        Some(block(value(s, keep)?))
    };
    match &v[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(e) = &r.expr { if n_e(e) > 0 { return None; } out.push(Stmt::Expr((**e).clone(), None)); }
            Some(out)
        }
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
            let mut t = 0;
            let b = on(b.block.clone(), &mut t)?;
            out.push(Stmt::Expr(parse_quote!(#b), None));
            Some(out)
        }
        Stmt::Expr(Expr::If(x), _) => {
            if n_e(&x.cond) > 0 { return None; }
            let mut t = 0;
            let a = on(x.then_branch.clone(), &mut t)?;
            let b = on(x.else_branch.as_ref().map_or(block(vec![]), |(_, e)| as_block(e)), &mut t)?;
            if t > 1 && !twice { return None; }
            let c = &x.cond;
            out.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
            Some(out)
        }
        Stmt::Expr(Expr::Match(x), _) => {
            let mut x = x.clone();
            if n_e(&x.expr) > 0 { return None; }
            let mut t = 0;
            for a in x.arms.iter_mut() {
                if a.guard.as_ref().map_or(false, |g| n_e(&g.1) > 0) { return None; }
                let b = on(as_block(&a.body), &mut t)?;
                a.body = Box::new(parse_quote!(#b));
            }
            if t > 1 && !twice { return None; }
            out.push(Stmt::Expr(Expr::Match(x), None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let (pat, x) = (&l.pat, &init.expr);
            if let Some((_, d)) = &init.diverge {
                if n_e(x) > 0 { return None; }
                let d = as_block(d);
                if !over(&d.stmts) { return None; }
                let (t, b) = (block(value(rest, keep)?), block(value(d.stmts, keep)?));
                out.push(Stmt::Expr(parse_quote!(if let #pat = #x #t else #b), None));
                return Some(out);
            }
            let mut t = 0;
            let mut arm = |e: &Expr| -> Option<Block> {
                let b = as_block(e);
                if over(&b.stmts) { return Some(block(value(b.stmts, keep)?)); }
                if n_e(e) > 0 { return None; }
                t += 1;
                let mut s: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
                s.extend(rest.clone());
                Some(block(value(s, keep)?))
            };
            match &**x {
                Expr::Match(m) => {
                    let mut m = m.clone();
                    if n_e(&m.expr) > 0 { return None; }
                    for a in m.arms.iter_mut() {
                        if a.guard.as_ref().map_or(false, |g| n_e(&g.1) > 0) { return None; }
                        let b = arm(&a.body)?;
                        a.body = Box::new(parse_quote!(#b));
                    }
                    if t > 1 && !twice { return None; }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    Some(out)
                }
                Expr::If(i) => {
                    if n_e(&i.cond) > 0 { return None; }
                    let tb = &i.then_branch;
                    let a = arm(&parse_quote!(#tb))?;
                    let b = arm(&i.else_branch.as_ref()?.1)?;
                    if t > 1 && !twice { return None; }
                    let c = &i.cond;
                    out.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
                    Some(out)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

// ---- loops that count: what is used, and how
struct Uses<'a> { name: &'a str, any: usize, macros: bool }
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_expr_path(&mut self, p: &'b ExprPath) { if p.path.is_ident(self.name) { self.any += 1; } }
    fn visit_macro(&mut self, m: &'b Macro) { if words(m.tokens.clone()).iter().any(|w| w == self.name) { self.any += 1; self.macros = true; } }
    fn visit_pat_ident(&mut self, p: &'b PatIdent) { if p.ident == self.name { self.any += 1; } }
}
fn words(ts: proc_macro2::TokenStream) -> Vec<String> {
    ts.into_iter().flat_map(|t| match t { proc_macro2::TokenTree::Group(g) => words(g.stream()), t => vec![t.to_string()] }).collect()
}
fn uses(ss: &[Stmt], name: &str) -> usize { let mut u = Uses { name, any: 0, macros: false }; for s in ss { u.visit_stmt(s); } u.any }
fn ident_of(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => ident_of(&p.expr), _ => None } }
/// `X` of `X.len()`
fn len_of(e: &Expr) -> Option<String> { match e { Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => ident_of(&m.receiver), _ => None } }
fn int(e: &Expr, v: &str) -> bool { matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.base10_digits() == v) }
/// `X` is only read, as `X[..]`
struct OnlyRead<'a> { name: &'a str, bad: bool }
impl<'a, 'b> Visit<'b> for OnlyRead<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Index(i) if ident_of(&i.expr).as_deref() == Some(self.name) => self.visit_expr(&i.index),
            Expr::Assign(a) if touches(&a.left, self.name) => self.bad = true,
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) && touches(&b.left, self.name) => self.bad = true,
            Expr::Reference(r) if r.mutability.is_some() && touches(&r.expr, self.name) => self.bad = true,
            // a method of an element may change it
            Expr::MethodCall(m) if touches(&m.receiver, self.name) => self.bad = true,
            Expr::Path(p) if p.path.is_ident(self.name) => self.bad = true,
            e => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) { if words(m.tokens.clone()).iter().any(|w| w == self.name) { self.bad = true; } }
    fn visit_pat_ident(&mut self, p: &'b PatIdent) { if p.ident == self.name { self.bad = true; } }
}
/// the place is `X`, or in it
fn touches(e: &Expr, x: &str) -> bool {
    match e {
        Expr::Index(i) => touches(&i.expr, x),
        Expr::Field(f) => touches(&f.base, x),
        Expr::Paren(p) => touches(&p.expr, x),
        e => ident_of(e).as_deref() == Some(x),
    }
}
fn only_read(ss: &[Stmt], x: &str) -> bool { let mut o = OnlyRead { name: x, bad: false }; for s in ss { o.visit_stmt(s); } !o.bad }
fn init_of(s: &Stmt) -> Option<(String, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
    let Pat::Ident(p) = p else { return None };
    if p.mutability.is_none() || p.by_ref.is_some() || p.subpat.is_some() { return None; }
    let i = l.init.as_ref()?;
    if i.diverge.is_some() { return None; }
    Some((p.ident.to_string(), (*i.expr).clone()))
}
/// R24: `let mut i = 0; while i < X.len() { ..; i += 1; }` becomes `for i in 0..X.len()`, and
/// `let mut it = e; while let Some(x) = it.next()` becomes `for x in e`
struct Counters;
impl VisitMut for Counters {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            if let Some(s) = counting(&b.stmts[k], &b.stmts[k + 1], &b.stmts[k + 2..]).or_else(|| asking(&b.stmts[k], &b.stmts[k + 1], &b.stmts[k + 2..])) {
                b.stmts.remove(k);
                b.stmts[k] = s;
            }
            k += 1;
        }
    }
}
fn counting(a: &Stmt, s: &Stmt, after: &[Stmt]) -> Option<Stmt> {
    let (i, zero) = init_of(a)?;
    if !int(&zero, "0") { return None; }
    let Stmt::Expr(Expr::While(w), _) = s else { return None };
    if w.label.is_some() { return None; }
    let Expr::Binary(c) = &*w.cond else { return None };
    let (l, r) = match c.op { BinOp::Lt(_) => (&c.left, &c.right), BinOp::Gt(_) => (&c.right, &c.left), _ => return None };
    if ident_of(l)? != i { return None; }
    let mut body = w.body.clone();
    // the last thing done is counting
    let step = body.stmts.pop()?;
    let Stmt::Expr(Expr::Binary(p), _) = &step else { return None };
    if !matches!(p.op, BinOp::AddAssign(_)) || ident_of(&p.left)? != i || !int(&p.right, "1") { return None; }
    // and nothing else changes what is counted, or skips it
    if !only_read_var(&body.stmts, &i) || conts_b(&body) > 0 || uses(after, &i) > 0 { return None; }
    match len_of(r) { Some(x) => { if x == i || !only_read(&body.stmts, &x) { return None; } } None => if !matches!(&**r, Expr::Lit(_)) { return None; } }
    let i = format_ident!("{}", i);
    Some(parse_quote!(for #i in 0..#r #body))
}
/// a number that is only read
fn only_read_var(ss: &[Stmt], i: &str) -> bool {
    struct V<'a> { i: &'a str, bad: bool }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::Assign(a) if touches(&a.left, self.i) => self.bad = true,
                Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) && touches(&b.left, self.i) => self.bad = true,
                Expr::Reference(r) if r.mutability.is_some() && touches(&r.expr, self.i) => self.bad = true,
                Expr::Closure(c) => { let mut u = Uses { name: self.i, any: 0, macros: false }; u.visit_expr(&c.body); if u.any > 0 { self.bad = true; } }
                e => syn::visit::visit_expr(self, e),
            }
        }
        fn visit_macro(&mut self, m: &'b Macro) { if words(m.tokens.clone()).iter().any(|w| w == self.i) { self.bad = true; } }
        fn visit_pat_ident(&mut self, p: &'b PatIdent) { if p.ident == self.i { self.bad = true; } }
    }
    let mut v = V { i, bad: false };
    for s in ss { v.visit_stmt(s); }
    !v.bad
}
fn asking(a: &Stmt, s: &Stmt, after: &[Stmt]) -> Option<Stmt> {
    let (it, e) = init_of(a)?;
    let Stmt::Expr(Expr::While(w), _) = s else { return None };
    if w.label.is_some() { return None; }
    let Expr::Let(l) = &*w.cond else { return None };
    let Expr::MethodCall(m) = &*l.expr else { return None };
    if m.method != "next" || !m.args.is_empty() || ident_of(&m.receiver)? != it { return None; }
    let Pat::TupleStruct(p) = &*l.pat else { return None };
    if !p.path.is_ident("Some") || p.elems.len() != 1 || !matches!(&p.elems[0], Pat::Ident(_)) { return None; }
    if uses(&w.body.stmts, &it) > 0 || uses(after, &it) > 0 { return None; }
    let (x, body) = (&p.elems[0], &w.body);
    Some(parse_quote!(for #x in #e #body))
}
/// R25: `for i in 0..X.len()` whose body reads `X[i]` and nothing else of `X` or `i` becomes
/// `for i in X.iter()`, and `X[i]` becomes `(*i)`
struct Indices;
impl VisitMut for Indices {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        let Pat::Ident(i) = &*f.pat else { return };
        if i.mutability.is_some() || i.by_ref.is_some() || i.subpat.is_some() { return; }
        let Expr::Range(r) = &*f.expr else { return };
        if !matches!(r.limits, RangeLimits::HalfOpen(_)) { return; }
        let (Some(a), Some(e)) = (&r.start, &r.end) else { return };
        let Some(x) = len_of(e) else { return };
        let i = i.ident.to_string();
        if !int(a, "0") || x == i || !only_read(&f.body.stmts, &x) || !only_read_var(&f.body.stmts, &i) { return; }
        struct S<'a> { x: &'a str, i: &'a str, n: usize }
        impl<'a> VisitMut for S<'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Index(k) = &*e {
                    if ident_of(&k.expr).as_deref() == Some(self.x) && ident_of(&k.index).as_deref() == Some(self.i) {
                        let i = format_ident!("{}", self.i);
                        *e = parse_quote!((*#i));
                        self.n += 1;
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut body = f.body.clone();
        let mut s = S { x: &x, i: &i, n: 0 };
        s.visit_block_mut(&mut body);
        // every use of `i` was one of them
        if s.n == 0 || uses(&body.stmts, &i) != s.n || uses(&body.stmts, &x) > 0 { return; }
        let x = format_ident!("{}", x);
        f.expr = Box::new(parse_quote!(#x.iter()));
        f.body = body;
    }
}
