//! A small `macro_rules!` expander for the macros the verified crates define
//! themselves (statement / expression / item position).
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree, Span};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
pub struct MacroDef {
    pub name: String,
    rules: Vec<(Vec<TokenTree>, Vec<TokenTree>)>,
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}

fn tts(ts: TokenStream) -> Vec<TokenTree> { ts.into_iter().collect() }

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

pub fn parse_def(name: &str, body: TokenStream) -> Result<MacroDef, String> {
    let toks = tts(body);
    let mut i = 0;
    let mut rules = vec![];
    while i < toks.len() {
        let pat = match &toks[i] { TokenTree::Group(g) => tts(g.stream()), _ => return Err("macro pattern".into()) };
        if !(is_punct(toks.get(i + 1), '=') && is_punct(toks.get(i + 2), '>')) { return Err("macro arrow".into()); }
        let rhs = match toks.get(i + 3) { Some(TokenTree::Group(g)) => tts(g.stream()), _ => return Err("macro rhs".into()) };
        rules.push((pat, rhs));
        i += 4;
        if is_punct(toks.get(i), ';') { i += 1; }
    }
    Ok(MacroDef { name: name.to_string(), rules })
}

fn take_frag(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, usize)> {
    let total = input.len();
    let ts: TokenStream = input.iter().cloned().collect();
    macro_rules! with {
        ($t:ty) => {{
            let p = |s: ParseStream| -> syn::Result<($t, TokenStream)> { let e: $t = s.parse()?; let r: TokenStream = s.parse()?; Ok((e, r)) };
            match p.parse2(ts) {
                Ok((e, r)) => { let rest = r.into_iter().count(); Some((quote::quote!(#e), total - rest)) }
                Err(_) => None,
            }
        }};
    }
    match kind {
        "tt" => input.first().map(|t| (TokenStream::from(t.clone()), 1)),
        "ident" => match input.first() { Some(TokenTree::Ident(_)) => Some((TokenStream::from(input[0].clone()), 1)), _ => None },
        "literal" => with!(syn::Lit),
        "expr" => { if input.is_empty() { return None; } with!(syn::Expr) }
        "ty" => with!(syn::Type),
        "path" => with!(syn::Path),
        "block" => with!(syn::Block),
        "lifetime" => with!(syn::Lifetime),
        "pat" => {
            let p = |s: ParseStream| -> syn::Result<(syn::Pat, TokenStream)> { let e = syn::Pat::parse_multi(s)?; let r: TokenStream = s.parse()?; Ok((e, r)) };
            match p.parse2(ts) { Ok((e, r)) => { let rest = r.into_iter().count(); Some((quote::quote!(#e), total - rest)) } Err(_) => None }
        }
        _ => None,
    }
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

fn match_seq(pat: &[TokenTree], input: &[TokenTree], b: &mut HashMap<String, Bind>) -> Option<usize> {
    let mut pi = 0;
    let mut ii = 0;
    while pi < pat.len() {
        if is_punct(pat.get(pi), '$') {
            match pat.get(pi + 1) {
                Some(TokenTree::Ident(n)) => {
                    if !is_punct(pat.get(pi + 2), ':') { return None; }
                    let kind = match pat.get(pi + 3) { Some(TokenTree::Ident(k)) => k.to_string(), _ => return None };
                    let (ts, used) = take_frag(&kind, &input[ii..])?;
                    let ts = if kind == "expr" || kind == "ty" { TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, ts))) } else { ts };
                    b.insert(n.to_string(), Bind::One(ts));
                    ii += used;
                    pi += 4;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let sub = tts(g.stream());
                    let mut k = pi + 2;
                    let mut sep: Option<TokenTree> = None;
                    let op;
                    loop {
                        match pat.get(k) {
                            Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?') && (sep.is_some() || true) => { op = p.as_char(); k += 1; break; }
                            Some(t) if sep.is_none() => { sep = Some(t.clone()); k += 1; }
                            _ => return None,
                        }
                    }
                    let mut reps = vec![];
                    loop {
                        if ii >= input.len() && !sub.is_empty() { break; }
                        let mut start = ii;
                        if !reps.is_empty() {
                            if let Some(s) = &sep {
                                if !input.get(ii).map_or(false, |t| same(t, s)) { break; }
                                start = ii + 1;
                            }
                        }
                        let mut nb = HashMap::new();
                        match match_seq(&sub, &input[start..], &mut nb) {
                            Some(u) if u > 0 => { ii = start + u; reps.push(nb); }
                            _ => break,
                        }
                        if op == '?' { break; }
                    }
                    if op == '+' && reps.is_empty() { return None; }
                    // register under every name used inside
                    b.insert(format!("#rep{}", rep_key(&sub)), Bind::Many(reps));
                    pi = k;
                }
                _ => return None,
            }
            continue;
        }
        match (&pat[pi], input.get(ii)) {
            (TokenTree::Group(pg), Some(TokenTree::Group(ig))) if pg.delimiter() == ig.delimiter() => {
                let inner = tts(ig.stream());
                let u = match_seq(&tts(pg.stream()), &inner, b)?;
                if u != inner.len() { return None; }
            }
            (a, Some(c)) if same(a, c) => {}
            _ => return None,
        }
        pi += 1;
        ii += 1;
    }
    Some(ii)
}

fn rep_vars(toks: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < toks.len() {
        if is_punct(toks.get(i), '$') {
            if let Some(TokenTree::Ident(n)) = toks.get(i + 1) { if !out.contains(&n.to_string()) { out.push(n.to_string()); } i += 2; continue; }
        }
        if let TokenTree::Group(g) = &toks[i] { rep_vars(&tts(g.stream()), out); }
        i += 1;
    }
}
fn rep_key(toks: &[TokenTree]) -> String { let mut v = vec![]; rep_vars(toks, &mut v); v.sort(); v.join(",") }

fn subst(rhs: &[TokenTree], b: &HashMap<String, Bind>) -> Result<TokenStream, String> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < rhs.len() {
        if is_punct(rhs.get(i), '$') {
            match rhs.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    if n == "crate" { out.push(TokenTree::Ident(Ident::new("crate", Span::call_site()))); i += 2; continue; }
                    match b.get(&n.to_string()) {
                        Some(Bind::One(ts)) => out.extend(ts.clone()),
                        _ => return Err(format!("macro var {}", n)),
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let sub = tts(g.stream());
                    let mut k = i + 2;
                    let mut sep = None;
                    loop {
                        match rhs.get(k) {
                            Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?') => { k += 1; break; }
                            Some(t) if sep.is_none() => { sep = Some(t.clone()); k += 1; }
                            _ => return Err("macro repetition".into()),
                        }
                    }
                    let mut vars = vec![];
                    rep_vars(&sub, &mut vars);
                    let reps = b.iter().find_map(|(key, v)| {
                        if let (Some(names), Bind::Many(m)) = (key.strip_prefix("#rep"), v) {
                            if names.split(',').any(|n| vars.iter().any(|w| w == n)) { return Some(m.clone()); }
                        }
                        None
                    }).ok_or("macro repetition variable")?;
                    for (j, r) in reps.iter().enumerate() {
                        if j > 0 { if let Some(s) = &sep { out.push(s.clone()); } }
                        let mut env = b.clone();
                        env.extend(r.clone());
                        out.extend(subst(&sub, &env)?);
                    }
                    i = k;
                    continue;
                }
                _ => return Err("macro dollar".into()),
            }
        }
        match &rhs[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(&tts(g.stream()), b)?))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Ok(out.into_iter().collect())
}

fn let_idents(toks: &[TokenTree], out: &mut Vec<String>) {
    for i in 0..toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if id == "let" {
                let mut j = i + 1;
                let mut depth_ids = vec![];
                while j < toks.len() && !is_punct(toks.get(j), '=') && !is_punct(toks.get(j), ';') && !is_punct(toks.get(j), ':') {
                    match &toks[j] {
                        TokenTree::Ident(x) if x != "mut" && x != "ref" => depth_ids.push(x.to_string()),
                        TokenTree::Group(g) => for t in g.stream() { if let TokenTree::Ident(x) = t { if x != "mut" && x != "ref" { depth_ids.push(x.to_string()) } } },
                        _ => {}
                    }
                    j += 1;
                }
                out.extend(depth_ids);
            }
        }
        if let TokenTree::Group(g) = &toks[i] { let_idents(&tts(g.stream()), out); }
    }
}
fn idents(toks: &[TokenTree], out: &mut Vec<String>) {
    for t in toks {
        match t { TokenTree::Ident(i) => out.push(i.to_string()), TokenTree::Group(g) => idents(&tts(g.stream()), out), _ => {} }
    }
}

impl MacroDef {
    pub fn expand(&self, input: TokenStream) -> Result<TokenStream, String> {
        let inp = tts(input);
        for (pat, rhs) in &self.rules {
            let mut b = HashMap::new();
            if let Some(u) = match_seq(pat, &inp, &mut b) {
                if u == inp.len() {
                    // hygiene: an identifier bound by `let` in the macro body must not occur in the arguments
                    let (mut li, mut ai) = (vec![], vec![]);
                    let_idents(rhs, &mut li);
                    idents(&inp, &mut ai);
                    for l in &li { if ai.contains(l) { return Err(format!("macro {}: `{}` bound in the macro body also occurs in its arguments", self.name, l)); } }
                    return subst(rhs, &b);
                }
            }
        }
        Err(format!("no rule of macro {} matches", self.name))
    }
}
