//! Token printer. Marker macros left by the annotation pass are replaced by
//! the annotation text (ghost code), everything else is printed verbatim.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub ann: &'a [String],
    indent: usize,
    bol: bool,
    glue: bool,
}

fn num(ts: &TokenStream) -> usize { ts.to_string().trim().parse().unwrap() }

impl<'a> Printer<'a> {
    pub fn new(ann: &'a [String]) -> Self { Printer { out: String::new(), ann, indent: 0, bol: true, glue: false } }
    fn nl(&mut self) { if !self.bol { self.out.push('\n'); self.bol = true; } self.glue = false; }
    fn w(&mut self, s: &str) {
        if self.bol { for _ in 0..self.indent { self.out.push_str("    "); } self.bol = false; }
        else if !self.glue { self.out.push(' '); }
        self.out.push_str(s);
        self.glue = false;
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        self.out.push_str(s);
        if !s.ends_with('\n') { self.out.push('\n'); }
        self.bol = true;
        self.glue = false;
    }
    pub fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if s.starts_with("__vx") && i + 2 < v.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                        if p.as_char() == '!' {
                            match s.as_str() {
                                "__vx" => { let n = num(&g.stream()); let t = self.ann[n].clone(); self.raw(&t); }
                                "__vxinl" => { self.ts(g.stream()); }
                                "__vxloop" | "__vxspec" => {} // printed before the brace
                                _ => panic!("unknown marker {}", s),
                            }
                            i += 3;
                            if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' && s != "__vxinl" { i += 1; } } }
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => self.group(g, &v, i),
                TokenTree::Ident(id) => self.w(&id.to_string()),
                TokenTree::Literal(l) => self.w(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.w(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' { self.glue = true; }
                    if c == ';' { self.nl(); }
                }
            }
            i += 1;
        }
    }
    fn group(&mut self, g: &proc_macro2::Group, _v: &[TokenTree], _i: usize) {
        match g.delimiter() {
            Delimiter::None => self.ts(g.stream()),
            Delimiter::Parenthesis => { self.w("("); self.glue = true; self.ts(g.stream()); self.glue = true; self.w(")"); }
            Delimiter::Bracket => { self.w("["); self.glue = true; self.ts(g.stream()); self.glue = true; self.w("]"); }
            Delimiter::Brace => {
                // leading spec/loop markers
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut k = 0;
                while k + 2 < inner.len() {
                    if let (TokenTree::Ident(id), TokenTree::Group(ng)) = (&inner[k], &inner[k + 2]) {
                        if id == "__vxloop" || id == "__vxspec" {
                            let t = self.ann[num(&ng.stream())].clone();
                            if !t.trim().is_empty() { self.raw(&t); }
                            k += 3;
                            if let Some(TokenTree::Punct(p)) = inner.get(k) { if p.as_char() == ';' { k += 1; } }
                            continue;
                        }
                    }
                    break;
                }
                self.w("{");
                let rest: TokenStream = inner[k..].iter().cloned().collect();
                if rest.is_empty() { self.glue = true; self.w("}"); self.nl(); return; }
                self.nl();
                self.indent += 1;
                self.ts(rest);
                self.nl();
                self.indent -= 1;
                self.w("}");
                self.nl();
            }
        }
    }
}
