//! Reference implementations, written without the crate.
use std::collections::HashMap;
use std::hash::Hash;
use huff_coding::prelude::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T<L> { Leaf(L, usize), Node(Box<T<L>>, Box<T<L>>, usize) }
impl<L: Clone + Eq + Hash + std::fmt::Debug> T<L> {
    pub fn same(&self, o: &T<L>) -> bool {
        match (self, o) { (T::Leaf(a, _), T::Leaf(b, _)) => a == b, (T::Node(a, b, _), T::Node(c, d, _)) => a.same(c) && b.same(d), _ => false }
    }
    pub fn leaves(&self) -> Vec<(L, usize, Vec<bool>)> {
        fn go<L: Clone>(t: &T<L>, p: &mut Vec<bool>, o: &mut Vec<(L, usize, Vec<bool>)>) {
            match t {
                T::Leaf(l, w) => o.push((l.clone(), *w, p.clone())),
                T::Node(a, b, _) => { p.push(false); go(a, p, o); p.pop(); p.push(true); go(b, p, o); p.pop(); }
            }
        }
        let mut o = vec![];
        if let T::Leaf(l, w) = self { return vec![(l.clone(), *w, vec![false])]; }
        go(self, &mut vec![], &mut o);
        o
    }
    pub fn weight(&self) -> usize { match self { T::Leaf(_, w) | T::Node(_, _, w) => *w } }
    pub fn enc(&self, f: &dyn Fn(&L) -> Vec<u8>) -> Vec<bool> {
        match self {
            T::Leaf(l, _) => { let mut v = vec![false]; v.extend(bits(&f(l))); v }
            T::Node(a, b, _) => { let mut v = vec![true]; v.extend(a.enc(f)); v.extend(b.enc(f)); v }
        }
    }
    /// greedy walk
    pub fn walk(&self, bits: &[bool]) -> Vec<L> {
        let mut o = vec![];
        let mut cur = self;
        for &b in bits {
            if let T::Node(l, r, _) = cur { cur = if b { r } else { l }; }
            if let T::Leaf(x, _) = cur { o.push(x.clone()); cur = self; }
        }
        o
    }
}
pub fn bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| (x >> (7 - i)) & 1 == 1)).collect() }
pub fn pack(b: &[bool]) -> (Vec<u8>, u8) {
    let mut o = vec![];
    for c in b.chunks(8) { let mut x = 0u8; for (i, v) in c.iter().enumerate() { if *v { x += 128 >> i; } } o.push(x); }
    let p = (o.len() * 8 - b.len()) as u8;
    (o, p)
}
/// the crate's tree seen through its public accessors
pub fn view<L: HuffLetter>(b: &HuffBranch<L>) -> Result<T<L>, String> {
    let w = b.leaf().weight();
    match (b.left_child(), b.right_child()) {
        (Some(l), Some(r)) => {
            if !b.has_children() { return Err("has_children is false but both children are there".into()); }
            if b.leaf().letter().is_some() { return Err("a joint has a letter".into()); }
            let it: Vec<&HuffBranch<L>> = b.children_iter().ok_or("no children_iter")?.collect();
            if it.len() != 2 || !std::ptr::eq(it[0], l) || !std::ptr::eq(it[1], r) { return Err("children_iter differs from left_child, right_child".into()); }
            Ok(T::Node(Box::new(view(l)?), Box::new(view(r)?), w))
        }
        (None, None) => {
            if b.has_children() { return Err("has_children without children".into()); }
            if b.children_iter().is_some() { return Err("children_iter without children".into()); }
            Ok(T::Leaf(b.leaf().letter().cloned().ok_or("a leaf has no letter")?, w))
        }
        _ => Err("one child".into()),
    }
}
pub fn greedy_cost(w: &[usize]) -> u128 {
    use std::cmp::Reverse;
    let mut h: std::collections::BinaryHeap<Reverse<u128>> = w.iter().map(|x| Reverse(*x as u128)).collect();
    if h.len() == 1 { return w[0] as u128; }
    let mut c = 0;
    while h.len() > 1 { let a = h.pop().unwrap().0; let b = h.pop().unwrap().0; c += a + b; h.push(Reverse(a + b)); }
    c
}
pub fn counts<L: Clone + Eq + Hash>(s: &[L]) -> HashMap<L, usize> { let mut m = HashMap::new(); for x in s { *m.entry(x.clone()).or_insert(0) += 1; } m }
/// parse a tree; `size` letter bytes, `f` decodes a letter
pub fn parse<L>(b: &[bool], size: usize, f: &dyn Fn(&[u8]) -> Option<L>, pos: &mut usize) -> Option<T<L>> {
    let x = *b.get(*pos)?;
    *pos += 1;
    if x {
        let l = parse(b, size, f, pos)?;
        let r = parse(b, size, f, pos)?;
        Some(T::Node(Box::new(l), Box::new(r), 0))
    } else {
        if *pos + 8 * size > b.len() { return None; }
        let (by, _) = pack(&b[*pos..*pos + 8 * size]);
        *pos += 8 * size;
        Some(T::Leaf(f(&by)?, 0))
    }
}
pub fn parse_all<L>(b: &[bool], size: usize, f: &dyn Fn(&[u8]) -> Option<L>) -> Option<T<L>> {
    let mut p = 0;
    let t = parse(b, size, f, &mut p)?;
    if p == b.len() { Some(t) } else { None }
}
