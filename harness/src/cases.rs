use crate::reference::*;
use crate::{ck, Ctx, Res, Rng};
use huff_coding::bitvec::prelude::*;
use huff_coding::prelude::*;
use std::collections::HashMap;
use std::convert::TryInto;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hasher};

type BV = BitVec<Msb0, u8>;
fn bv(b: &[bool]) -> BV { let mut v = BV::new(); for x in b { v.push(*x); } v }
fn vb(b: &BV) -> Vec<bool> { b.iter().map(|x| *x).collect() }

/// a sequence of symbols 0..256
pub fn gen_syms(r: &mut Rng, k: u64) -> Vec<u8> {
    // all short strings over three symbols first
    let mut k0 = k as usize;
    for n in 1..=4usize {
        let c = 3usize.pow(n as u32);
        if k0 < c { let mut v = vec![]; let mut x = k0; for _ in 0..n { v.push([0u8, 97, 255][x % 3]); x /= 3; } return v; }
        k0 -= c;
    }
    let mut v = vec![];
    match r.below(9) {
        0 => { let a = r.range(1, 256); let n = r.range(1, 600); for _ in 0..n { v.push(r.below(a) as u8); } }
        1 => { let m = r.range(2, 17); let (mut a, mut b) = (1usize, 1usize); for i in 0..m { for _ in 0..a { v.push(i as u8); } let c = a + b; a = b; b = c; } shuffle(r, &mut v); }
        2 => { let m = r.range(2, 11); for i in 0..m { for _ in 0..1 << i { v.push(i as u8); } } shuffle(r, &mut v); }
        3 => { let m = r.range(1, 256); let e = r.range(1, 4); for i in 0..m { for _ in 0..e { v.push(i as u8); } } if r.chance(2) { shuffle(r, &mut v); } }
        4 => { let n = r.range(1, 400); for _ in 0..n { v.push(r.u64().leading_zeros() as u8); } }
        5 => { let n = r.range(1, 30); for _ in 0..n { let c = r.byte(); for _ in 0..r.range(1, 20) { v.push(c); } } }
        6 => { let c = r.byte(); let n = r.range(1, 80); v = vec![c; n]; }
        7 => { let (a, b) = (r.byte(), r.byte()); let n = r.range(1, 70); for _ in 0..n { v.push(if r.chance(2) { a } else { b }); } }
        _ => { let n = r.range(1, 3000); for _ in 0..n { v.push(r.byte()); } }
    }
    v
}
/// now and then a large input: many distinct letters, so that trees take more bytes than 16 bits count
fn heavy(c: &mut Ctx) -> Option<Vec<u16>> {
    if c.k % 211 != 210 { return None; }
    let r = &mut c.rng;
    let n = r.range(300, 45000);
    let mut v: Vec<u16> = (0..n).map(|i| (i as u16).wrapping_mul(40503)).collect();
    for _ in 0..r.below(60000) { let z = r.below(16); let x = v[r.below(n >> z).min(n - 1)]; v.push(x); }
    shuffle(r, &mut v);
    Some(v)
}
fn shuffle<X>(r: &mut Rng, v: &mut Vec<X>) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
fn letters_u16(r: &mut Rng, s: &[u8]) -> Vec<u16> { let m = r.u64() as u16 | 1; s.iter().map(|x| (*x as u16).wrapping_mul(m)).collect() }

/// a weight table of distinct letters
fn gen_weights(r: &mut Rng, k: u64) -> Vec<(u16, usize)> {
    let n = if k < 40 { 1 + k as usize / 4 } else if k % 211 == 210 { r.range(1000, 20000) } else { match r.below(4) { 0 => r.range(1, 6), 1 => r.range(1, 30), 2 => r.range(1, 80), _ => r.range(1, 400) } };
    let mut w: Vec<usize> = match r.below(8) {
        0 => (0..n).map(|_| r.range(1, 5)).collect(),
        1 => { let n = n.min(88); let mut v = vec![]; let (mut a, mut b) = (1usize, 1usize); for _ in 0..n { v.push(a); let c = a + b; a = b; b = c; } v }
        2 => (0..n.min(60)).map(|i| 1usize << i).collect(),
        3 => vec![r.range(1, 1 << 30); n],
        4 => (0..n).map(|_| r.below(3)).collect(),
        5 => (0..n).map(|_| r.below(1 << 40)).collect(),
        6 => (0..n).map(|i| i + 1).collect(),
        _ => (0..n).map(|_| { let s = r.below(50); r.below(1 << s) + 1 }).collect(),
    };
    shuffle(r, &mut w);
    let m = r.u64() as u16 | 1;
    w.iter().enumerate().map(|(i, x)| ((i as u16).wrapping_mul(m), *x)).collect()
}
/// any tree, as a reference tree with letters below `lim`
fn gen_shape(r: &mut Rng, n: usize, style: usize) -> T<u64> {
    if n == 1 { return T::Leaf(r.u64(), 0); }
    let a = match style { 0 => 1, 1 => n - 1, 2 => n / 2, _ => r.range(1, n - 1) };
    T::Node(Box::new(gen_shape(r, a, style)), Box::new(gen_shape(r, n - a, style)), 0)
}
fn map_leaves<A, B>(t: &T<A>, f: &mut dyn FnMut(&A) -> B) -> T<B> { match t { T::Leaf(a, w) => T::Leaf(f(a), *w), T::Node(a, b, w) => T::Node(Box::new(map_leaves(a, f)), Box::new(map_leaves(b, f)), *w) } }
fn gen_tree(r: &mut Rng, k: u64, maxn: usize) -> T<u64> {
    let n = if k < 24 { 1 + k as usize / 3 } else { r.range(1, maxn) };
    let st = r.below(6);
    let distinct = !r.chance(8);
    let t = gen_shape(r, n, st);
    if distinct { let m = r.u64() | 1; let o = r.u64(); let mut i = 0u64; map_leaves(&t, &mut |_| { i += 1; i.wrapping_mul(m).wrapping_add(o) }) } else { t }
}

// ---- compression -----------------------------------------------------------
fn roundtrip<L: HuffLetter>(s: &[L]) -> Res {
    let c = compress(s);
    let d = decompress(&c);
    ck!(d == s, "decompress(compress(s)) has {} letters, s has {}; first difference at {:?}", d.len(), s.len(), (0..s.len()).find(|i| d.get(*i) != s.get(*i)));
    Ok(())
}
fn c01(c: &mut Ctx) -> Res {
    if let Some(v) = heavy(c) { c.input(format!("{} u16 letters beginning {:?} (case {} of seed {})", v.len(), &v[..200], c.k, c.seed)); return roundtrip(&v); }
    let s = gen_syms(&mut c.rng, c.k);
    let ty = if c.k < 120 { 0 } else { c.rng.below(7) };
    c.input(format!("letters as {}: {:?}", ["u8", "u16", "u128", "char", "String", "i32", "&str"][ty], s));
    let t16 = letters_u16(&mut c.rng, &s);
    match ty {
        0 => roundtrip(&s),
        1 => roundtrip(&t16),
        2 => roundtrip(&s.iter().map(|x| (*x as u128) << 100 | 7).collect::<Vec<_>>()),
        3 => roundtrip(&s.iter().map(|x| char::from_u32(0x4e00 + *x as u32).unwrap()).collect::<Vec<_>>()),
        4 => roundtrip(&s.iter().map(|x| format!("s{}", x)).collect::<Vec<_>>()),
        5 => roundtrip(&s.iter().map(|x| *x as i32 - 128).collect::<Vec<_>>()),
        _ => { let p: Vec<String> = (0..256).map(|x| "x".repeat(x)).collect(); roundtrip(&s.iter().map(|x| &p[*x as usize][..]).collect::<Vec<&str>>()) }
    }
}
fn to_u8(t: &T<u64>) -> T<u8> { map_leaves(t, &mut |x| *x as u8) }
fn tree_u8(t: &T<u8>) -> Result<HuffTree<u8>, String> { HuffTree::<u8>::try_from_bin(bv(&t.enc(&|x| vec![*x]))).map_err(|e| format!("a valid binary tree was refused: {}", e)) }
fn c02(c: &mut Ctx) -> Res {
    let (tree, leaves): (HuffTree<u8>, Vec<u8>) = if c.rng.chance(2) {
        let t = to_u8(&gen_tree(&mut c.rng, c.k, 120));
        let l = t.leaves().into_iter().map(|x| x.0).collect();
        c.input(format!("{:?}", t));
        (tree_u8(&t)?, l)
    } else {
        let s = gen_syms(&mut c.rng, c.k + 120);
        c.input(format!("tree of the weights of {:?}", s));
        let mut l = s.clone(); l.sort(); l.dedup();
        if c.rng.chance(2) { (HuffTree::from_weights(ByteWeights::from_bytes(&s)), l) } else { (HuffTree::from_weights(build_weights_map(&s)), l) }
    };
    let n = if c.k % 5 == 0 { c.rng.range(1, 4) } else { c.rng.range(1, 300) };
    let mut s: Vec<u8> = (0..n).map(|_| leaves[c.rng.below(leaves.len())]).collect();
    if c.rng.chance(2) { for _ in 0..c.rng.range(1, 3) { let i = c.rng.below(n); s[i] = c.rng.byte(); } }
    let what = format!("tree with leaves {:?}, letters {:?}", leaves, s);
    c.input(what);
    let before = view(tree.root())?;
    let missing = s.iter().find(|x| !leaves.contains(x)).copied();
    match (compress_with_tree(&s, tree), missing) {
        (Ok(d), None) => {
            ck!(decompress(&d) == s, "does not decompress to the same letters");
            ck!(view(d.huff_tree().root())? == before, "the tree has changed");
        }
        (Err(e), Some(m)) => { ck!(*e.missing_letter() == m, "names {:?}, the first missing letter is {:?}", e.missing_letter(), m); }
        (Ok(_), Some(m)) => return Err(format!("succeeds although {:?} is not in the tree", m)),
        (Err(e), None) => return Err(format!("fails for {:?} although every letter is in the tree", e.missing_letter())),
    }
    Ok(())
}
fn check_codes<L: HuffLetter>(tree: &HuffTree<L>, dup: bool) -> Res {
    let t = view(tree.root())?;
    let ls = t.leaves();
    let codes = tree.read_codes();
    let codes2 = tree.read_codes_with_hasher(Bad(3));
    ck!(codes.len() == codes2.len() && codes.iter().all(|(a, b)| codes2.get(a) == Some(b)), "read_codes and read_codes_with_hasher differ");
    for (l, _, p) in &ls {
        let cd = codes.get(l).ok_or(format!("{:?} has no code", l))?;
        ck!(!cd.is_empty(), "{:?} has an empty code", l);
        if dup { ck!(ls.iter().any(|x| x.0 == *l && x.2 == vb(cd)), "code of {:?} is no path to it", l); } else { ck!(vb(cd) == *p, "code of {:?} is {:?}, its path is {:?}", l, vb(cd), p); }
    }
    for l in codes.keys() { ck!(ls.iter().any(|x| x.0 == *l), "{:?} has a code but no leaf", l); }
    if !dup {
        ck!(codes.len() == ls.len(), "{} codes for {} leaves", codes.len(), ls.len());
        let mut v: Vec<Vec<bool>> = codes.values().map(|x| vb(x)).collect();
        v.sort();
        for w in v.windows(2) { ck!(!w[1].starts_with(&w[0]), "{:?} is a prefix of {:?}", w[0], w[1]); }
    }
    Ok(())
}
fn c03(c: &mut Ctx) -> Res {
    match c.rng.below(3) {
        0 => { let t = to_u8(&gen_tree(&mut c.rng, c.k, 200)); c.input(format!("binary form of {:?}", t)); let l = t.leaves(); let mut x: Vec<u8> = l.iter().map(|x| x.0).collect(); x.sort(); let d = x.windows(2).any(|w| w[0] == w[1]); let h = tree_u8(&t)?; ck!(view(h.root())?.same(&t), "reads a different tree"); check_codes(&h, d) }
        1 => { let s = gen_syms(&mut c.rng, c.k + 120); c.input(format!("byte weights of {:?}", s)); check_codes(&HuffTree::from_weights(ByteWeights::from_bytes(&s)), false) }
        _ => { let w = gen_weights(&mut c.rng, c.k); c.input(format!("weights {:?}", w)); check_codes(&HuffTree::from_weights(w.into_iter().collect::<HashMap<_, _>>()), false) }
    }
}
fn c04(c: &mut Ctx) -> Res {
    let w: Vec<(u16, usize)> = if c.rng.chance(3) {
        let s = gen_syms(&mut c.rng, c.k + 120);
        c.input(format!("byte weights of {:?}", s));
        let tree = HuffTree::from_weights(ByteWeights::from_bytes(&s));
        let codes = tree.read_codes();
        let m = counts(&s);
        let got: u128 = m.iter().map(|(l, n)| codes.get(l).map_or(1 << 100, |c| c.len() as u128) * *n as u128).sum();
        let best = greedy_cost(&m.values().copied().collect::<Vec<_>>());
        ck!(got == best, "{} bits, {} are enough", got, best);
        let d = compress(&s);
        ck!((d.comp_bytes().len() * 8 - d.padding_bits() as usize) as u128 == best, "compressed into {} bits, {} are enough", d.comp_bytes().len() * 8 - d.padding_bits() as usize, best);
        return Ok(());
    } else { gen_weights(&mut c.rng, c.k) };
    c.input(format!("weights {:?}", w));
    let codes = HuffTree::from_weights(w.iter().copied().collect::<HashMap<_, _>>()).read_codes();
    let mut got = 0u128;
    for (l, n) in &w { got += codes.get(l).ok_or(format!("no code for {}", l))?.len() as u128 * *n as u128; }
    let best = greedy_cost(&w.iter().map(|x| x.1).collect::<Vec<_>>());
    ck!(got == best, "{} bits, {} are enough", got, best);
    Ok(())
}
// ---- binary trees ----------------------------------------------------------
fn tree_bin<L: HuffLetterAsBytes>(t: &T<L>, f: &dyn Fn(&L) -> Vec<u8>) -> Res {
    let e = t.enc(f);
    let h = HuffTree::<L>::try_from_bin(bv(&e)).map_err(|e| format!("the binary form was refused: {}", e))?;
    ck!(view(h.root())?.same(t), "reads a different tree");
    ck!(vb(&h.as_bin()) == e, "as_bin gives {:?}, the binary form is {:?}", vb(&h.as_bin()), e);
    let mut ls: Vec<String> = t.leaves().iter().map(|x| format!("{:?}", x.0)).collect();
    ls.sort();
    check_codes(&h, ls.windows(2).any(|w| w[0] == w[1]))
}
fn tree_bin_w<L: HuffLetterAsBytes>(h: HuffTree<L>, f: &dyn Fn(&L) -> Vec<u8>) -> Res {
    let t = view(h.root())?;
    let b = h.as_bin();
    ck!(vb(&b) == t.enc(f), "as_bin gives {:?}, the binary form is {:?}", vb(&b), t.enc(f));
    let h2 = HuffTree::<L>::try_from_bin(b).map_err(|e| format!("the binary form was refused: {}", e))?;
    ck!(view(h2.root())?.same(&t), "reads a different tree");
    ck!(h2.read_codes() == h.read_codes(), "the codes differ");
    Ok(())
}
macro_rules! types { ($c:expr, $t:expr, $f:ident; $($i:literal $ty:ty),*) => { match $c { $($i => $f::<$ty>(&map_leaves(&$t, &mut |x| *x as $ty), &|l| l.to_be_bytes().to_vec()),)* _ => unreachable!() } } }
fn c05(c: &mut Ctx) -> Res {
    if let Some(v) = heavy(c) { c.input(format!("{} u16 letters beginning {:?} (case {} of seed {})", v.len(), &v[..200], c.k, c.seed)); return tree_bin_w(HuffTree::from_weights(build_weights_map(&v)), &|l| l.to_be_bytes().to_vec()); }
    if c.rng.chance(3) {
        if c.rng.chance(2) { let s = gen_syms(&mut c.rng, c.k + 120); c.input(format!("byte weights of {:?}", s)); return tree_bin_w(HuffTree::from_weights(ByteWeights::from_bytes(&s)), &|l| vec![*l]); }
        let w = gen_weights(&mut c.rng, c.k); c.input(format!("weights {:?}", w));
        return tree_bin_w(HuffTree::from_weights(w.into_iter().collect::<HashMap<_, _>>()), &|l| l.to_be_bytes().to_vec());
    }
    let t = gen_tree(&mut c.rng, c.k, 150);
    if c.rng.chance(8) {
        let n = [3, 32, 33, 64, 300][c.rng.below(5)];
        c.input(format!("letters of {} bytes: {:?}", n, t));
        return match n { 3 => tree_wide::<3>(&t), 32 => tree_wide::<32>(&t), 33 => tree_wide::<33>(&t), 64 => tree_wide::<64>(&t), _ => tree_wide::<300>(&t) };
    }
    let ty = c.rng.below(12);
    c.input(format!("letters as {}: {:?}", ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"][ty], t));
    types!(ty, t, tree_bin; 0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 usize, 6 i8, 7 i16, 8 i32, 9 i64, 10 i128, 11 isize)
}
/// a letter type of N bytes
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Wide<const N: usize>([u8; N]);
impl<const N: usize> HuffLetter for Wide<N> {}
impl<const N: usize> HuffLetterAsBytes for Wide<N> {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { let a: [u8; N] = b.try_into()?; Ok(Wide(a)) }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
fn tree_wide<const N: usize>(t: &T<u64>) -> Res {
    tree_bin(&map_leaves(t, &mut |x| { let mut a = [*x as u8; N]; a[0] = (*x >> 8) as u8; a[N - 1] ^= 0x5a; Wide(a) }), &|l: &Wide<N>| l.0.to_vec())
}
/// a letter type whose byte form covers only part of the byte strings
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Low(u8);
impl HuffLetter for Low {}
#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "refused") } }
impl std::error::Error for Refused {}
impl HuffLetterAsBytes for Low {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { if b.len() == 1 && b[0] < 128 { Ok(Low(b[0])) } else { Err(Box::new(Refused)) } }
    fn as_be_bytes(&self) -> Box<[u8]> { vec![self.0].into_boxed_slice() }
}
fn accepts<L: HuffLetterAsBytes>(b: &[bool], size: usize, f: &dyn Fn(&[u8]) -> Option<L>) -> Res {
    match (HuffTree::<L>::try_from_bin(bv(b)), parse_all(b, size, f)) {
        (Ok(h), Some(t)) => { ck!(view(h.root())?.same(&t), "reads a different tree"); ck!(vb(&h.as_bin()) == b, "the tree's binary form is not the string read"); check_codes(&h, true) }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err("accepts an invalid string".into()),
        (Err(e), Some(_)) => Err(format!("refuses a valid string: {}", e)),
    }
}
fn gen_bits(r: &mut Rng, k: u64) -> (Vec<bool>, usize) {
    // all strings of up to 11 bits first
    let mut x = k as usize;
    for n in 0..=11usize { if x < 1 << n { return ((0..n).map(|i| x >> i & 1 == 1).collect(), 1); } x -= 1 << n; }
    let size = [1, 2, 4, 16][r.below(4)];
    let mx = if r.chance(3) { 60 } else { 8 }; let t = gen_tree(r, 100, mx);
    let mut b = t.enc(&|x| { let b = (*x as u128).to_be_bytes(); b[16 - size..].to_vec() });
    match r.below(8) {
        0 => {}
        1 => { let n = r.below(b.len() + 1); b.truncate(n); }
        2 => { for _ in 0..r.range(1, 12) { b.push(r.chance(2)); } }
        3 => { let i = r.below(b.len()); b[i] = !b[i]; }
        4 => { let n = b.len() - r.range(1, 8.min(b.len())); b.truncate(n); }
        5 => { for _ in 0..r.range(1, 4) { let i = r.below(b.len()); b[i] = !b[i]; } }
        6 => { let i = r.below(b.len()); b.remove(i); }
        _ => { let n = r.range(1, 300); b = (0..n).map(|_| r.chance(2)).collect(); if r.chance(3) { b = vec![true; n]; } }
    }
    (b, size)
}
fn c06(c: &mut Ctx) -> Res {
    let (b, size) = gen_bits(&mut c.rng, c.k);
    let low = size == 1 && c.rng.chance(3);
    c.input(format!("letter type {}, bits {}", if low { "of the bytes below 128".into() } else { format!("u{}", 8 * size) }, b.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>()));
    if low { return accepts::<Low>(&b, 1, &|x| if x[0] < 128 { Some(Low(x[0])) } else { None }); }
    match size {
        1 => accepts::<u8>(&b, 1, &|x| Some(x[0])).and_then(|_| accepts::<i8>(&b, 1, &|x| Some(x[0] as i8))),
        2 => accepts::<u16>(&b, 2, &|x| Some(u16::from_be_bytes(x.try_into().unwrap()))),
        4 => accepts::<i32>(&b, 4, &|x| Some(i32::from_be_bytes(x.try_into().unwrap()))),
        _ => accepts::<u128>(&b, 16, &|x| Some(u128::from_be_bytes(x.try_into().unwrap()))),
    }
}
// ---- byte form -------------------------------------------------------------
fn layout(tp: u8, dp: u8, tb: &[u8], d: &[u8]) -> Vec<u8> { let mut v = vec![tp << 4 | dp]; v.extend((tb.len() as u32).to_be_bytes()); v.extend(tb); v.extend(d); v }
fn bytes_rt<L: HuffLetterAsBytes>(d: &CompressData<L>, f: &dyn Fn(&L) -> Vec<u8>) -> Res {
    let t = view(d.huff_tree().root())?;
    let (tb, tp) = pack(&t.enc(f));
    let b = d.to_bytes();
    let want = layout(tp, d.padding_bits(), &tb, d.comp_bytes());
    ck!(b == want, "to_bytes gives {:?}, the documented layout is {:?}", b, want);
    let e = CompressData::<L>::try_from_bytes(&b).map_err(|e| format!("the byte form was refused: {}", e))?;
    ck!(e.comp_bytes() == d.comp_bytes() && e.padding_bits() == d.padding_bits(), "data read back differ");
    ck!(view(e.huff_tree().root())?.same(&t), "the tree read back differs");
    ck!(decompress(&e) == decompress(d), "decompresses to something else");
    Ok(())
}
fn c07(c: &mut Ctx) -> Res {
    if c.k == 1500 {
        // a tree of more than 2^24 bytes
        let v: Vec<u128> = (0..1_050_000u128).map(|x| x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)).collect();
        c.input("1050000 distinct u128 letters".into());
        return bytes_rt(&compress(&v), &|l| l.to_be_bytes().to_vec());
    }
    if let Some(v) = heavy(c) { c.input(format!("compress of {} u16 letters beginning {:?} (case {} of seed {})", v.len(), &v[..200], c.k, c.seed)); return bytes_rt(&compress(&v), &|l| l.to_be_bytes().to_vec()); }
    match c.rng.below(4) {
        0 => { let s = gen_syms(&mut c.rng, c.k); c.input(format!("compress of {:?}", s)); bytes_rt(&compress(&s), &|l| vec![*l]) }
        1 => { let s = gen_syms(&mut c.rng, c.k); let s = letters_u16(&mut c.rng, &s); c.input(format!("compress of u16 {:?}", s)); bytes_rt(&compress(&s), &|l| l.to_be_bytes().to_vec()) }
        2 => { let s: Vec<i128> = gen_syms(&mut c.rng, c.k + 120).iter().map(|x| *x as i128 - 100).collect(); c.input(format!("compress of i128 {:?}", s)); bytes_rt(&compress(&s), &|l| l.to_be_bytes().to_vec()) }
        _ => {
            let t = to_u8(&gen_tree(&mut c.rng, c.k, 100));
            let n = c.rng.range(1, 50);
            let d: Vec<u8> = (0..n).map(|_| c.rng.byte()).collect();
            let p = c.rng.below(8) as u8;
            c.input(format!("tree {:?}, data {:?}, padding {}", t, d, p));
            bytes_rt(&CompressData::new(d, p, tree_u8(&t)?), &|l| vec![*l])
        }
    }
}
fn reads<L: HuffLetterAsBytes>(b: &[u8], size: usize, f: &dyn Fn(&[u8]) -> Option<L>) -> Res {
    let want = (|| {
        if b.len() < 5 { return None; }
        let (tp, dp) = (b[0] >> 4, b[0] & 15);
        let tl = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
        if tp > 7 || dp > 7 || tl < 2 || b.len() <= 5 + tl { return None; }
        let bs = bits(&b[5..5 + tl]);
        let t = parse_all(&bs[..8 * tl - tp as usize], size, f)?;
        Some((t, dp, b[5 + tl..].to_vec()))
    })();
    match (CompressData::<L>::try_from_bytes(b), want) {
        (Ok(d), Some((t, p, c))) => { ck!(d.comp_bytes() == &c[..] && d.padding_bits() == p, "data read differ from what the bytes say"); ck!(view(d.huff_tree().root())?.same(&t), "reads a different tree"); Ok(()) }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err("accepts invalid bytes".into()),
        (Err(e), Some(_)) => Err(format!("refuses valid bytes: {}", e)),
    }
}
fn c08(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let size = [1, 2, 16][r.below(3)];
    let mut b: Vec<u8> = if c.k < 40 { vec![] } else {
        let mx = if r.chance(3) { 60 } else { 5 }; let t = gen_tree(r, 100, mx);
        let (tb, tp) = pack(&t.enc(&|x| { let b = (*x as u128).to_be_bytes(); b[16 - size..].to_vec() }));
        let n = r.range(0, 10);
        let d: Vec<u8> = (0..n).map(|_| r.byte()).collect();
        layout(tp, r.below(8) as u8, &tb, &d)
    };
    if c.k < 40 { let n = c.k as usize / 4; b = (0..n).map(|_| r.byte()).collect(); }
    if !b.is_empty() { match r.below(9) {
        0 => { let n = r.below(b.len()); b.truncate(n); }
        1 => { b[0] = r.byte(); }
        2 => { let i = r.below(b.len().min(5)); b[i] = r.byte(); }
        3 => { for i in 1..5.min(b.len()) { b[i] = if r.chance(2) { 255 } else { r.byte() }; } }
        4 => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); }
        5 => { if b.len() > 4 { let d = r.range(1, 3) as u8; b[4] = if r.chance(2) { b[4].wrapping_add(d) } else { b[4].wrapping_sub(d) }; } }
        6 => { if b.len() > 4 { b[1] = 0; b[2] = 0; b[3] = 0; b[4] = r.below(4) as u8; } }
        7 => { b[0] = (b[0] & 15) | (r.below(16) as u8) << 4; }
        _ => {}
    } }
    c.input(format!("letter type u{}, bytes {:?}", 8 * size, b));
    match size {
        1 => reads::<u8>(&b, 1, &|x| Some(x[0])).and_then(|_| reads::<Low>(&b, 1, &|x| if x[0] < 128 { Some(Low(x[0])) } else { None })),
        2 => reads::<i16>(&b, 2, &|x| Some(i16::from_be_bytes(x.try_into().unwrap()))),
        _ => reads::<u128>(&b, 16, &|x| Some(u128::from_be_bytes(x.try_into().unwrap()))),
    }
}
// ---- weights ---------------------------------------------------------------
fn gen_slice(r: &mut Rng, k: u64) -> Vec<u8> {
    if k < 30 { return (0..k as usize / 3).map(|_| r.byte()).collect(); }
    if k % 211 == 210 { let n = r.range(60000, 400000); let z = r.range(1, 8); return (0..n).map(|_| if r.chance(3) { 7 } else { r.byte() >> r.below(z) }).collect(); }
    if r.chance(20) { return vec![]; }
    let mut v = gen_syms(r, 1000);
    if r.chance(3) { v.push(255); }
    v
}
fn same_counts(b: &ByteWeights, m: &HashMap<u8, usize>) -> Res {
    for x in 0..=255u8 { ck!(b.get(&x) == m.get(&x), "weight of {} is {:?}, expected {:?}", x, b.get(&x), m.get(&x)); ck!(Weights::get(b, &x) == m.get(&x), "Weights::get of {} differs", x); }
    ck!(b.len() == m.len() && Weights::len(b) == m.len(), "len is {}, expected {}", b.len(), m.len());
    ck!(b.is_empty() == m.is_empty() && Weights::is_empty(b) == m.is_empty(), "is_empty is {}", b.is_empty());
    let mut w: Vec<(u8, usize)> = m.iter().map(|(a, b)| (*a, *b)).collect();
    w.sort();
    let i1: Vec<(u8, usize)> = b.iter().collect();
    let i2: Vec<(u8, usize)> = b.into_iter().collect();
    let i3: Vec<(u8, usize)> = b.clone().into_iter().collect();
    ck!(i1 == w && i2 == w && i3 == w, "iteration gives {:?} / {:?} / {:?}, expected {:?}", i1, i2, i3, w);
    let mut it = b.clone().into_iter();
    for _ in 0..w.len() { it.next(); }
    ck!(it.next().is_none() && it.next().is_none() && it.next().is_none(), "iteration goes on after its end");
    let mut it = b.iter();
    for _ in 0..w.len() { it.next(); }
    ck!(it.next().is_none() && it.next().is_none() && it.next().is_none(), "iteration goes on after its end");
    Ok(())
}
fn c09(c: &mut Ctx) -> Res { let s = gen_slice(&mut c.rng, c.k); c.input(format!("{:?}", s)); same_counts(&ByteWeights::from_bytes(&s), &counts(&s)) }
fn c10(c: &mut Ctx) -> Res {
    let s = gen_slice(&mut c.rng, c.k);
    let n = if c.rng.chance(3) { c.rng.range(1, 3) } else if c.rng.chance(4) { c.rng.range(1, 300) } else { c.rng.range(1, 16) };
    c.input(format!("{} threads, {:?}", n, s));
    let b = ByteWeights::threaded_from_bytes(&s, n);
    ck!(b == ByteWeights::from_bytes(&s), "differs from from_bytes");
    same_counts(&b, &counts(&s))
}
fn c11(c: &mut Ctx) -> Res {
    let s = gen_slice(&mut c.rng, c.k);
    let t = match c.rng.below(4) { 0 => s.iter().map(|x| x.wrapping_add(1)).collect(), 1 => { let mut t = s.clone(); let n = c.rng.below(t.len() + 1); t.truncate(n); t } _ => gen_slice(&mut c.rng, c.k / 2 + 11) };
    c.input(format!("{:?} plus {:?}", s, t));
    let (a, b) = (ByteWeights::from_bytes(&s), ByteWeights::from_bytes(&t));
    let mut all = s.clone(); all.extend(&t);
    let m = counts(&all);
    let mut x = a.clone(); x.add_byte_weights(&b);
    same_counts(&x, &m).map_err(|e| format!("add_byte_weights: {}", e))?;
    let y = a.clone() + b.clone();
    same_counts(&y, &m).map_err(|e| format!("+: {}", e))?;
    let mut z = a.clone(); z += b.clone();
    same_counts(&z, &m).map_err(|e| format!("+=: {}", e))?;
    same_counts(&a, &counts(&s)).map_err(|e| format!("operand: {}", e))?;
    same_counts(&b, &counts(&t)).map_err(|e| format!("operand: {}", e))?;
    let mut e = ByteWeights::new(); e += a.clone();
    same_counts(&e, &counts(&s)).map_err(|e| format!("empty +=: {}", e))
}
fn c12(c: &mut Ctx) -> Res {
    let s = gen_slice(&mut c.rng, c.k);
    c.input(format!("{:?}", s));
    let b = match c.rng.below(3) { 0 => ByteWeights::from_bytes(&s), 1 => ByteWeights::threaded_from_bytes(&s, 3), _ => { let (p, q) = s.split_at(s.len() / 2); ByteWeights::from_bytes(p) + ByteWeights::from_bytes(q) } };
    same_counts(&b, &counts(&s))
}
#[derive(Clone)]
struct Bad(u64);
struct BadH(u64, u64);
impl Hasher for BadH { fn finish(&self) -> u64 { self.0 % self.1 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } } }
impl BuildHasher for Bad { type Hasher = BadH; fn build_hasher(&self) -> BadH { BadH(0, self.0) } }
fn wmap<L: HuffLetter>(s: &[L], h: u64) -> Res {
    let m = counts(s);
    let a = build_weights_map(s);
    ck!(a == m, "build_weights_map gives {:?}, expected {:?}", a, m);
    let b = build_weights_map_with_hasher(s, Bad(h));
    ck!(b.len() == m.len() && m.iter().all(|(k, v)| b.get(k) == Some(v)), "build_weights_map_with_hasher gives {:?}, expected {:?}", b, m);
    for (l, n) in &m { ck!(Weights::get(&a, l) == Some(n), "Weights::get differs"); }
    ck!(Weights::len(&a) == m.len() && Weights::is_empty(&a) == m.is_empty(), "Weights::len differs");
    Ok(())
}
fn c13(c: &mut Ctx) -> Res {
    let s = gen_slice(&mut c.rng, c.k);
    let h = [1, 2, 7, 1 << 60][c.rng.below(4)];
    let ty = c.rng.below(4);
    c.input(format!("letter type {}, hasher of {} values, {:?}", ["u8", "u16", "String", "i64"][ty], h, s));
    match ty { 0 => wmap(&s, h), 1 => wmap(&letters_u16(&mut c.rng, &s), h), 2 => wmap(&s.iter().map(|x| format!("{}", x)).collect::<Vec<_>>(), h), _ => wmap(&s.iter().map(|x| -(*x as i64)).collect::<Vec<_>>(), h) }
}
fn packed<L: HuffLetter>(s: &[L], d: &CompressData<L>) -> Res {
    let codes: HashMap<L, Vec<bool>> = view(d.huff_tree().root())?.leaves().into_iter().map(|x| (x.0, x.2)).collect();
    let mut all = vec![];
    for l in s { all.extend(codes.get(l).ok_or("a letter has no leaf")?.iter().copied()); }
    let (b, p) = pack(&all);
    ck!(d.padding_bits() == p, "padding is {}, {} bits need {}", d.padding_bits(), all.len(), p);
    ck!(d.comp_bytes() == &b[..], "stored {:?}, packed codes are {:?}", d.comp_bytes(), b);
    Ok(())
}
fn c14(c: &mut Ctx) -> Res {
    if let Some(v) = heavy(c) { c.input(format!("{} u16 letters beginning {:?} (case {} of seed {})", v.len(), &v[..200], c.k, c.seed)); return packed(&v, &compress(&v)); }
    if c.rng.chance(2) { let s = gen_syms(&mut c.rng, c.k); c.input(format!("compress of {:?}", s)); return packed(&s, &compress(&s)); }
    let mut t = to_u8(&gen_tree(&mut c.rng, c.k, 200));
    let mut l: Vec<u8> = t.leaves().into_iter().map(|x| x.0).collect();
    let mut q = l.clone(); q.sort(); q.dedup();
    if q.len() < l.len() { t = T::Leaf(5, 0); l = vec![5]; }
    let n = c.rng.range(1, 200);
    let s: Vec<u8> = (0..n).map(|_| l[c.rng.below(l.len())]).collect();
    c.input(format!("tree {:?}, letters {:?}", t, s));
    packed(&s, &compress_with_tree(&s, tree_u8(&t)?).map_err(|_| "fails")?)
}
fn c15(c: &mut Ctx) -> Res {
    let t = gen_tree(&mut c.rng, c.k, 120);
    let n = if c.k % 3 == 0 { c.rng.range(1, 3) } else { c.rng.range(1, 80) };
    let d: Vec<u8> = (0..n).map(|_| c.rng.byte()).collect();
    let p = c.rng.below(8) as u8;
    c.input(format!("tree {:?}, data {:?}, padding {}", t, d, p));
    let b = bits(&d);
    let b = &b[..b.len() - p as usize];
    if c.rng.chance(2) {
        let t = to_u8(&t);
        let x = decompress(&CompressData::new(d, p, tree_u8(&t)?));
        ck!(x == t.walk(b), "gives {:?}, the stored bits say {:?}", x, t.walk(b));
    } else {
        let h = HuffTree::<u64>::try_from_bin(bv(&t.enc(&|x| x.to_be_bytes().to_vec()))).map_err(|_| "a valid tree was refused")?;
        let x = decompress(&CompressData::new(d, p, h));
        ck!(x == t.walk(b), "gives {:?}, the stored bits say {:?}", x, t.walk(b));
    }
    Ok(())
}
fn letter_rt<L: HuffLetterAsBytes + Copy>(x: L, be: Vec<u8>, r: &mut Rng) -> Res {
    let a = x.as_be_bytes();
    ck!(a[..] == be[..], "{:?}: as_be_bytes gives {:?}, expected {:?}", x, a, be);
    let y = L::try_from_be_bytes(&be).map_err(|e| format!("{:?}: try_from_be_bytes refuses {:?}: {}", x, be, e))?;
    ck!(y == x, "{:?} comes back as {:?}", x, y);
    let n = r.below(20);
    let s: Vec<u8> = (0..n).map(|_| r.byte()).collect();
    let z = L::try_from_be_bytes(&s);
    ck!(z.is_ok() == (n == be.len()), "slice of {} bytes: {:?}", n, z.is_ok());
    let mut s = be.clone(); if r.chance(2) { s.push(0) } else { s.pop(); }
    ck!(L::try_from_be_bytes(&s).is_err(), "slice of {} bytes is accepted", s.len());
    Ok(())
}
fn c16(c: &mut Ctx) -> Res {
    let v = match c.k % 5 { 0 => 1u128 << c.rng.below(128), 1 => (1u128 << c.rng.below(128)).wrapping_sub(1), 2 => !(1u128 << c.rng.below(128)), _ => (c.rng.u64() as u128) << 64 | c.rng.u64() as u128 };
    c.input(format!("the low bytes of {:#x} as each integer type", v));
    macro_rules! all { ($($t:ty),*) => { $( letter_rt(v as $t, (v as $t).to_be_bytes().to_vec(), &mut c.rng).map_err(|e| format!("{}: {}", stringify!($t), e))?; )* } }
    all!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    Ok(())
}
fn sums<L: Debug + Clone + Eq + std::hash::Hash>(t: &T<L>) -> Res { if let T::Node(a, b, w) = t { ck!(a.weight() + b.weight() == *w, "a joint of {} and {} weighs {}", a.weight(), b.weight(), w); sums(a)?; sums(b)?; } Ok(()) }
fn tree_is<L: HuffLetter + Ord>(h: &HuffTree<L>, mut w: Vec<(L, usize)>) -> Res {
    let t = view(h.root())?;
    let mut l: Vec<(L, usize)> = t.leaves().into_iter().map(|x| (x.0, x.1)).collect();
    l.sort(); w.sort();
    ck!(l == w, "the leaves are {:?}, the weights {:?}", l, w);
    sums(&t)
}
fn c17(c: &mut Ctx) -> Res {
    if c.rng.chance(2) {
        let s = gen_syms(&mut c.rng, c.k); c.input(format!("byte weights of {:?}", s));
        return tree_is(&HuffTree::from_weights(ByteWeights::from_bytes(&s)), counts(&s).into_iter().collect());
    }
    let w = gen_weights(&mut c.rng, c.k); c.input(format!("weights {:?}", w));
    tree_is(&HuffTree::from_weights(w.iter().copied().collect::<HashMap<_, _>>()), w)
}
fn c24(c: &mut Ctx) -> Res {
    let s = gen_slice(&mut c.rng, c.k);
    let mut m = counts(&s);
    let mut b = ByteWeights::from_bytes(&s);
    let mut log = format!("from_bytes({:?})", s);
    c.input(log.clone());
    for _ in 0..c.rng.range(1, 12) {
        let x = if !s.is_empty() && c.rng.chance(2) { s[c.rng.below(s.len())] } else { c.rng.byte() };
        let v = if c.rng.chance(4) { 1usize << c.rng.below(62) } else { c.rng.range(1, 1000) };
        match c.rng.below(3) {
            0 => { log += &format!("; *get_mut({}) = {}", x, v); c.input(log.clone()); let g = b.get_mut(&x); ck!(g.as_deref() == m.get(&x), "get_mut({}) gives {:?}", x, g); if let Some(g) = g { *g = v; m.insert(x, v); } }
            1 => { log += &format!("; *Weights::get_mut({}) = {}", x, v); c.input(log.clone()); let g = Weights::get_mut(&mut b, &x); ck!(g.as_deref() == m.get(&x), "Weights::get_mut({}) gives {:?}", x, g); if let Some(g) = g { *g = v; m.insert(x, v); } }
            _ => { let t = gen_slice(&mut c.rng, 5); log += &format!("; += from_bytes({:?})", t); c.input(log.clone()); b += ByteWeights::from_bytes(&t); for (k, n) in counts(&t) { *m.entry(k).or_insert(0) += n; } }
        }
        same_counts(&b, &m)?;
        let e = b.clone();
        ck!(e == b, "a table differs from its clone");
        if let Some(k) = m.keys().next() { let mut e = b.clone(); *e.get_mut(k).unwrap() += 1; ck!(e != b, "tables with different weights are equal"); }
    }
    let mut h: HashMap<u8, usize> = m.clone();
    let x = c.rng.byte();
    ck!(Weights::get_mut(&mut h, &x).map(|v| *v) == m.get(&x).copied() && Weights::get(&h, &x) == m.get(&x) && Weights::len(&h) == m.len() && Weights::is_empty(&h) == m.is_empty(), "HashMap as Weights differs from HashMap");
    ck!(ByteWeights::new().is_empty() && ByteWeights::default().len() == 0 && ByteWeights::new().get(&x).is_none(), "a new table is not empty");
    Ok(())
}
/// the known findings, run on the default stack
pub fn known(id: &str) {
    if id == "C06" { let _ = HuffTree::<u8>::try_from_bin(bv(&vec![true; 4_000_000])); }
    if id == "C08" { let mut v = layout(0, 0, &vec![255; 500_000], &[0]); v.push(0); let _ = CompressData::<u8>::try_from_bytes(&v); }
    if id == "C20" { std::fs::write(std::env::args().nth(3).unwrap(), layout(0, 0, &vec![255; 500_000], &[0, 0])).unwrap(); }
}
pub fn table(p: &str) -> Option<fn(&mut Ctx) -> Res> {
    Some(match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11, "C12" => c12,
        "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => c17, "C24" => c24, _ => return None,
    })
}
