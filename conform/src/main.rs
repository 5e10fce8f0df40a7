//! Tests of what the proofs assume about dependencies: every contract of spec/00_stub.rs and
//! spec/04_cmd_world.rs that is not itself verified, against the real thing.  Exhaustive where
//! the domain is small, sampled otherwise.  Prints one line per assumption; exit 1 if one fails.
mod stdx;
use bitvec::prelude::*;
use std::collections::{BinaryHeap, HashMap};
use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

pub struct R(u64);
impl R {
    fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) }
    fn b(&mut self, k: u64) -> u64 { (self.n() >> 11) % k }
    fn bytes(&mut self, k: usize) -> Vec<u8> { (0..k).map(|_| self.n() as u8).collect() }
}
fn bits_of(v: &[u8]) -> Vec<bool> { v.iter().flat_map(|b| (0..8).map(move |k| b >> (7 - k) & 1 == 1)).collect() }
type Bv = BitVec<Msb0, u8>;
fn eqv(b: &Bv, m: &[bool]) -> bool { b.len() == m.len() && b.is_empty() == m.is_empty() && b.iter().map(|x| *x).eq(m.iter().cloned()) && (&*b).into_iter().map(|x| *x).eq(m.iter().cloned()) }

// BitVec is a sequence of bits; only pushed to, its last byte ends in zeros
fn bitvec_ops(r: &mut R) -> Result<(), String> {
    let (mut b, mut m, mut clean) = match r.b(4) {
        0 => (Bv::new(), vec![], true),
        1 => (Bv::with_capacity(r.b(100) as usize), vec![], true),
        2 => { let x = (r.b(2) == 1, r.b(2) == 1); let b: Bv = bitvec![Msb0, u8; x.0 as u8, x.1 as u8]; (b, vec![x.0, x.1], true) }
        _ => { let k = r.b(9) as usize; let v = r.bytes(k); let m = bits_of(&v); (Bv::from_vec(v), m, false) }
    };
    let n = r.b(60);
    for _ in 0..n {
        match r.b(12) {
            0 => { if r.b(3) == 0 { let x = b.pop(); if x != m.pop() { return Err("pop".into()); } clean = false; } }
            2 => { if r.b(4) == 0 { let k = r.b(40) as usize; b.truncate(k); m.truncate(k); clean = false; } }
            1 => { let c = b.clone(); if !eqv(&c, &m) { return Err("clone".into()); } b = c; }
            _ => { let x = r.b(2) == 1; b.push(x); m.push(x); }
        }
        if !eqv(&b, &m) { return Err(format!("{:?} {:?}", b, m)); }
    }
    // iter_mut, next and take through &mut, as the tree reader uses them
    {
        let mut c = b.clone(); let mut it = c.iter_mut(); let mut p = 0;
        for _ in 0..r.b(12) {
            if r.b(2) == 0 {
                let x = it.next().map(|x| *x);
                if x != m.get(p).cloned() { return Err("iter_mut next".into()); }
                if x.is_some() { p += 1; }
            } else {
                let k = r.b(20) as usize;
                let x: Vec<bool> = (&mut it).take(k).map(|x| *x).collect();
                let e = p + k.min(m.len() - p);
                if x[..] != m[p..e] { return Err("iter_mut take".into()); }
                p = e;
            }
        }
    }
    let v = b.into_vec();
    if v.len() != (m.len() + 7) / 8 { return Err(format!("into_vec length {} of {} bits", v.len(), m.len())); }
    let w = bits_of(&v);
    if w[..m.len()] != m[..] { return Err("into_vec bits".into()); }
    if clean && w[m.len()..].iter().any(|x| *x) { return Err("into_vec tail".into()); }
    Ok(())
}
#[derive(PartialEq, Eq, Clone, Debug)]
struct It(u64, u64);
impl Ord for It { fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.0.cmp(&self.0) } }
impl PartialOrd for It { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
fn heap(r: &mut R) -> Result<(), String> {
    let mut h = BinaryHeap::new(); let mut m: Vec<It> = vec![];
    let hi = 1 + r.b(50);
    for i in 0..r.b(200) {
        if r.b(3) > 0 { let x = It(r.b(hi), i); h.push(x.clone()); m.push(x); }
        else {
            match h.pop() {
                None => if !m.is_empty() { return Err("pop of a non-empty heap".into()); },
                Some(x) => {
                    if m.iter().any(|y| *y > x) { return Err("not a greatest item".into()); }
                    let k = m.iter().position(|y| *y == x && y.1 == x.1).ok_or("an item that was not there")?; m.swap_remove(k);
                }
            }
        }
        if h.len() != m.len() || h.is_empty() != m.is_empty() { return Err("len".into()); }
    }
    Ok(())
}
fn maps(r: &mut R) -> Result<(), String> {
    let mut h: HashMap<u8, u64, _> = HashMap::with_hasher(std::collections::hash_map::RandomState::new());
    if !h.is_empty() { return Err("with_hasher".into()); }
    let mut m = vec![None; 256];
    for _ in 0..r.b(100) {
        let k = r.n() as u8 % 40;
        match h.get_mut(&k) {
            None => { if m[k as usize].is_some() { return Err("get_mut".into()); } let v = r.n(); h.insert(k, v); m[k as usize] = Some(v); }
            Some(x) => { if m[k as usize] != Some(*x) { return Err("get_mut value".into()); } *x ^= 5; m[k as usize] = Some(*x); }
        }
        for j in 0..=255u8 { if h.get(&j).cloned() != m[j as usize] { return Err("frame of get_mut".into()); } }
    }
    let s = r.bytes(20); if s[..].to_vec() != s { return Err("to_vec".into()); }
    let mut v = s.clone(); v.extend(&s[..3]); v.extend(s.iter()); v.extend([1u8, 2]); v.extend(s.clone()); v.extend(&s);
    let mut w = s.clone(); w.extend_from_slice(&s[..3]); w.extend_from_slice(&s); w.push(1); w.push(2); w.extend_from_slice(&s); w.extend_from_slice(&s);
    if v != w { return Err("extend".into()); }
    let k = r.b(6) as usize;
    let a: Result<[u8; 4], _> = s[..k].try_into();
    if a.is_ok() != (k == 4) || a.map_or(false, |a| a[..] != s[..4]) { return Err("try_into".into()); }
    v.reserve_exact(100); if v != w { return Err("reserve_exact".into()); }
    let x = r.n();
    if std::thread::spawn(move || x + 0).join().ok() != Some(x) { return Err("join".into()); }
    Ok(())
}
// le_seq: x % 256, then the rest of x / 256 (rounding down)
macro_rules! ints { ($($t:ty),*) => { fn ints(r: &mut R) -> Result<(), String> { $({
    const N: usize = std::mem::size_of::<$t>();
    let one = |x: $t| -> Result<(), String> {
        let mut y = x; let mut le = vec![];
        for k in 0..N { le.push(y.rem_euclid((255 as $t).wrapping_add(1).max(1)) as u8); let _ = k; if N > 1 { y = y.div_euclid((255 as $t).wrapping_add(1).max(1)); } }
        if N == 1 { le = vec![x as u8]; }
        if x.to_le_bytes()[..] != le[..] { return Err(format!("{} of {}", stringify!($t), x)); }
        le.reverse();
        if x.to_be_bytes()[..] != le[..] { return Err(format!("{} of {}", stringify!($t), x)); }
        let mut a = [0u8; N]; a.copy_from_slice(&le);
        if <$t>::from_be_bytes(a) != x { return Err("from_be_bytes".into()); }
        a.reverse(); if <$t>::from_le_bytes(a) != x { return Err("from_le_bytes".into()); }
        Ok(())
    };
    if N <= 2 { for x in <$t>::MIN..=<$t>::MAX { one(x)?; } }
    else {
        for x in [<$t>::MIN, <$t>::MAX, 0, 1, 255, 256 as $t, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(256 as $t)] { one(x)?; }
        for _ in 0..2000 { let mut a = [0u8; N]; for b in a.iter_mut() { *b = if r.b(3) == 0 { [0, 255, 128, 127][r.b(4) as usize] } else { r.n() as u8 }; } one(<$t>::from_ne_bytes(a))?; }
    }
    })* Ok(()) } } }
#[allow(overflowing_literals)]
mod i { use super::R; ints!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128); pub fn run(r: &mut R) -> Result<(), String> { ints(r) } }

// texts
fn lower_y() -> Result<(), String> {
    for c in '\0'..=char::MAX {
        for s in [format!("{}", c), format!("{}x", c), format!("{}Y", c), format!("{}\u{307}", c)] {
            let a = s.starts_with('y') || s.starts_with('Y');
            if s.to_lowercase().starts_with("y") != a { return Err(format!("{:?}", s)); }
        }
        let l = if ('A'..='Z').contains(&c) { ((c as u32 + 32) as u8) as char } else { c };
        if format!("a{}Z", c).to_ascii_lowercase() != format!("a{}z", l) { return Err(format!("to_ascii_lowercase of {:?}", c)); }
        if c.is_ascii_digit() != ('0' <= c && c <= '9') { return Err(format!("is_ascii_digit of {:?}", c)); }
    }
    if "".to_lowercase().starts_with("y") { return Err("empty".into()); }
    Ok(())
}
fn parsed(r: &mut R) -> Result<(), String> {
    for _ in 0..200 {
        let s: String = match r.b(4) {
            0 => (0..r.b(45)).map(|_| (b'0' + r.b(10) as u8) as char).collect(),
            1 => format!("{}{}", "0".repeat(r.b(30) as usize), r.n()),
            2 => format!("{}", usize::MAX as u128 - 2 + r.b(5) as u128),
            _ => format!("{}", r.b(1000)),
        };
        // decimal, with saturation far above
        let mut v = Some(0u128);
        for c in s.bytes() { v = v.map(|x| (10 * x + (c - b'0') as u128).min(1 << 100)); }
        let want = if s.is_empty() { None } else { v.filter(|x| *x <= usize::MAX as u128).map(|x| x as usize) };
        if s.parse::<usize>().ok() != want { return Err(s); }
    }
    for (a, n) in [(1024usize, 3u32), (2, 63), (10, 19), (7, 0), (0, 0), (3, 20)] { let mut p = 1usize; for _ in 0..n { p *= a; } if a.pow(n) != p { return Err("pow".into()); } }
    Ok(())
}
// paths: every plain name of up to 4 characters, under some directories
fn paths() -> Result<(), String> {
    let al = ['a', '.', 'h', 'f', ' ', '\u{e9}'];
    let mut names: Vec<String> = vec![String::new()]; let mut all = vec![];
    for _ in 0..5 { names = names.iter().flat_map(|n| al.iter().map(move |c| format!("{}{}", n, c))).collect(); all.extend(names.clone()); }
    all.extend(["SRC_FILE.hff", "x.hff", "x.tar.hff", ".hff", "a.hff.hff"].iter().map(|s| s.to_string()));
    let plain = |n: &str| !n.is_empty() && !n.contains('/') && !n.ends_with('.') && !n.starts_with("..");
    let os = |s: &std::ffi::OsStr| s.to_str().unwrap().to_string();
    let txt = |p: &Path| p.to_str().unwrap().to_string();
    for n in all.iter().filter(|n| plain(n)) {
        let dot = n.rfind('.').filter(|k| *k > 0);
        for d in ["", "./", "/", "d/", "../", "d/./", "d//", "/d/e/", "d.x/"] {
            let p = format!("{}{}", d, n); let q = Path::new(&p);
            if q.file_name().map(os) != Some(n.clone()) { return Err(format!("file_name of {:?}", p)); }
            if q.extension().map(os) != dot.map(|k| n[k + 1..].to_string()) { return Err(format!("extension of {:?}", p)); }
            for e in ["", "hff", "txt.hff", " .x"] {
                let want = format!("{}{}{}", d, dot.map_or(&n[..], |k| &n[..k]), if e.is_empty() { String::new() } else { format!(".{}", e) });
                if txt(&q.with_extension(e)) != want { return Err(format!("with_extension {:?} of {:?}: {:?}", e, p, q.with_extension(e))); }
                let mut b = PathBuf::from(&p); b.set_extension(e);
                if txt(&b) != want { return Err(format!("set_extension {:?} of {:?}", e, p)); }
            }
            if !d.is_empty() {
                let mut b = PathBuf::from(d); b.push(n);
                if txt(&b) != p || txt(&Path::new(d).join(n)) != p { return Err(format!("push {:?} to {:?}", n, d)); }
            }
            for o in ["./SRC_FILE.hff", "./a", "a", "d/a.h", "./a.h"] {
                if PathBuf::from(&p) == Path::new(o) && q.file_name() != Path::new(o).file_name() { return Err(format!("{:?} == {:?}", p, o)); }
            }
            if PathBuf::from(&p) != Path::new(&p) { return Err("==".into()); }
        }
    }
    let mut b = PathBuf::from("./SRC_FILE.hff"); b.set_file_name("");
    if txt(&b) != "./" { return Err(format!("set_file_name: {:?}", b)); }
    let mut e = std::ffi::OsString::from("ab"); e.push("."); e.push("c");
    if e != "ab.c" || e.is_empty() { return Err("OsString".into()); }
    Ok(())
}
// files: a writer's bytes are the overwritten ones after flush; reading, seeking, limits
fn files(r: &mut R, dir: &Path) -> Result<(), String> {
    let io = |e: std::io::Error| format!("{}", e);
    let p = dir.join("w"); let old = r.b(100) as usize; let old = r.bytes(old); std::fs::write(&p, &old).map_err(io)?;
    let f = std::fs::File::create(&p).map_err(io)?;
    if std::fs::metadata(&p).map_err(io)?.len() != 0 { return Err("create does not empty".into()); }
    let mut m: Vec<u8> = vec![]; let mut pos = 0usize;
    let mut w = if r.b(2) == 0 { BufWriter::new(f) } else { BufWriter::with_capacity(1 + r.b(50) as usize, f) };
    for _ in 0..r.b(12) {
        match r.b(5) {
            0 => { let t = r.b(m.len() as u64 + 1); let k = w.seek(SeekFrom::Start(t)).map_err(io)?; pos = t as usize; if k != t { return Err("seek".into()); }
                   if std::fs::read(&p).map_err(io)? != m { return Err("seek does not flush".into()); } }
            1 => { w.flush().map_err(io)?; if std::fs::read(&p).map_err(io)? != m { return Err("flush".into()); } }
            2 => { let t = r.b(m.len() as u64 + 1) as i64; let k = w.seek(SeekFrom::End(-t)).map_err(io)?; pos = m.len() - t as usize; if k as usize != pos { return Err("seek from the end".into()); } }
            k => {
                let c = r.b(30) as usize; let mut b = r.bytes(c);
                if k == 3 { let c = w.write(&b).map_err(io)?; b.truncate(c); } else { w.write_all(&b).map_err(io)?; }
                let e = (pos + b.len()).min(m.len()); m.splice(pos..e, b.iter().cloned()); pos += b.len();
            }
        }
    }
    w.flush().map_err(io)?; drop(w);
    if std::fs::read(&p).map_err(io)? != m { return Err("bytes written".into()); }
    let f = std::fs::File::open(&p).map_err(io)?;
    if f.metadata().map_err(io)?.len() as usize != m.len() { return Err("metadata".into()); }
    let mut q = BufReader::with_capacity(1 + r.b(60) as usize, f); let mut pos = 0;
    for _ in 0..r.b(10) {
        match r.b(5) {
            0 => { let t = r.b(m.len() as u64 + 1); q.seek(SeekFrom::Start(t)).map_err(io)?; pos = t as usize; }
            1 => { let k = r.b(20) as usize; let mut b = vec![0; k];
                   let ok = q.read_exact(&mut b).is_ok(); if ok != (pos + k <= m.len()) { return Err("read_exact".into()); }
                   if ok { if b[..] != m[pos..pos + k] { return Err("bytes read".into()); } pos += k; } else { break; } }
            2 => { let k = 1 + r.b(20) as usize; let mut b = vec![0; k]; let n = q.read(&mut b).map_err(io)?;
                   if n > k || b[..n] != m[pos..pos + n] || (n == 0) != (pos == m.len()) { return Err("read".into()); } pos += n; }
            3 => { let k = r.b(20) as usize; let mut b = vec![7]; let mut t = (&mut q).take(k as u64); if t.limit() as usize != k { return Err("limit".into()); }
                   let n = t.read_to_end(&mut b).map_err(io)?; let e = m.len().min(pos + k);
                   if n != e - pos || b[0] != 7 || b[1..] != m[pos..e] { return Err("take".into()); } pos = e; }
            _ => { let mut b = vec![]; q.read_to_end(&mut b).map_err(io)?; if b[..] != m[pos..] { return Err("read_to_end".into()); } pos = m.len(); }
        }
    }
    // names
    use std::os::unix::fs::MetadataExt;
    let (a, b, c) = (dir.join("n1"), dir.join("n2"), dir.join("n3"));
    for x in [&a, &b, &c] { let _ = std::fs::remove_file(x); }
    if a.try_exists().map_err(io)? || a.exists() || a.is_dir() || !dir.is_dir() { return Err("exists".into()); }
    std::fs::write(&a, b"1").map_err(io)?; std::fs::hard_link(&a, &b).map_err(io)?; std::os::unix::fs::symlink(&a, &c).map_err(io)?;
    let id = |x: &Path| std::fs::metadata(x).map(|m| (m.dev(), m.ino())).map_err(io);
    if id(&a)? != id(&b)? || id(&a)? != id(&c)? || id(&a)? == id(&p)? { return Err("dev and ino".into()); }
    std::fs::remove_file(&b).map_err(io)?;
    if b.exists() || std::fs::read(&a).map_err(io)? != b"1" { return Err("remove_file".into()); }
    std::fs::remove_file(&a).map_err(io)?;
    if c.exists() || c.try_exists().map_err(io)? { return Err("a name that leads nowhere".into()); }
    Ok(())
}
fn main() {
    let secs: f64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(2.0);
    let seed: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::temp_dir().join(format!("conform-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let mut r = R(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut bad = 0;
    let mut say = |n: &str, k: u64, x: Result<(), String>| { match x { Ok(()) => println!("ok {} {}", n, k), Err(e) => { bad += 1; println!("FAIL {} {}: {}", n, k, e) } } };
    say("texts-every-char", 1, lower_y());
    say("paths-every-short-name", 1, paths());
    let sampled: [(&str, &dyn Fn(&mut R) -> Result<(), String>); 7] = [("std-pure", &stdx::run), ("bitvec", &bitvec_ops), ("binary-heap", &heap), ("std-collections", &maps), ("integer-bytes", &i::run), ("numbers", &parsed), ("files", &|r| files(r, &dir))];
    for (n, f) in sampled.iter() {
        let t = std::time::Instant::now(); let mut k = 0; let mut x = Ok(());
        while (k == 0 || t.elapsed().as_secs_f64() < secs / 7.0) && x.is_ok() { k += 1; x = f(&mut r); }
        say(n, k, x);
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
