//! Concrete search: runs the real crate on generated inputs and compares it with
//! independent reference implementations.  Used to turn a failed obligation into a
//! failing input, and to exercise what the proofs assume about the standard library.
//! usage: hc PROPERTY SEED SECONDS CASEFILE [ONLY_CASE]
mod reference;
mod cases;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng { let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5DEECE66D); r.u64(); r.u64(); r }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n.max(1) as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn byte(&mut self) -> u8 { self.u64() as u8 }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
}

pub struct Ctx { pub rng: Rng, pub k: u64, pub seed: u64, pub note: Arc<Mutex<String>>, pub file: String, pub trivial: bool }
impl Ctx {
    /// the input about to be run
    pub fn input(&mut self, s: String) {
        *self.note.lock().unwrap() = s;
    }
}
pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o
}
fn clip(s: &str) -> String { let mut t: String = s.chars().take(3000).collect(); if t.len() < s.len() { t += "..."; } t }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    if prop == "known" { cases::known(&a[2]); return; }
    if prop == "lib" { std::process::exit(lib(&a[2..])); }
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let file = a[4].clone();
    let only: Option<u64> = a.get(5).map(|x| x.parse().unwrap());
    let f = cases::table(&prop).expect("unknown property");
    let note = Arc::new(Mutex::new(String::new()));
    let cur = Arc::new(Mutex::new((0u64, Instant::now())));
    std::panic::set_hook(Box::new(|_| {}));
    // a case that gives no answer is a failure
    {
        let (note, cur) = (note.clone(), cur.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (k, t) = *cur.lock().unwrap();
            if t.elapsed() > Duration::from_secs(60) {
                println!("{{\"fail\":{{\"case\":{},\"input\":\"{}\",\"what\":\"no answer within 60 s\"}}}}", k, esc(&clip(&note.lock().unwrap())));
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        });
    }
    let run = move || {
        let t0 = Instant::now();
        let mut n = 0u64;
        let mut seen = std::collections::HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut k = only.unwrap_or(0);
        loop {
            *cur.lock().unwrap() = (k, Instant::now());
            note.lock().unwrap().clear();
            let mut c = Ctx { rng: Rng::new(seed, k), k, seed, note: note.clone(), file: file.clone(), trivial: false };
            // so that a crash of the whole process can be traced to its case
            let _ = std::fs::write(&file, format!("{}", k));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
            let inp = note.lock().unwrap_or_else(|e| e.into_inner()).clone();
            let err = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(p) => Some(format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
            };
            if let Some(e) = err {
                println!("{{\"fail\":{{\"case\":{},\"input\":\"{}\",\"what\":\"{}\"}}}}", k, esc(&clip(&inp)), esc(&clip(&e)));
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
            n += 1;
            if !c.trivial {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                inp.hash(&mut h);
                if seen.insert(h.finish()) && (samples.len() < 3 || (samples.len() < 6 && k % 97 == 0)) { samples.push(inp.chars().take(300).collect()); }
            }
            k += 1;
            if only.is_some() || t0.elapsed().as_secs_f64() > secs { break; }
        }
        println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}", n, seen.len(), samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().unwrap();
}

/// `hc lib pack IN OUT`: the library's byte form of IN with the tree of its byte counts;
/// `hc lib packtree IN OUT SEED`: with some other tree that has all its letters;
/// `hc lib unpack IN OUT`: 0 and the content, or 1 if the library refuses IN
fn lib(a: &[String]) -> i32 {
    use huff_coding::prelude::*;
    let data = std::fs::read(&a[1]).unwrap();
    match &a[0][..] {
        "pack" | "packtree" => {
            let mut text = data.clone();
            if a[0] == "packtree" {
                let mut r = Rng::new(a[3].parse().unwrap(), 77);
                for _ in 0..r.below(40) { let b = r.byte(); let m = 1 << r.below(12); for _ in 0..r.range(1, m) { text.push(b); } }
            }
            let tree = HuffTree::from_weights(ByteWeights::from_bytes(&text));
            let c = compress_with_tree(&data, tree).unwrap();
            std::fs::write(&a[2], c.to_bytes()).unwrap();
            0
        }
        "unpack" => match CompressData::<u8>::try_from_bytes(&data) {
            Ok(c) => { std::fs::write(&a[2], decompress(&c)).unwrap(); 0 }
            Err(_) => 1,
        },
        _ => 2,
    }
}
