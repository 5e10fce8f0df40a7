//! The annotation files (`*.vxs`): contracts, loop invariants, ghost code and
//! ghost items, keyed by the path of the real item they annotate.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Anchor {
    Start,
    End,
    LoopBegin(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
    Before(usize, String),
    After(usize, String),
}
#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub spec: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub closures: BTreeMap<usize, (Option<String>, String)>,
    pub at: Vec<(Anchor, String)>,
    pub seen: bool,
    /// takes the ghost world
    pub world: bool,
}
#[derive(Default, Debug)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub items: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, String>,
    pub traititems: BTreeMap<String, String>,
    pub dropimpl: Vec<String>,
    pub private: Vec<String>,
    pub paths: Vec<(Vec<String>, Vec<String>)>,
    pub prelude: String,
    pub worldcalls: Vec<String>,
    pub worldmethods: Vec<String>,
}

fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn opt<'a>(head: &'a str, key: &str) -> Option<String> {
    let k = format!("{}=", key);
    let p = head.find(&k)?;
    let rest = &head[p + k.len()..];
    if let Some(r) = rest.strip_prefix('"') { return Some(r[..r.find('"')?].to_string()); }
    Some(rest.split_whitespace().next()?.to_string())
}

/// `*_cmd_*` files are about the command line only
pub fn load_dir(dir: &Path, library: bool) -> Result<Specs, String> {
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    let mut s = Specs::default();
    for f in &files {
        if library && f.file_name().and_then(|n| n.to_str()).map_or(false, |n| n.contains("_cmd_")) { continue; }
        match f.extension().and_then(|e| e.to_str()) {
            Some("vxs") => load(&mut s, &std::fs::read_to_string(f).map_err(|e| e.to_string())?).map_err(|e| format!("{}: {}", f.display(), e))?,
            Some("rs") => { s.prelude.push_str(&std::fs::read_to_string(f).map_err(|e| e.to_string())?); s.prelude.push('\n'); }
            _ => {}
        }
    }
    Ok(s)
}

enum Cur { None, Fn(String), Loop(String, usize), Closure(String, usize), At(String, usize), Items(String), Attr(String), TraitItems(String) }

fn load(s: &mut Specs, text: &str) -> Result<(), String> {
    let mut cur = Cur::None;
    let mut curfn = String::new();
    for (ln, line) in text.lines().enumerate() {
        if let Some(h) = line.strip_prefix('@') {
            let err = |m: &str| format!("line {}: {}", ln + 1, m);
            let (kw, rest) = h.split_once(' ').unwrap_or((h, ""));
            let rest = rest.trim();
            let word = rest.split_whitespace().next().unwrap_or("").to_string();
            match kw {
                "fn" => {
                    if s.fns.contains_key(&word) { return Err(err(&format!("duplicate @fn {}", word))); }
                    let mut f = FnSpec { ret: opt(rest, "ret"), ..Default::default() };
                    if let Some(a) = opt(rest, "attr") { f.attrs = a.split(';').map(|x| x.to_string()).collect(); }
                    f.world = rest.split_whitespace().any(|w| w == "world");
                    s.fns.insert(word.clone(), f);
                    curfn = word.clone();
                    cur = Cur::Fn(word);
                }
                "more" => {
                    if !s.fns.contains_key(&word) { return Err(err(&format!("no @fn {}", word))); }
                    curfn = word.clone();
                    cur = Cur::Fn(word);
                }
                "loop" => {
                    let k: usize = word.parse().map_err(|_| err("loop number"))?;
                    s.fns.get_mut(&curfn).ok_or(err("no fn"))?.loops.insert(k, (opt(rest, "iter"), String::new()));
                    cur = Cur::Loop(curfn.clone(), k);
                }
                "closure" => {
                    let k: usize = word.parse().map_err(|_| err("closure number"))?;
                    s.fns.get_mut(&curfn).ok_or(err("no fn"))?.closures.insert(k, (opt(rest, "ret"), String::new()));
                    cur = Cur::Closure(curfn.clone(), k);
                }
                "at" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let a = match w.as_slice() {
                        ["start"] => Anchor::Start,
                        ["end"] => Anchor::End,
                        ["loop", k, "begin"] => Anchor::LoopBegin(k.parse().map_err(|_| err("k"))?),
                        ["loop", k, "end"] => Anchor::LoopEnd(k.parse().map_err(|_| err("k"))?),
                        ["before", "loop", k] => Anchor::BeforeLoop(k.parse().map_err(|_| err("k"))?),
                        ["after", "loop", k] => Anchor::AfterLoop(k.parse().map_err(|_| err("k"))?),
                        [w0, ..] if *w0 == "before" || *w0 == "after" => {
                            let a = rest.find('`').ok_or(err("pattern"))?;
                            let b = rest.rfind('`').unwrap();
                            let n: usize = rest[w0.len()..a].trim().parse().unwrap_or(0);
                            let p = norm(&rest[a + 1..b]);
                            if *w0 == "before" { Anchor::Before(n, p) } else { Anchor::After(n, p) }
                        }
                        _ => return Err(err("bad anchor")),
                    };
                    let f = s.fns.get_mut(&curfn).ok_or(err("no fn"))?;
                    f.at.push((a, String::new()));
                    cur = Cur::At(curfn.clone(), f.at.len() - 1);
                }
                "items" => { s.items.entry(word.clone()).or_default(); cur = Cur::Items(word); }
                "attr" => { s.attrs.entry(word.clone()).or_default(); cur = Cur::Attr(word); }
                "traititems" => { s.traititems.entry(word.clone()).or_default(); cur = Cur::TraitItems(word); }
                "worldcall" => { s.worldcalls.extend(rest.split_whitespace().map(|x| x.to_string())); cur = Cur::None; }
                "worldmethod" => { s.worldmethods.extend(rest.split_whitespace().map(|x| x.to_string())); cur = Cur::None; }
                "private" => { s.private.push(norm(rest)); cur = Cur::None; }
                "dropimpl" => { s.dropimpl.push(norm(rest)); cur = Cur::None; }
                "path" => {
                    let (a, b) = rest.split_once("=>").ok_or(err("path"))?;
                    let sp = |x: &str| x.trim().split("::").map(|y| y.to_string()).collect::<Vec<_>>();
                    s.paths.push((sp(a), sp(b)));
                    cur = Cur::None;
                }
                "--" => { cur = Cur::None; }
                _ => return Err(err(&format!("unknown directive @{}", kw))),
            }
            continue;
        }
        let dst: Option<&mut String> = match &cur {
            Cur::None => None,
            Cur::Fn(f) => Some(&mut s.fns.get_mut(f).unwrap().spec),
            Cur::Loop(f, k) => Some(&mut s.fns.get_mut(f).unwrap().loops.get_mut(k).unwrap().1),
            Cur::Closure(f, k) => Some(&mut s.fns.get_mut(f).unwrap().closures.get_mut(k).unwrap().1),
            Cur::At(f, i) => Some(&mut s.fns.get_mut(f).unwrap().at[*i].1),
            Cur::Items(m) => Some(s.items.get_mut(m).unwrap()),
            Cur::Attr(m) => Some(s.attrs.get_mut(m).unwrap()),
            Cur::TraitItems(m) => Some(s.traititems.get_mut(m).unwrap()),
        };
        if let Some(d) = dst { d.push_str(line); d.push('\n'); }
    }
    Ok(())
}
