//! vx: mechanical extraction of the real /repo sources into one Verus crate.
mod annot;
mod desugar;
mod mac;
mod print;
mod transform;
mod world;

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};

fn usage() -> ! { eprintln!("usage: vx <repo> <specdir> <outdir> [--external KEY]... [--write-baseline] [--baseline FILE]"); std::process::exit(2) }

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 3 { usage(); }
    let repo = PathBuf::from(&args[0]);
    let specdir = PathBuf::from(&args[1]);
    let out = PathBuf::from(&args[2]);
    let mut ext = HashSet::new();
    let mut write_baseline = false;
    let mut only: Option<String> = None;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--external" => { ext.insert(args[i + 1].clone()); i += 2; }
            "--only" => { only = Some(args[i + 1].clone()); i += 2; }
            "--write-baseline" => { write_baseline = true; i += 1; }
            _ => usage(),
        }
    }
    std::fs::create_dir_all(&out).unwrap();
    let specs = match annot::load_dir(&specdir, only.as_deref() == Some("huff_coding")) { Ok(s) => s, Err(e) => { eprintln!("vx: spec error: {}", e); std::process::exit(2) } };
    let baseline_path = specdir.join("baseline.json");
    let baseline: BTreeMap<String, String> = std::fs::read_to_string(&baseline_path).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();

    let mut crates = vec![];
    for (name, dir) in [("huff_coding", "huff_coding/src"), ("huff", "huff/src")] {
        if only.as_deref().map_or(false, |o| o != name) { continue; }
        match load_crate(&repo.join(dir).join("lib.rs")) {
            Ok(mut items) => {
                // the program: `main.rs` as module `main` of its library
                let m = repo.join(dir).join("main.rs");
                if m.exists() && !items.iter().any(|i| matches!(i, syn::Item::Mod(x) if x.ident == "main")) {
                    match load_crate(&m) {
                        Ok(its) => items.push(syn::parse_quote!(pub mod main { #(#its)* })),
                        Err(e) => { eprintln!("vx: cannot load {}: {}", m.display(), e); std::process::exit(3) }
                    }
                }
                crates.push((name.to_string(), items))
            }
            Err(e) => { eprintln!("vx: cannot load {}: {}", name, e); std::process::exit(3) }
        }
    }
    let mut t = transform::Extractor::new(specs, ext, baseline);
    let res = t.run(crates);
    std::fs::write(out.join("out.rs"), &res.text).unwrap();
    std::fs::write(out.join("map.json"), serde_json::to_string_pretty(&res.map).unwrap()).unwrap();
    if write_baseline { std::fs::write(&baseline_path, serde_json::to_string_pretty(&res.baseline).unwrap()).unwrap(); }
}

fn load_crate(root: &Path) -> Result<Vec<syn::Item>, String> {
    let f = parse(root)?;
    load_items(f.items, root.parent().unwrap().to_path_buf())
}
fn parse(p: &Path) -> Result<syn::File, String> {
    let s = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
    syn::parse_file(&s).map_err(|e| format!("{}: {}", p.display(), e))
}
/// `dir` is the directory in which child modules of this module live.
fn load_items(items: Vec<syn::Item>, dir: PathBuf) -> Result<Vec<syn::Item>, String> {
    let mut out = vec![];
    for it in items {
        match it {
            syn::Item::Mod(mut m) => {
                if is_cfg_test(&m.attrs) { continue; }
                let name = m.ident.to_string();
                if let Some((b, its)) = m.content.take() {
                    m.content = Some((b, load_items(its, dir.join(&name))?));
                } else {
                    let a = dir.join(format!("{}.rs", name));
                    let p = if a.exists() { a } else { dir.join(&name).join("mod.rs") };
                    let f = parse(&p)?;
                    m.content = Some((Default::default(), load_items(f.items, dir.join(&name))?));
                    m.semi = None;
                }
                out.push(syn::Item::Mod(m));
            }
            x => out.push(x),
        }
    }
    Ok(out)
}
pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().replace(' ', "") == "#[cfg(test)]")
}
