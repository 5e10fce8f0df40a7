#!/usr/bin/env python3
"""dev: mkseed.py ID PROP FILE "needs" "breaks" < edits; makes a scratch copy of /repo, applies
old==>new edits, builds, tests, runs the demo on both trees, and stores patch.diff/meta.json.
The demo (demo.rs or demo.sh) must already be in seeded/ID."""
import sys, os, subprocess, json, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(id, prop, edits, needs, breaks, demo_rs=None, demo_sh=None):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    if demo_rs is not None:
        open(d + "/demo.rs", "w").write(demo_rs)
        demo_sh = '''#!/bin/bash
# builds demo.rs against the library in the current directory's tree and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nhuff_coding = { path = "%s/huff_coding" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 2; }
timeout 120 "$t/target/debug/demo"
'''
    if demo_sh is not None: open(d + "/demo.sh", "w").write(demo_sh); os.chmod(d + "/demo.sh", 0o755)
    c = "/tmp/sd"
    if os.path.exists(c): shutil.rmtree(c)
    sh("cp -a /repo " + c)
    for f, a, b in edits:
        p = c + "/" + f; s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w", newline="").write(s.replace(a, b))
    diff = sh("git -C %s diff" % c).stdout
    open(d + "/patch.diff", "w", newline="").write(subprocess.run("git -C %s diff" % c, shell=True, capture_output=True).stdout.decode())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("bash /opt/vp/build.sh"); ok = sh("cd /repo && bash %s/demo.sh" % d)
    shutil.rmtree(c)
    # with the patch, in /repo itself, undone straight afterwards
    a = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/sd.json")
        bad = sh("cd /repo && bash %s/demo.sh" % d)
        base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/sd.json"))
    finally:
        sh("git -C /repo checkout -- .")
    names = lambda j: set(j if isinstance(j, list) else j.get("passed", j.get("stable", j)))
    failed = sorted(set(x for x in names(base)) - names(res))
    print(id, "apply", a.returncode, "build", b.returncode, "demo clean", ok.returncode, "demo patched", bad.returncode, "lost tests", failed[:5], ok.stdout[-200:] + ok.stderr[-300:] if ok.returncode else "", (bad.stdout + bad.stderr)[-160:])
    if b.returncode: print(b.stderr[-800:])
