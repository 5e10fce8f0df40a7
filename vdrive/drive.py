import signal, os, re, sys, json, time, subprocess, shutil, fnmatch, tempfile, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
T0 = time.time()

def run(cmd, timeout=None, env=None, cwd=None, mem=None):
    e = dict(os.environ)
    if env: e.update(env)
    pre = None
    if mem:
        import resource
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        # with everything it started
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.kill(); p.communicate()
        return -999, "", ""

def build_vx():
    exe = os.path.join(BUILD, "vx/release/vx")
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HERE, "vx/Cargo.toml")], 600, {"CARGO_TARGET_DIR": os.path.join(BUILD, "vx")})
    if rc != 0 or not os.path.exists(exe): raise SystemExit("check: cannot build the extractor\n" + e[-2000:])
    return exe

def build_harness():
    """builds the concrete harness against REPO; None if the tree does not compile"""
    src = os.path.join(HERE, "harness")
    if REPO != "/repo":
        d = os.path.join(BUILD, "hsrc"); shutil.rmtree(d, ignore_errors=True); shutil.copytree(src, d)
        t = open(d + "/Cargo.toml").read().replace("/repo/", REPO + "/"); open(d + "/Cargo.toml", "w").write(t); src = d
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(src, "Cargo.toml")], 800, {"CARGO_TARGET_DIR": os.path.join(BUILD, "hc")})
    if rc != 0: return None, e[-3000:]
    return os.path.join(BUILD, "hc/release/hc"), ""

# ---------------------------------------------------------------- extraction + proof
class Proof:
    """one extraction and one Verus run"""
    def __init__(self, vx, only, rounds=6):
        self.dir = tempfile.mkdtemp(prefix="vx-", dir=BUILD)
        self.only = only
        self.external = []          # functions taken out of the proof, with the reason
        self.why = {}
        self.ok = False
        for _ in range(rounds):
            if not self.extract(vx): break
            self.verus()
            if self.state == "ran": break
            new = self.blame()
            new = [k for k in new if k not in self.external]
            if not new: break
            for k in new: self.why[k] = self.reason
            self.external += new

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def extract(self, vx):
        cmd = [vx, REPO, SPEC, self.dir]
        if self.only: cmd += ["--only", self.only]
        for k in self.external: cmd += ["--external", k]
        rc, o, e = run(cmd, 120)
        if rc != 0:
            self.state = "noextract"; self.reason = "extraction failed: " + (e or o)[-800:]
            self.fns = {}; self.map = {"fns": [], "missing": [], "dropped": [], "notes": []}
            return False
        self.text = open(self.dir + "/out.rs").read()
        self.map = json.load(open(self.dir + "/map.json"))
        self.fns = {f["key"]: f for f in self.map["fns"]}
        self.index()
        return True

    def index(self):
        """line -> function key (bracketed functions) or name of the enclosing item"""
        self.lines = self.text.split("\n")
        self.owner = [None] * (len(self.lines) + 2)
        cur = None; item = None
        for i, l in enumerate(self.lines, 1):
            m = re.match(r"// @fn (\S+)", l)
            if m: cur = m.group(1)
            if cur is None:
                m = re.match(r"\s*(?:pub )?(?:open |closed |broadcast )?(?:proof |spec |exec )?fn (\w+)", l)
                if m: item = m.group(1)
            self.owner[i] = cur or (("lemma:" + item) if item else None)
            if l.startswith("// @endfn"): cur = None; item = None

    def again(self):
        """what failed may fail for want of luck: an obligation discharged in any run is discharged"""
        for sd in (1, 2):
            left = 700 - (time.time() - T0)
            if not self.failed or left < 60 + self.secs: return
            keep = (self.failed, self.results, self.diags, self.secs, self.smt_ms, self.fntime, self.oblig, self.cmd, self.stderr)
            self.verus(log=False, limit=left, extra=["--smt-option", "smt.random_seed=%d" % sd])
            now = self.failed if self.state == "ran" else None
            (self.failed, self.results, self.diags, self.secs, self.smt_ms, self.fntime, self.oblig, self.cmd, self.stderr) = keep
            self.state = "ran"
            if now is not None: self.failed = {k: now[k] for k in self.failed if k in now}

    def verus(self, src="out.rs", log=True, multi=3, extra=[], limit=400):
        al = os.path.join(self.dir, "air"); shutil.rmtree(al, ignore_errors=True)
        cmd = ["verus", src, "--num-threads", "8", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--no-auto-recommends-check", "--multiple-errors", str(multi), "--error-format=json"] + list(extra)
        if log: cmd += ["--log", "air", "--log-dir", al]
        self.cmd = "verus out.rs --num-threads 8 --triggers-mode silent --multiple-errors %d" % multi
        t = time.time()
        rc, o, e = run(cmd, limit, cwd=self.dir)
        self.secs = time.time() - t
        self.rc = rc
        self.diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level") == "error": self.diags.append(d)
        self.stderr = e
        try: j = json.loads(o)
        except ValueError: j = {}
        vr = j.get("verification-results", {})
        self.results = vr
        if vr and not vr.get("encountered-vir-error") and "verified" in vr and (vr.get("verified", 0) > 0):
            self.state = "ran"
        else:
            self.state = "timeout" if rc == -999 else "rejected"
            return
        self.smt_ms = 0
        self.fntime = {}
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.smt_ms += f["time-micros"] / 1000.0
                self.fntime[f["function"]] = self.fntime.get(f["function"], 0) + f["time-micros"] / 1000.0
        self.failed = {}
        for d in self.diags:
            ks = self.diag_owner(d)
            for k in ks[:1]: self.failed.setdefault(k, []).append(d)
            if not ks and "aborting" not in d["message"]: self.failed.setdefault("?", []).append(d)
        if log: self.count(al)

    def diag_owner(self, d):
        """which function an error belongs to: for a failed precondition the calling one"""
        out = []
        spans = sorted(d.get("spans", []), key=lambda s: not s["is_primary"])
        # a postcondition failure has its primary span on the contract of the function itself,
        # a precondition failure on the call
        for s in spans:
            if s["file_name"].endswith(".rs") and os.path.basename(s["file_name"]) in ("out.rs", "vac.rs"):
                o = self.owner[s["line_start"]] if s["line_start"] < len(self.owner) else None
                if o and o not in out: out.append(o)
        if d["message"].startswith("postcondition") and len(out) > 1:
            # contract of a trait method may sit elsewhere: the body is the secondary span
            sec = [self.owner[s["line_start"]] for s in spans if not s["is_primary"]]
            sec = [x for x in sec if x]
            if sec: return [sec[0]] + [x for x in out if x != sec[0]]
        return out

    def others(self, d):
        """the properties that the failed clause speaks of (`// only: C22 C23` on its line); empty: all"""
        out = set()
        for s in d.get("spans", []):
            if (s.get("label") or "").startswith("failed") and os.path.basename(s["file_name"]) in ("out.rs", "vac.rs"):
                for i in range(s["line_start"], min(s["line_end"], len(self.lines)) + 1):
                    m = re.search(r"// only: ([C0-9 ]+)", self.lines[i - 1])
                    if m: out |= set(m.group(1).split())
        return out

    def count(self, al):
        self.oblig = {}
        if not os.path.isdir(al): return
        for f in sorted(os.listdir(al)):
            if not f.endswith(".air"): continue
            key = None; want = False; inq = False
            for l in open(os.path.join(al, f), errors="replace"):
                if l.startswith(";; Function-Def "): want = True; inq = False; continue
                if want:
                    m = re.match(r";; (?:\S*/)?out\.rs:(\d+):", l)
                    key = (self.owner[int(m.group(1))] if m else None) or "?"
                    want = False; continue
                if l.startswith(";;"): inq = False; continue
                if l.startswith("(check-valid"): inq = key is not None; continue
                if l.startswith("("): inq = False
                elif inq and l.lstrip() == "(assert\n": self.oblig[key] = self.oblig.get(key, 0) + 1
        shutil.rmtree(al, ignore_errors=True)

    def blame(self):
        """functions to take out of the proof so that the rest can be checked"""
        changed = [k for k, f in self.fns.items() if f["changed"] and f["has_body"] and not f["external"]]
        if self.state == "timeout":
            self.reason = "the verifier ran out of time"
            return changed
        ks = []
        for d in self.diags:
            for k in self.diag_owner(d):
                if k in self.fns and not self.fns[k]["external"] and self.fns[k]["has_body"] and k not in ks: ks.append(k); break
        self.reason = "outside the verifier's reach: " + "; ".join(d["message"][:160] for d in self.diags[:3]) if self.diags else "the verifier stopped: " + self.stderr[-300:]
        if ks: return ks
        return changed

    def vacuous(self):
        """functions whose obligations still hold after assert(false) at their start"""
        edits = []; keys = []; stack = []
        for m in re.finditer(r"// @fn (\S+)\n|// @endfn", self.text):
            if m.group(1):
                if stack: stack[-1][2] = True
                stack.append([m.group(1), m.end(), False]); continue
            if not stack: continue
            key, start, nests = stack.pop()
            t = self.text[start:m.start()]
            if not nests and ("external_body" in t or "unimplemented ! ()" in t): continue
            if key.endswith("::(ghost"): continue
            mm = re.match(r"(?:\s*#.*\n)*[^\n]*\{\n", t) or re.search(r"\n\s*\{\n", t)
            if not mm: continue
            i = start + mm.end()
            if nests: e = i
            else:
                e = start + t.rstrip().rfind("}")
                if e < i: continue
            edits.append((i, e, "proof { assert(false); }\n" + ("" if nests else "vstd::pervasive::unreached()\n"))); keys.append(key)
        out = []; pos = 0
        for i, e, x in sorted(edits):
            out += [self.text[pos:i], x]; pos = e
        out.append(self.text[pos:])
        save = (self.lines, self.owner, self.text, self.failed, self.results, self.diags, self.secs, self.smt_ms, self.fntime)
        self.text2 = "".join(out)
        open(self.dir + "/vac.rs", "w").write(self.text2)
        t = self.text; self.text = self.text2; self.index(); self.text = t
        self.verus("vac.rs", log=False, multi=1)
        bad = [k for k in keys if k not in self.failed] if self.state == "ran" else None
        ran = self.state == "ran"
        (self.lines, self.owner, self.text, self.failed, self.results, self.diags, self.secs, self.smt_ms, self.fntime) = save
        self.state = "ran"
        return (bad, len(keys)) if ran else (None, 0)

    def calls(self, l):
        """whether the verified text calls what this assumed std contract is about"""
        m = re.search(r"assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(", l)
        if not m: return True
        n = re.findall(r"\w+", re.sub(r"::<[^\[\]]*>$", "", m.group(1)))[-1]
        # code of /repo is printed token by token, with spaces
        return re.search(r"(\. |:: )%s\b" % n, self.text) is not None

    def trusted(self):
        """what the verifier was told to believe"""
        t = []
        for i, l in enumerate(self.lines, 1):
            if "external_body" in l:
                j = i
                while j < len(self.lines) and not re.search(r"\bfn\s+\w+", self.lines[j - 1]): j += 1
                m = re.search(r"\bfn\s+(\w+)", self.lines[j - 1])
                t.append("assumed contract: " + (self.owner[j] if self.owner[j] and not str(self.owner[j]).startswith("lemma:") else "stub " + (m.group(1) if m else "?")))
            if re.search(r"assume_specification", l) and self.calls(l): t.append("assumed std contract: " + re.sub(r"\s+", " ", l.strip())[:150])
            if re.search(r"\b(assume|admit)\s*\(", l) and "proof fn" not in l: t.append("assume: " + l.strip()[:150])
        seen = []
        for x in t:
            if x not in seen: seen.append(x)
        return seen

# ---------------------------------------------------------------- concrete runs
def concrete(prop, seed, secs):
    """('ok', stats) | ('fail', info) | ('none', why)"""
    exe, err = build_harness()
    if exe is None: return "none", {"why": "the harness does not build against this tree", "log": err}
    case = os.path.join(BUILD, "case-%s-%d" % (prop, os.getpid()))
    rc, o, e = run([exe, prop, str(seed), str(secs), case], secs + 300, mem=12 << 30)
    last = o.strip().split("\n")[-1] if o.strip() else ""
    k = open(case).read() if os.path.exists(case) else "?"
    if os.path.exists(case): os.remove(case)
    cmd = "%s %s %d 1 /tmp/case %s" % (os.path.relpath(exe, HERE), prop, seed, k)
    try: j = json.loads(last)
    except ValueError: j = None
    if j and "fail" in j: j["fail"]["replay_cmd"] = "%s %s %d 1 /tmp/case %s" % (os.path.relpath(exe, HERE), prop, seed, j["fail"]["case"]); return "fail", j["fail"]
    if j and rc == 0: return "ok", j
    # the process died: abort, stack overflow, out of memory, killed
    rc2, o2, e2 = run([exe, prop, str(seed), "1", case, k], 200, mem=12 << 30)
    if os.path.exists(case): os.remove(case)
    return "fail", {"case": k, "what": "the process ended with status %d (again: %d): %s" % (rc, rc2, (e + e2)[-300:]), "input": "case %s of seed %d" % (k, seed), "replay_cmd": cmd}

# ---------------------------------------------------------------- properties
def props():
    return json.load(open(os.path.join(HERE, "vdrive", "props.json")))

def match(keys, globs):
    return [k for k in keys if any(fnmatch.fnmatchcase(k, g) for g in globs)]

def known(prop):
    """entries of known_findings.txt for this property"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def conform(seed):
    """what the proofs assume about dependencies, tested against them: lines of results, or None"""
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(HERE, "conform/Cargo.toml")], 600, {"CARGO_TARGET_DIR": os.path.join(BUILD, "conform")})
    if rc != 0: return None
    rc, o, e = run([os.path.join(BUILD, "conform/release/conform"), "30", str(seed)], 120)
    return o.strip().split("\n") if rc in (0, 1) else None

def main(prop, tier):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props()[prop]
    only = P.get("only")
    vx = build_vx()
    pr = Proof(vx, only)
    try:
        return decide(prop, tier, seed, P, pr)
    finally:
        pr.close()

def search(prop, P, seed, secs):
    if P.get("cli"):
        import cli
        return cli.search(prop, seed, secs)
    return concrete(prop, seed, secs)

def decide(prop, tier, seed, P, pr):
    thorough = tier == "thorough"
    ran = getattr(pr, "state", "") == "ran"
    globs = P["fns"]
    keys = match(list(pr.fns), globs)
    lem = P.get("theorems", [])
    def judge():
        bad = {}; undecided = {}
        if not ran:
            undecided["*"] = pr.reason if hasattr(pr, "reason") else "the verifier gave no answer"
        else:
            for g in globs:
                if not match(list(pr.fns), [g]): undecided[g] = "no such function in this tree"
            for k in keys:
                f = pr.fns[k]
                if k in pr.external: undecided[k] = pr.why.get(k, "")
                elif f["external"] and not any(fnmatch.fnmatchcase(k, g) for g in P.get("trusted", [])): undecided[k] = "not within the verifier's reach"
                elif f["has_body"] and not f["contract"] and k not in P.get("nocontract", []): undecided[k] = "has no contract"
            for m in pr.map["missing"]:
                if any(fnmatch.fnmatchcase(m, g) for g in globs): undecided[m] = "not in this tree any more"
            for k, ds in pr.failed.items():
                mine = k in keys or k.startswith("lemma:") or k == "?"
                if not mine: continue
                f = pr.fns.get(k)
                # clauses of other properties: this one is not refuted, but not proved either
                foreign = [d for d in ds if pr.others(d) and prop not in pr.others(d)]
                limit = any("rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() for d in ds)
                if f is None and k.startswith("lemma:"):
                    # the specification itself: only a change of the types it talks about can touch it
                    undecided[k] = "; ".join(d["message"] for d in ds)
                elif f is not None and (f["lost"] or limit or f.get("reshaped")):
                    undecided[k] = ("resource limit" if limit else "the code has another shape than its annotations: " + "; ".join(f["lost"] + f.get("reshaped", [])))
                elif f is not None and any(fnmatch.fnmatchcase(k, g) for g in P.get("soft", [])):
                    undecided[k] = "its contract fails, which does not refute this property: " + "; ".join(d["message"] for d in ds)
                elif f is not None and len(foreign) == len(ds):
                    undecided[k] = "a clause of another property fails: " + "; ".join(d["message"] for d in ds)
                else: bad[k] = [d for d in ds if d not in foreign]
        return bad, undecided
    bad, undecided = judge()
    early = None
    if ran and pr.failed and (bad or undecided):
        # a failing input settles it; only without one is it worth trying the proof again
        early = search(prop, P, seed, 60 if not thorough else 300)
        if early[0] != "fail":
            pr.again()
            bad, undecided = judge()
    proved = ran and not bad and not undecided
    nvac = None
    if proved:
        b, n = pr.vacuous()
        nvac = n
        if b is None: undecided["*"] = "the vacuity run gave no answer"; proved = False
        else:
            v = [k for k in b if k in keys]
            if v: undecided.update({k: "its contract is vacuous" for k in v}); proved = False
        if n == 0: proved = False; undecided["*"] = "no obligations"
    tested = None
    if thorough and proved:
        tested = conform(seed)
        wrong = [l for l in tested or [] if l.startswith("FAIL")]
        if wrong: undecided["*"] = "an assumption about a dependency fails its test: " + "; ".join(wrong); proved = False
    # theorems must be there and checked
    names = set(re.findall(r"\bfn (\w+)", pr.text)) if ran else set()
    for t in lem:
        if ran and t not in names: undecided[t] = "theorem missing"; proved = False
    # concrete runs
    secs = (P.get("quick_s", 10) if proved else 60) if not thorough else 300
    kind, info = early or search(prop, P, seed, secs)
    st = {"ok": "no difference found", "fail": "difference found", "none": "not run"}[kind]
    allk = [k for k in pr.oblig] if ran else []
    mine = [k for k in allk if k in keys or k.startswith("lemma:") or k == "?"] if ran else []
    total = sum(pr.oblig[k] for k in mine) if ran else 0
    lost = sum(pr.oblig.get(k, 0) for k in list(bad) + list(undecided)) if ran else 0
    violations = 0
    for kid, what in known(prop):
        import knownf
        if knownf.still(kid, prop, BUILD, build_harness): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rep = os.path.join(HERE, "evidence", "%s-replay.json" % prop)
    if os.path.exists(rep): os.remove(rep)
    out = None
    if kind == "fail":
        violations = 1
        json.dump({"property": prop, "kind": "failing input", "input": info, "failed_obligations": {k: [d["rendered"] for d in ds] for k, ds in bad.items()}}, open(rep, "w"), indent=1)
        out = "VIOLATION property=%s replay=%s" % (prop, rep)
        print("failing input: %s" % json.dumps(info)[:1500])
    elif bad:
        violations = 1
        json.dump({"property": prop, "kind": "failed obligation", "failed_obligations": {k: [d["rendered"] for d in ds] for k, ds in bad.items()}, "search": info}, open(rep, "w"), indent=1)
        out = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep)
        for k, ds in bad.items():
            for d in ds: print("obligation failed in %s: %s" % (k, d["rendered"][:600]))
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof" if proved else "other",
          "coverage": {
            "obligations": total, "discharged": total - lost if not proved else total,
            "checker_cmd": pr.cmd if ran else "verus",
            "trusted_base": pr.trusted() if ran else [],
            "functions_under_contract": [k for k in keys if k not in undecided],
            "obligations_per_function": {k: pr.oblig[k] for k in sorted(mine)} if ran else {},
            "theorems": lem,
            "back_end": "Verus (Z3 4.12); bit-vector obligations by Z3's bit-vector theory",
            "solver_ms": round(pr.smt_ms) if ran else 0,
            "verifier_wall_s": round(pr.secs, 1) if hasattr(pr, "secs") else 0,
            "functions_probed_for_vacuity": nvac,
            "assumptions_tested": tested or ("in the thorough tier (/verif/conform)" if not thorough else "no answer"),
            "not_decided": undecided,
            "failed": sorted(bad),
            "extraction_drops": pr.map.get("dropped", [])[:60],
            "evaluations": info.get("evaluations", 0), "distinct_nontrivial": info.get("distinct_nontrivial", 0),
            "rule": "concrete runs of the real code (bounded, %d s): generated inputs against reference implementations; an input counts once, whatever its case number; %s" % (secs, st),
            "samples": info.get("samples", [])[:4],
            "explanation": "every obligation discharged" if proved else ("bounded stand-in: the functions listed under not_decided could not be proved on this tree; the concrete runs covered the property instead" if not bad else "an obligation failed"),
          },
          "assumptions": P.get("assumptions", []) + COMMON,
          "wall_s": round(time.time() - T0, 1), "violations": violations}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if out: print(out); return 1
    if proved: print("%s: proved, %d obligations; %s concrete cases agree; %.0f s" % (prop, total, info.get("evaluations", 0), time.time() - T0))
    else:
        print("%s: not proved on this tree (%s); bounded: %s concrete cases agree; %.0f s" % (prop, "; ".join("%s: %s" % (k, v[:200]) for k, v in list(undecided.items())[:5]), info.get("evaluations", 0), time.time() - T0))
    return 0

COMMON = [
    "the extraction (vx, rules R1-R11 of DESIGN.md) keeps the meaning of the code; it reports what it drops under extraction_drops",
    "the contracts of the standard library (vstd) and of the stubs listed in trusted_base describe the real ones (bitvec, BinaryHeap, HashMap, thread, io)",
    "usize has 64 bits; allocation does not fail; the stack suffices for recursion as deep as the tree",
    "letter types obey the contract of their traits: Eq, Hash and Clone agree with equality, and a byte form has the type's length and is injective",
]
