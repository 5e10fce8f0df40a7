"""Concrete runs of the command-line tool built from the current tree, in scratch
directories, against a reference of the format and (for what "the library's form" means)
the library itself.  Every case is a function of (property, seed, number):
    python3 vdrive/cli.py PROPERTY SEED CASE        runs one case again
"""
import os, sys, json, time, random, shutil, subprocess, tempfile, hashlib, threading, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EXT = "hff"

# ---------------------------------------------------------------- the format
class Bad(Exception): pass

def bits(bs):
    for b in bs:
        for i in range(7, -1, -1): yield (b >> i) & 1

def parse_tree(bs):
    """bits -> {code: letter}; every bit must be used"""
    n = len(bs); out = {}; stack = [""]; i = 0
    while stack:
        c = stack.pop()
        if i >= n: raise Bad("truncated tree")
        b = bs[i]; i += 1
        if b: stack.append(c + "1"); stack.append(c + "0")
        else:
            if i + 8 > n: raise Bad("truncated letter")
            v = 0
            for x in bs[i:i + 8]: v = v * 2 + x
            i += 8; out[c] = v
    if i != n: raise Bad("bits left over")
    return out

def header(f):
    if len(f) < 5: raise Bad("short")
    tp, dp = f[0] >> 4, f[0] & 15
    if tp > 7 or dp > 7: raise Bad("padding")
    tl = int.from_bytes(f[1:5], "big")
    if len(f) < 5 + tl: raise Bad("short")
    tb = list(bits(f[5:5 + tl]))
    if tp: tb = tb[:-tp] if tp < len(tb) else []
    return parse_tree(tb), dp, f[5 + tl:]

def decode(f):
    """content of a file in the format, or Bad"""
    codes, dp, d = header(f)
    if "" in codes: return bytes([codes[""]]) * max(0, len(d) * 8 - dp)
    out = bytearray(); c = ""; n = len(d) * 8 - dp; k = 0
    tab = codes
    for x in bits(d):
        if k >= n: break
        k += 1
        c += "1" if x else "0"
        v = tab.get(c)
        if v is not None: out.append(v); c = ""
    return bytes(out)

# ---------------------------------------------------------------- running the tool
class Fail(Exception):
    def __init__(self, what, **kw): Exception.__init__(self, what); self.kw = kw

def sh(b): return b if len(b) <= 400 else b[:400] + b"..."

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

class Env:
    def __init__(self, huff, hc, shim, rng, seed, k):
        self.huff, self.hc, self.shim, self.rng, self.seed, self.k = huff, hc, shim, rng, seed, k
        self.dir = tempfile.mkdtemp(prefix="cli-", dir=SCRATCH)
        self.steps = []; self.key = None
        self.log = self.dir + ".log"
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if os.path.exists(self.log): os.remove(self.log)
    def p(self, n): return os.path.join(self.dir, n)
    def put(self, n, b): open(self.p(n), "wb").write(b); return b
    def get(self, n):
        try: return open(self.p(n), "rb").read()
        except OSError: return None
    def run(self, args, answer=None, mode=None, stdout=None, log=False, timeout=30):
        """-> (status, stdout, stderr); never a panic"""
        env = {k: v for k, v in os.environ.items() if k not in ("RUST_BACKTRACE",)}
        env["RUST_BACKTRACE"] = "0"
        if mode or log:
            if os.path.exists(self.log): os.remove(self.log)
            env.update({"LD_PRELOAD": self.shim, "SHIM_ROOT": self.dir, "SHIM_MODE": mode or "none"})
            if log: env["SHIM_LOG"] = self.log
        self.steps.append({"args": args, "answer": answer, "mode": mode})
        for t in (timeout, 4 * timeout):
            try:
                r = subprocess.run([self.huff] + args, cwd=self.dir, env=env, preexec_fn=limits, input=(answer or "").encode(),
                                   stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, timeout=t)
                break
            except subprocess.TimeoutExpired: r = None
        if r is None: raise Fail("no answer within %d s" % (4 * timeout))
        if r.returncode in (101, 134) or r.returncode < 0 or b"panicked at" in r.stderr:
            raise Fail("the tool panicked or died (status %d): %s" % (r.returncode, r.stderr[:300].decode("utf8", "replace")))
        return r.returncode, r.stdout or b"", r.stderr
    def ops(self):
        return [l.split() for l in open(self.log).read().split("\n") if l] if os.path.exists(self.log) else []
    def lib(self, *a):
        r = subprocess.run([self.hc, "lib"] + list(a), cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return r.returncode
    def snap(self):
        out = {}
        for r, ds, fs in os.walk(self.dir):
            for f in fs + ds:
                q = os.path.join(r, f); n = os.path.relpath(q, self.dir)
                if os.path.islink(q): out[n] = ("link", os.readlink(q))
                elif os.path.isdir(q): out[n] = ("dir",)
                else: out[n] = ("file", os.stat(q).st_ino, open(q, "rb").read())
        return out

def content(r, small=False):
    kind = r.randrange(9)
    n = r.choice([1, 2, 3, r.randint(1, 20), r.randint(1, 300), r.randint(1, 300), r.randint(300, 3000)]) if small or r.random() < 0.8 else r.choice([8191, 8192, 8193, r.randint(3000, 40000), 16384, 65537])
    if kind == 0: return bytes([r.randrange(256)]) * n
    if kind == 1: return bytes(r.randrange(256) for _ in range(n))
    if kind == 2: a, b = r.sample(range(256), 2); return bytes(r.choice((a, b)) for _ in range(n))
    if kind == 3:
        # long codes
        out = bytearray(); a, b = 1, 1
        L = r.sample(range(256), r.randint(2, 18))
        for x in L:
            out += bytes([x]) * a; a, b = b, a + b
        if r.random() < 0.5: t = list(out); r.shuffle(t); out = bytearray(t)
        return bytes(out)
    if kind == 4: return bytes(min(255, int(r.expovariate(0.3))) for _ in range(n))
    if kind == 5: return bytes(range(256)) * max(1, n // 256)
    if kind == 6: return ("".join(r.choice("etaoin shrdlu\n") for _ in range(n))).encode()
    if kind == 7: return b"".join(bytes([r.randrange(256)]) * r.randint(1, 50) for _ in range(max(1, n // 25)))
    return b"a" * n + bytes(r.randrange(256) for _ in range(r.randint(0, 3)))

def block(r, n):
    """(text, value)"""
    k = r.randrange(12)
    if k == 0: return None
    if k == 1: return r.choice(["1K", "1k", "1Ki", "1kI", "2M", "1Mi", "3gi", "1G"])
    v = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 16, n, n + 1, max(1, n - 1), max(1, n // 2), max(1, n // 3), 2 * n, r.randint(1, max(1, n)), r.randint(1, 64), 8191, 8192, 8193, 4096])
    if n > 5000 and v < 50: v = v * 97
    return str(v)
def bopt(t): return [] if t is None else ["-b", t]

def show(b): return b[:200].hex() + ("... (%d bytes)" % len(b) if len(b) > 200 else "")

# ---------------------------------------------------------------- the properties
def c18(e):
    r = e.rng; d = content(r); b1, b2 = block(r, len(d)), block(r, len(d))
    e.key = (d, b1, b2); e.input = "content %s, blocks %s and %s" % (show(d), b1, b2)
    name = r.choice(["a", "a.txt", "b.c.d", "x y", "\u017c.bin", ".hid", "a.hff"])
    e.put(name, d)
    mode = "short:%d" % r.choice([1, 3, 7, 100]) if r.random() < 0.15 else None
    flags = r.sample([[], ["-n"], ["-t"]], 1)[0]
    how = r.randrange(3)
    if how == 0:
        rc, o, er = e.run(bopt(b1) + flags + [name], mode=mode); packed = name + "." + EXT
    elif how == 1:
        rc, o, er = e.run(bopt(b1) + flags + [name, "out"], mode=mode); packed = "out." + EXT
    else:
        os.mkdir(e.p("d")); rc, o, er = e.run(bopt(b1) + flags + [name, "d/o.x"], mode=mode); packed = "d/o.x." + EXT
    if rc != 0: raise Fail("compressing failed: %s" % er[:200])
    f = e.get(packed)
    if f is None: raise Fail("no file %s after compressing" % packed)
    if e.get(name) != d: raise Fail("the source file changed")
    try: x = decode(f)
    except Bad as z: raise Fail("the file is not in the format: %s (file %s)" % (z, show(f)))
    if x != d: raise Fail("the file holds other content (file %s)" % show(f))
    how2 = r.randrange(3)
    if how2 == 0:
        rc, o, er = e.run(["-d"] + bopt(b2) + flags + [packed, "back"], mode=mode); out = "back"
    elif how2 == 1:
        os.makedirs(e.p("in"), exist_ok=True); os.rename(e.p(packed), e.p("in/q.hff"))
        rc, o, er = e.run(["-d"] + bopt(b2) + flags + ["in/q.hff"], mode=mode); out = "q"
    else:
        os.rename(e.p(packed), e.p("pp.hff")); e.put("back2", b"old content" * 2000)
        rc, o, er = e.run(["-d", "-n"] + bopt(b2) + ["pp.hff", "back2"], mode=mode); out = "back2"
    if rc != 0: raise Fail("decompressing failed: %s" % er[:200])
    g = e.get(out)
    if g != d: raise Fail("decompressing gives other content: %s" % (None if g is None else show(g)))

def c19(e):
    r = e.rng; d = content(r); b1 = block(r, len(d))
    e.put("a", d)
    if r.random() < 0.6:
        e.key = (d, b1); e.input = "content %s, block %s" % (show(d), b1)
        rc, o, er = e.run(bopt(b1) + ["a"])
        if rc != 0: raise Fail("compressing failed: %s" % er[:200])
        f = e.get("a.hff")
        if e.lib("pack", "a", "ref") != 0: return
        ref = e.get("ref")
        if f != ref: raise Fail("the file differs from the library's byte form: %s, expected %s" % (show(f), show(ref)))
        if e.lib("unpack", "a.hff", "back") != 0: raise Fail("the library refuses the file %s" % show(f))
        if e.get("back") != d: raise Fail("the library reads other content from the file %s" % show(f))
        for b2 in [block(r, len(d)) for _ in range(2)]:
            rc, o, er = e.run(["-n"] + bopt(b2) + ["a", "c"])
            if rc != 0: raise Fail("compressing failed: %s" % er[:200])
            if e.get("c.hff") != ref: raise Fail("the file depends on the block size (%s)" % b2)
    else:
        s = r.randrange(1 << 30)
        e.key = (d, b1, s); e.input = "content %s with the library's tree %d, block %s" % (show(d), s, b1)
        if e.lib("packtree", "a", "p.hff", str(s)) != 0: return
        rc, o, er = e.run(["-d"] + bopt(b1) + ["p.hff", "back"])
        if rc != 0: raise Fail("the tool refuses the library's byte form: %s" % er[:200])
        if e.get("back") != d: raise Fail("the tool reads other content from the library's byte form")

def enc_tree(r, n):
    """random tree with n leaves, as bits"""
    if n == 1: return [0] + [r.randrange(2) for _ in range(8)]
    k = r.randint(1, n - 1)
    return [1] + enc_tree(r, k) + enc_tree(r, n - k)
def frombits(bs):
    bs = bs + [0] * (-len(bs) % 8)
    return bytes(int("".join(map(str, bs[i:i + 8])), 2) for i in range(0, len(bs), 8))

def c20(e):
    r = e.rng
    t = enc_tree(r, r.choice([1, 1, 2, 3, r.randint(1, 12)])); tb = frombits(t); tp = len(tb) * 8 - len(t)
    data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, r.randint(0, 40)])))
    dp = r.randrange(8) if r.random() < 0.9 else r.randrange(16)
    tl = len(tb)
    k = r.randrange(14)
    if k == 1: tl = r.choice([0, 1, 2**32 - 1, 2**31, tl + 1, max(0, tl - 1), tl + len(data), tl + len(data) + 1, r.randrange(2**32)])
    if k == 2: tp = r.randrange(16)
    if k == 3: dp = r.choice([8, 9, 12, 15])
    if k == 4: tp = r.choice([8, 9, 15])
    f = bytes([(tp << 4) | dp]) + tl.to_bytes(4, "big") + tb + data
    if k == 5: f = f[:r.randrange(len(f) + 1)]
    if k == 6: f = bytearray(f); f[r.randrange(len(f))] ^= 1 << r.randrange(8); f = bytes(f)
    if k == 7: f = bytes(r.randrange(256) for _ in range(r.randrange(12)))
    if k == 8: f = bytes([r.randrange(8) << 4 | r.randrange(8)]) + bytes([0, 0, 0, r.randrange(6)]) + bytes(r.randrange(256) for _ in range(r.randrange(12)))
    if k == 9: f = f[:5 + len(tb)]
    if k == 10: f = f + bytes(r.randrange(3))
    if k == 11: f = f[:r.randrange(7)]
    b = r.choice(["1", "2", "3", "4", "5", "6", str(max(1, len(f))), str(len(f) + 1), str(max(1, len(f) - 1)), str(max(1, len(data))), "7", None, "100"])
    e.key = (f, b); e.input = "file %s, block %s" % (show(f), b)
    e.put("a.hff", f)
    if r.random() < 0.04:
        # not a regular file: the size it claims is not the number of bytes it gives
        e.input += " through a pipe"
        os.mkfifo(e.p("p.hff"))
        fd = os.open(e.p("p.hff"), os.O_RDWR)
        try:
            os.write(fd, f)
            rc, o, er = e.run(["-d"] + bopt(b) + ["p.hff", "out"], timeout=5) if len(f) > 5 + tl + 1 else (1, b"", b"")
        except Fail as z:
            if "no answer" not in str(z): raise
        finally: os.close(fd)
        return
    mode = None
    if r.random() < 0.1: mode = "eof:%d" % r.randrange(len(f) + 2)
    rc, o, er = e.run(["-d"] + bopt(b) + ["a.hff", "out"], mode=mode)
    if mode: return
    try: x = decode(f)
    except Bad as z:
        if rc == 0: raise Fail("success although the file is invalid: %s" % z)
        return

def faults(e, big=False):
    """a run, the operations it makes, and a fault to put in"""
    r = e.rng; d = content(r); b = block(r, len(d))
    # more than any buffer in between, all in one operation
    if big: d = r.randbytes(r.randrange(9000, 40000)); b = r.choice([None, "1G", "9000", "20000"])
    if len(d) > 3000 and b is not None and re.match(r"^\d+$", b) and int(b) < 200: b = "1000"
    dec = r.random() < 0.4
    src = "s"; dst = "t.hff"
    if dec:
        e.put("s0", d); e.lib("pack", "s0", "s.hff"); os.remove(e.p("s0")); src = "s.hff"; dst = "t"; d0 = e.get(src)
    else: e.put(src, d); d0 = d
    rep = r.random() < 0.6; exists = r.random() < 0.5; noask = r.random() < 0.3; tm = r.random() < 0.3
    ans = r.choice(["y\n", "Y\n", "yes\n", "y", "Yes please\n"]) if r.random() < 0.8 else r.choice(["n\n", "\n", "", "no\n", "ny\n", " y\n", "N\n"])
    old = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 100, 60000])))
    if exists: e.put(dst, old)
    e.put("other", b"other"); e.put("other.hff", b"other")
    args = (["-d"] if dec else []) + (["-r"] if rep else []) + (["-n"] if noask else []) + (["-t"] if tm else []) + bopt(b) + [src, "t"]
    declined = exists and not noask and not ans.lower().startswith("y")
    e.input = "%s %s, -r %s -n %s, block %s, destination exists: %s, answer %r" % ("-d" if dec else "compress", show(d), rep, noask, b, exists, ans)
    e.key = (d, b, dec, rep, noask, exists, ans, tm)
    def effects_ok():
        f = e.get(dst)
        if f is None: return "no destination file"
        if dec: return None if f == d else "wrong content in the destination"
        try: return None if decode(f) == d else "wrong content in the destination"
        except Bad as z: return "the destination is not in the format: %s" % z
    return args, src, dst, d0, rep, exists, old, declined, ans, tm, effects_ok

ERRNOS = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EINTR": 4, "EINVAL": 22, "EPERM": 1, "EPIPE": 32}
def judge(e, st, rc, before, faulted):
    """what must hold after any run, with or without a fault"""
    args, src, dst, d0, rep, exists, old, declined, ans, tm, effects_ok = st
    after = e.snap()
    for n in before:
        if n not in (src, dst) and after.get(n) != before[n]: raise Fail("another file changed: %s" % n)
    for n in after:
        if n not in before and n != dst: raise Fail("a file appeared: %s" % n)
    bad = effects_ok()
    if src in after:
        if after[src][2] != d0: raise Fail("the source was written to")
        if rc == 0 and rep and not declined: raise Fail("success, but the source is still there despite -r")
    else:
        if not rep: raise Fail("the source is gone without -r")
        if declined: raise Fail("the source is gone although the user declined")
        if bad: raise Fail("the source is gone, and %s" % bad)
    if declined:
        if after != before: raise Fail("the user declined and something changed")
    elif rc == 0 and bad: raise Fail("success, but %s" % bad)

def c21(e):
    r = e.rng; k = r.randrange(10)
    st = faults(e, k == 1 and r.random() < 0.5); args, ans, tm, declined = st[0], st[8], st[9], st[7]
    before = e.snap()
    if k == 0:
        e.input += ", the standard output full"
        with open("/dev/full", "wb") as full: rc, o, er = e.run(args, answer=ans, stdout=full)
        if rc == 0 and (tm or (st[5] and "-n" not in args)) : raise Fail("success although the standard output cannot be written")
        judge(e, st, rc, before, True); return
    if k == 1:
        mode = "short:%d" % r.choice([1, 2, 3, 10, 1000])
        if len(st[3]) > 5000: mode = "short:%d" % r.choice([500, 5000])
        e.input += ", " + mode
        rc, o, er = e.run(args, answer=ans, mode=mode)
        if rc != 0: raise Fail("short reads and writes made the run fail: %s" % er[:200])
        judge(e, st, rc, before, False); return
    if k == 2:
        n = r.randrange(len(st[3]) + 1); e.input += ", the source ends after %d bytes" % n
        rc, o, er = e.run(args, answer=ans, mode="eof:%d" % n)
        judge(e, st, rc, before, True); return
    # which operations there are
    rc, o, er = e.run(args, answer=ans, mode="none", log=True)
    if rc != 0: raise Fail("the run failed without a fault: %s" % er[:200])
    judge(e, st, rc, before, False)
    ops = e.ops()
    # again, from the start
    for n in list(e.snap()):
        if os.path.isfile(e.p(n)): os.remove(e.p(n))
    for n, v in before.items(): e.put(n, v[2])
    before = e.snap()
    if not ops: return
    x = r.choice(ops[-8:]) if r.random() < 0.4 else r.choice(ops)
    en = r.choice(list(ERRNOS))
    e.input += ", operation %s (%s) fails with %s" % (x[0], " ".join(x[1:]), en)
    rc, o, er = e.run(args, answer=ans, mode="fail:%s:%d" % (x[0], ERRNOS[en]))
    if x[1] in ("wstdout",) and rc == 0 and en not in ("EINTR",): raise Fail("success although the standard output could not be written")
    if x[1] in ("rstdin",) and rc == 0 and en not in ("EINTR",) and not declined: raise Fail("success although the answer could not be read")
    if en == "EINTR": pass
    declined2 = st[7]
    if x[1] == "rstdin": 
        # nobody agreed
        if e.snap() != before and en != "EINTR": raise Fail("the answer could not be read and something changed")
    judge(e, st, rc, before, True)
    e.key = e.key + (x[0], en)

def c22(e):
    r = e.rng
    k = r.randrange(10)
    if k < 4: return c22_alias(e)
    st = faults(e); args, ans = st[0], st[8]
    before = e.snap()
    if k < 7:
        rc, o, er = e.run(args, answer=ans)
        if rc != 0: raise Fail("the run failed: %s" % er[:200])
        judge(e, st, rc, before, False); return
    rc, o, er = e.run(args, answer=ans, mode="none", log=True)
    judge(e, st, rc, before, False)
    ops = e.ops()
    for n in list(e.snap()):
        if os.path.isfile(e.p(n)): os.remove(e.p(n))
    for n, v in before.items(): e.put(n, v[2])
    before = e.snap()
    if not ops: return
    x = r.choice(ops[-6:]) if r.random() < 0.5 else r.choice(ops)
    if r.random() < 0.5:
        mode = "kill:%s" % x[0]; e.input += ", the process ends at operation %s (%s)" % (x[0], " ".join(x[1:]))
    else:
        en = r.choice([v for q, v in ERRNOS.items() if q != "EINTR"]); mode = "fail:%s:%d" % (x[0], en)
        e.input += ", operation %s (%s) fails with %d" % (x[0], " ".join(x[1:]), en)
    e.key = e.key + (mode,)
    rc, o, er = e.run(args, answer=ans, mode=mode)
    judge(e, st, rc, before, True)

def c22_alias(e):
    """the destination is the source under another name"""
    r = e.rng; d = content(r, small=True); dec = r.random() < 0.5
    os.mkdir(e.p("d"))
    src = "f.hff" if (dec or r.random() < 0.5) else "f"
    if dec: e.put("s0", d); e.lib("pack", "s0", src); os.remove(e.p("s0")); d = e.get(src)
    else: e.put(src, d)
    ext = "" if dec else ".hff"
    kind = r.choice(["hard", "sym", "same", "dot", "sub", "abs", "symdir", "srcsym"])
    dst = "t"; s = src
    if kind == "hard": os.link(e.p(src), e.p("t" + ext))
    elif kind == "sym": os.symlink(src, e.p("t" + ext))
    elif kind == "symdir": os.symlink(".", e.p("l")); dst = "l/" + (src[:-4] if ext and src.endswith(".hff") else src)
    elif kind == "srcsym": os.symlink(src, e.p("y.hff")); s = "y.hff"; dst = src[:-4] if ext and src.endswith(".hff") else src
    else:
        base = src[:-4] if ext and src.endswith(".hff") else src
        dst = {"same": base, "dot": "./" + base, "sub": "d/../" + base, "abs": e.p(base)}[kind]
    args = (["-d"] if dec else []) + r.sample(["-r", "-n", "-t"], r.randint(0, 3)) + [s, dst]
    ans = r.choice(["y\n", "n\n", ""])
    e.input = "%s, %s, source %s" % (kind, args, show(d)); e.key = (kind, tuple(args), d, ans)
    ino = os.stat(e.p(src)).st_ino
    mode = None; before = e.snap()
    if r.random() < 0.4:
        mode = "fail:%d:%d" % (r.randint(1, 8), r.choice([5, 12, 13])); e.input += ", " + mode
    rc, o, er = e.run(args, answer=ans, mode=mode)
    now = e.get(src)
    if now is None:
        # only ever gone after a complete run to another file
        if "-r" not in args or rc != 0: raise Fail("the source is gone")
        for q, v in e.snap().items():
            if v[0] == "file" and v[1] != ino:
                try:
                    if v[2] == (decode(d) if dec else v[2]) and (dec or decode(v[2]) == d): return
                except Bad: pass
        raise Fail("the source is gone and there is no result")
    if now != d: raise Fail("the source file was written to (status %d)" % rc)

UNITS = {"": 1, "k": 10**3, "m": 10**6, "g": 10**9, "ki": 1 << 10, "mi": 1 << 20, "gi": 1 << 30}
MAXW = 2**64 - 1
def meaning(t):
    m = re.fullmatch(r"([0-9]+)([A-Za-z]*)", t)
    if not m or m.group(2).lower() not in UNITS: return None
    v = int(m.group(1)) * UNITS[m.group(2).lower()]
    return v if 0 < v <= MAXW else None

def case_of(r, s): return "".join(r.choice((c.lower(), c.upper())) for c in s)
def c23(e):
    r = e.rng; k = r.randrange(9)
    u = r.choice(list(UNITS)); m = UNITS[u]; U = case_of(r, u)
    if k == 0: t = str(MAXW // m) + U
    elif k == 1: t = str(MAXW // m + 1) + U
    elif k == 2: t = str(r.choice([MAXW // m - r.randrange(5), MAXW // m + 1 + r.randrange(1000), r.randrange(1 << 70), r.randrange(1, 50), 0])) + U
    elif k == 3: t = "0" * r.randint(1, 30) + str(r.randint(0, 12)) + U
    elif k == 4: t = r.choice(["", "0", "00", "K", "Gi", "1B", "1KB", "1KiB", "1kk", "1Kii", "1 K", " 1K", "1K ", "+1", "-1", "1.5M", "1e3", "0x10", "1_000", "1i", "1iK", "\u0661", "1\u212a", "1\u212ai", "1\u043a", "\uff11", "5T", "1Ti", "1P", "K1", "1K1", "1M1M", "\u00b2", "1\u0130", "1k\u0131", "1\u01e8", "1mI", "1Kl", "12\n", "\t3", "2gI", "1GIG"])
    elif k == 5: t = "".join(r.choice("0123456789kKmMgGiI") for _ in range(r.randint(1, 5)))
    elif k == 6: t = str(r.randint(0, 30)) + "".join(r.choice("kKmMgGiItTb .-+\u212a") for _ in range(r.randint(0, 3)))
    else:
        # the size shows in the reads the tool makes
        t = r.choice([str(r.randint(8192, 60000)), "%d%s" % (r.randint(9, 90), case_of(r, r.choice(["k", "ki"]))), "1" + case_of(r, r.choice(["m", "mi"]))])
        v = meaning(t); n = v + r.choice([0, 1, 10, v // 2, v]) if v < 500000 else v + 5
        e.key = (t, n); e.input = "block %r, a file of %d bytes" % (t, n)
        with open(e.p("a"), "wb") as f: f.write(b"ab" * (n // 2) + b"c" * (n % 2))
        rc, o, er = e.run(["-b", t, "a"], mode="none", log=True, timeout=60)
        if rc != 0: raise Fail("block size %r refused: %s" % (t, er[:200]))
        # the standard library's buffer reads 8192 bytes itself for what is smaller
        big = max([int(x[4]) for x in e.ops() if x[1] == "read"], default=0)
        if big > max(v, 8192): raise Fail("block size %r means %d bytes, but %d were read at one time" % (t, v, big))
        if big < v: raise Fail("block size %r means %d bytes, but at most %d were read at one time" % (t, v, big))
        return
    e.key = t; e.input = "block size text %r" % t
    e.put("a", b"hello")
    before = e.snap()
    rc, o, er = e.run(["--block-size=" + t, "a"])
    v = meaning(t)
    if v is None:
        if rc == 0: raise Fail("block size %r was accepted" % t)
        if e.snap() != before: raise Fail("block size %r was refused but something was written" % t)
    else:
        if rc != 0: raise Fail("block size %r was refused: %s" % (t, er[:200]))
        if decode(e.get("a.hff")) != b"hello": raise Fail("wrong result with block size %r" % t)

def plain(r):
    while True:
        n = "".join(r.choice(["a", "b", ".", "x", "\u00e9", " ", ".hff", ".txt", "SRC_FILE", "hff", "_"]) for _ in range(r.randint(1, 4)))
        if not n.endswith(".") and not n.startswith(("-", "..")): return n
def c25(e):
    """where the result goes"""
    r = e.rng; d = content(r, small=True)[:5000]; dec = r.random() < 0.5
    for q in ("d", "d/g"): os.mkdir(e.p(q))
    n = plain(r)
    if dec: n += ".hff" if r.random() < 0.75 else r.choice(["", ".HFF", ".Hff", ".hf", ".hfff", ".huff", ".hff.", ".hff ", ".hff~", ".xhff", "hff", ".hff.x"])
    ok = not dec or (n.endswith(".hff") and len(n) > 4)
    src = r.choice(["", "", "./", "d/", "d/g/", "d/../", e.dir + "/"]) + n
    if os.path.isdir(e.p(src)): return
    if dec: e.put("s0", d); e.lib("pack", "s0", "s1"); os.remove(e.p("s0")); os.rename(e.p("s1"), e.p(src))
    else: e.put(src, d)
    dst = None
    if r.random() < 0.6:
        dst = r.choice(["", "", "./", "d/", "./d/", "d/../d/", "d/g/", e.dir + "/"]) + plain(r)
        if r.random() < 0.2: dst = os.path.join(os.path.dirname(dst), n)
        # names with a meaning of their own
        if os.path.normpath(dst) in (n, "SRC_FILE.hff") and not os.path.dirname(dst) in ("", e.dir): return
    want = (n[:-4] if dec else "./" + n + ".hff") if dst is None else (dst if dec else dst + ".hff")
    if dec and dst is None and ok: want = "./" + n[:-4]
    w = os.path.normpath(e.p(want))
    if os.path.isdir(w) or w == os.path.normpath(e.p(src)): return
    for q in [n, n + ".hff", "SRC_FILE.hff", "SRC_FILE", "out", "out.hff"] + ([dst, dst + ".hff"] if dst else []) + ([n[:-4]] if len(n) > 4 else []):
        for b in ("", "d"):
            q2 = os.path.normpath(os.path.join(e.dir, b, q))
            if not os.path.exists(q2) and r.random() < 0.4 and q2.startswith(e.dir) and os.path.isdir(os.path.dirname(q2)): open(q2, "wb").write(b"!" + q.encode())
    exists = os.path.lexists(w); rep = r.random() < 0.3; noask = r.random() < 0.4
    args = (["-d"] if dec else []) + (["-r"] if rep else []) + (["-n"] if noask else []) + (["-b", str(r.randint(1000, 9000))] if r.random() < 0.5 else []) + [src] + ([dst] if dst is not None else [])
    shown = [a.replace(e.dir, "DIR") for a in args]
    e.input = "%s, a file of %d bytes, destination exists: %s" % (shown, len(d), exists)
    e.key = (tuple(shown), exists, noask, d)
    before = e.snap()
    rc, o, er = e.run(args, answer="y\n")
    after = e.snap()
    if not ok:
        if rc == 0: raise Fail("%r was decompressed although it is not named .hff" % n)
        if after != before: raise Fail("%r was refused but something changed" % n)
        return
    if rc != 0: raise Fail("the run failed: %s" % er[:200])
    t = os.path.relpath(w, e.dir); s = os.path.relpath(os.path.normpath(e.p(src)), e.dir)
    for q in after:
        if q not in before and q != t: raise Fail("the result went to %r instead of %r" % (q, t))
    if t not in after: raise Fail("there is no %r" % t)
    for q in before:
        if q not in (t, s) and after.get(q) != before[q]: raise Fail("another file changed: %r" % q)
    if rep != (s not in after): raise Fail("-r %s, and the source is %s" % (rep, "there" if s in after else "gone"))
    f = after[t][2]
    try: good = f == d if dec else decode(f) == d
    except Bad: good = False
    if not good: raise Fail("wrong content in %r" % t)

TABLE = {"C25": c25, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}

# ---------------------------------------------------------------- driving
SCRATCH = BUILD
def build():
    """(huff, hc, shim, error)"""
    import drive
    rc, o, er = drive.run(["cargo", "build", "--offline", "--bin", "huff", "--manifest-path", os.path.join(REPO, "huff/Cargo.toml")], 800,
                          {"CARGO_TARGET_DIR": os.path.join(BUILD, "huff"), "CARGO_PROFILE_DEV_DEBUG": "0"})
    huff = os.path.join(BUILD, "huff/debug/huff")
    if rc != 0 or not os.path.exists(huff): return None, None, None, er[-2000:]
    hc, er = drive.build_harness()
    if hc is None: return None, None, None, er
    shim = os.path.join(BUILD, "shim.so")
    if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(os.path.join(HERE, "vdrive/shim.c")):
        tmp = shim + ".%d" % os.getpid()
        rc, o, er = drive.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, os.path.join(HERE, "vdrive/shim.c")], 120)
        if rc != 0: return None, None, None, er
        os.replace(tmp, shim)
    return huff, hc, shim, ""

def one(prop, seed, k, tools):
    """None, or the failure; second: key, input"""
    e = Env(*tools, random.Random("%s/%d/%d" % (prop, seed, k)), seed, k)
    e.input = ""
    try:
        TABLE[prop](e); return None, e.key, e.input
    except Fail as f:
        return {"case": k, "input": e.input, "what": str(f), "runs": e.steps, "replay_cmd": "python3 vdrive/cli.py %s %d %d" % (prop, seed, k)}, e.key, e.input
    finally: e.close()

def search(prop, seed, secs):
    global SCRATCH
    huff, hc, shim, err = build()
    if huff is None: return "none", {"why": "the tool does not build against this tree", "log": err}
    SCRATCH = tempfile.mkdtemp(prefix="scratch-", dir=BUILD)
    t0 = time.time(); seen = set(); samples = []; fail = []; n = [0]; lock = threading.Lock(); nxt = [0]
    def work():
        while time.time() - t0 < secs and not fail:
            with lock: k = nxt[0]; nxt[0] += 1
            try: f, key, inp = one(prop, seed, k, (huff, hc, shim))
            except Exception as x:
                # the machinery, not the tool
                f, key, inp = None, None, "harness error %r" % x
                sys.stderr.write("cli: %s case %d: %r\n" % (prop, k, x))
            if f:
                # once more: only what can be repeated counts
                try: f2, _, _ = one(prop, seed, k, (huff, hc, shim))
                except Exception: f2 = None
                if f2: fail.append(f2)
            with lock:
                n[0] += 1
                if key is not None:
                    h = hashlib.sha1(repr(key).encode()).digest()
                    if h not in seen:
                        seen.add(h)
                        if len(samples) < 4: samples.append(inp[:300])
    ts = [threading.Thread(target=work) for _ in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(SCRATCH, ignore_errors=True); SCRATCH = BUILD
    info = {"evaluations": n[0], "distinct_nontrivial": len(seen), "samples": samples}
    if fail:
        f = dict(min(fail, key=lambda f: f["case"])); f.update(info); return "fail", f
    return "ok", info

def deep(hc):
    """the known finding: a tree two million levels deep ends the process"""
    huff, hc, shim, err = build()
    if huff is None: return False
    d = tempfile.mkdtemp(prefix="deep-", dir=BUILD)
    try:
        subprocess.run([hc, "known", "C20", os.path.join(d, "a.hff")], timeout=60)
        r = subprocess.run([huff, "-d", "a.hff", "out"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120)
        return r.returncode < 0 or r.returncode in (101, 134)
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    prop, seed = sys.argv[1], int(sys.argv[2])
    if len(sys.argv) > 3 and sys.argv[3] == "for":
        print(json.dumps(search(prop, seed, float(sys.argv[4])), indent=1)[:4000]); sys.exit(0)
    t = build()
    f, key, inp = one(prop, seed, int(sys.argv[3]), t[:3])
    print(json.dumps(f, indent=1) if f else "agrees: " + inp); sys.exit(1 if f else 0)
