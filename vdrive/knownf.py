"""Are the known findings still there?  Each is one specific input."""
import os, subprocess, tempfile, shutil

def still(kid, prop, build, build_harness):
    if kid == "deep":
        exe, _ = build_harness()
        if exe is None: return False
        if prop == "C20":
            import cli
            return cli.deep(exe)
        r = subprocess.run([exe, "known", prop], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120)
        return r.returncode < 0 or r.returncode == 134
    return False
