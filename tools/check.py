#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--only SUBSTR] [--keep]   or   check.py --replay FILE   or   check.py --setup"""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from targets import TARGETS, target_of
VERIF = vbuild.VERIF

def build_target(t):
    T = TARGETS[t]
    return vbuild.build(t, [VERIF + "/harness/" + s for s in T["srcs"]], T.get("lib", "lib"), T.get("flags", ()),
                        [(vbuild.REPO + "/" + s, f) for s, f in T.get("repo_srcs", ())], T.get("link", ()), jobs=8, lib_flags=T.get("lib_flags", ()))

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        bad = 0
        for t in TARGETS:
            t0 = time.time(); b, e = build_target(t)
            if e: print(f"setup: {t} does not build\n{e}"); bad = 1
            else: os.unlink(b); print(f"setup: {t} built in {time.time()-t0:.1f}s", flush=True)
        return bad
    only = []
    if "--only" in a:
        i = a.index("--only"); only = ["--only", a[i+1]]; del a[i:i+2]
    if a and a[0] == "--replay":
        prop = json.load(open(a[1]))["property"]
        b, e = build_target(target_of(prop))
        if e: print(e); return 2
        tmp = tempfile.mkdtemp(prefix="mc.", dir=vbuild.BUILD)
        try: return subprocess.run([b, "--replay", a[1], "--tmp", tmp]).returncode
        finally: os.unlink(b); shutil.rmtree(tmp, ignore_errors=True)
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    b, e = build_target(target_of(prop))
    if e:
        sys.stdout.write(e[-6000:] + "\n"); print(f"ERROR: harness for {prop} does not compile against the current tree"); return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="mc.", dir=vbuild.BUILD)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = VERIF + f"/evidence/{prop}.json"
    jobs = max(1, min(16, os.cpu_count() or 8))
    try:
        r = subprocess.run([b, "--prop", prop, "--tier", tier, "--evidence", ev, "--out", VERIF + "/out", "--tmp", tmp,
                            "--known", VERIF + "/known_findings.json", "--jobs", str(jobs),
                            "--budget", "420" if tier == "quick" else "3000"] + only, cwd=VERIF)
        rc = r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if os.path.exists(b): os.unlink(b)
    print(f"build {tb:.1f}s, total {time.time()-t0:.1f}s")
    return rc if rc in (0, 1) else 2

sys.exit(main())
