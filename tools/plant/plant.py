#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug in plants*.py and validates it.
plant.py write [ID..]   make patch.diff, demo.sh, demo.cpp, meta.json
plant.py test ID..      in a scratch copy: complete suites, demonstration, the property's check"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); S = V + "/seeded"; R = "/tmp/pw" if sys.argv[1] == "write" else "/tmp/sw"
sys.path.insert(0, H)
from plants import PLANTS
from plants2 import PLANTS2
PLANTS = PLANTS + PLANTS2
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def write(p):
    d = f"{S}/{p['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, old, new in p["edits"]:
        path = f if f.startswith("/") else f"{R}/src/{f}"
        s = open(path).read(); n = s.count(old)
        want = p.get("count", 1)
        if n != want: raise SystemExit(f"{p['id']}: {n} matches of {old!r} in {f}")
        open(path, "w").write(s.replace(old, new))
    diff = sh(f"git -C {R} diff").stdout; sh(f"git -C {R} checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/meta.json", "w").write(json.dumps({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
    open(d + "/demo.cpp", "w").write(p["demo"].lstrip())
    t = open(H + "/demo.sh").read().replace("EXTRA", p.get("extra", "-lpthread"))
    if p.get("flags"): t = t.replace(" -DNDEBUG", " -DNDEBUG " + p["flags"])
    if p.get("bare"):   # header only
        t = "\n".join(l for l in t.split("\n") if not l.startswith("find ")).replace('"$T"/*.o ', "")
    open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
    if 'dm.h' in p["demo"]: shutil.copy(H + "/dm.h", d)
    shutil.copytree(V + "/standin", d + "/standin")
def test(p, suite=True):
    d = f"{S}/{p['id']}"; out = [p["id"], p["prop"]]
    r = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"demo0={r.returncode}")
    if r.returncode: out.append((r.stdout + r.stderr)[-300:])
    a = sh(f"git -C {R} apply {d}/patch.diff")
    try:
        if a.returncode: out.append("NOAPPLY"); return out
        if suite:
            s = sh(f"bash {V}/suite/run.sh {R} /tmp/verif_suite"); out.append("suite rc=%d %s" % (s.returncode, " ".join(l for l in s.stdout.split("\n") if "FAILED" in l)[:200]))
        r = sh(f"bash {d}/demo.sh", cwd=R); out.append(f"demo1={r.returncode} {r.stdout[-160:].strip()!r}")
        if r.returncode in (3, 4): out.append("DEMO BUILD PROBLEM " + r.stderr[-500:])
        c = sh(f"VERIF_REPO={R} python3 {V}/tools/check.py {p['prop']} quick"); v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
        out.append(f"check rc={c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'}")
    finally: sh(f"git -C {R} checkout -- .")
    return out
if __name__ == "__main__":
    sh(f"rm -rf {R}; git clone -q /repo {R}")
    ids = sys.argv[2:]
    for p in PLANTS:
        if ids and p["id"] not in ids: continue
        if sys.argv[1] == "write": write(p)
        else: print(*test(p, "nosuite" not in os.environ), sep=" | ", flush=True)
