#!/usr/bin/env python3
"""Compiles /repo's sources (plus a harness) with a content-addressed object cache.

The cache never trusts time stamps: an object is reused only if the flags and the contents of every
file the compiler read are identical, so a check always sees the current working tree."""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=c++17", "-O1", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DDRAMPOWER_TESTING",
        "-ftrivial-auto-var-init=pattern",
        "-I", REPO + "/src/DRAMPower", "-I", VERIF + "/standin", "-I", VERIF + "/lib"]

_h = {}
_hl = threading.Lock()
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    with _hl:
        if p in _h: return _h[p]
    with open(p, "rb") as f:
        d = hashlib.sha256(f.read()).hexdigest()
    with _hl:
        _h[p] = d
    return d

def objkey(flags, deps):
    h = hashlib.sha256()
    h.update("\0".join(flags).encode())
    for d in deps:
        x = fhash(d)
        if x is None: return None
        h.update(d.encode()); h.update(x.encode())
    return h.hexdigest()

def compile_one(src, extra):
    flags = [CXX] + BASE + list(extra)
    tu = hashlib.sha256(("\0".join(flags) + "\0" + src).encode()).hexdigest()[:24]
    man = os.path.join(CACHE, tu + ".json")
    try:
        with open(man) as f: deplists = json.load(f)
    except Exception:
        deplists = []
    for deps in deplists:
        k = objkey(flags, deps)
        if k and os.path.exists(os.path.join(CACHE, k + ".o")):
            return os.path.join(CACHE, k + ".o"), None
    tmpo = os.path.join(CACHE, f"{tu}.{os.getpid()}.o"); tmpd = tmpo + ".d"
    r = subprocess.run(flags + ["-MD", "-MF", tmpd, "-c", src, "-o", tmpo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, f"--- {src}\n{r.stdout}"
    with open(tmpd) as f: t = f.read().replace("\\\n", " ")
    deps = sorted(set(os.path.realpath(x) if x.startswith("/") else x for x in t.split(":", 1)[1].split()))
    os.unlink(tmpd)
    k = objkey(flags, deps)
    obj = os.path.join(CACHE, k + ".o")
    os.replace(tmpo, obj)
    if deps not in deplists:
        deplists = [deps] + deplists[:6]
        with open(man + f".{os.getpid()}", "w") as f: json.dump(deplists, f)
        os.replace(man + f".{os.getpid()}", man)
    return obj, None

def lib_sources(kind):
    D = REPO + "/src/DRAMPower/DRAMPower"
    allsrc = sorted(glob.glob(D + "/**/*.cpp", recursive=True))
    if kind == "lib": return allsrc
    if kind == "none": return []
    raise SystemExit("unknown source set " + kind)

def build(name, srcs, libkind, extra_flags=(), extra_srcs=(), link=(), jobs=8, lib_flags=()):
    """srcs: harness sources (get extra_flags); extra_srcs: list of (path, flags). Returns binary path or None."""
    os.makedirs(CACHE, exist_ok=True)
    jobsl = [(VERIF + "/lib/mc.cpp", ())]
    jobsl += [(s, tuple(extra_flags)) for s in srcs]
    jobsl += [(s, tuple(f)) for s, f in extra_srcs]
    jobsl += [(s, tuple(lib_flags)) for s in lib_sources(libkind)]
    objs, errs = [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for o, e in ex.map(lambda a: compile_one(*a), jobsl):
            if e: errs.append(e)
            else: objs.append(o)
    if errs:
        return None, "\n".join(errs)
    out = os.path.join(BUILD, f"{name}.{os.getpid()}.bin")
    # archives for library objects so unused ones are dropped
    r = subprocess.run([CXX, "-o", out] + objs + list(link) + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    return out, None
