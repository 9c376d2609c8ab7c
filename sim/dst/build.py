"""Builds the native half of PyMbs from /repo's working tree, and the simulator's LD_PRELOAD seam.

Objects are cached by content hash under /verif/build (ignored by git); nothing is written to /repo.
"""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/pymbs-venv/bin/python"
SYM = os.path.join(REPO, "symbolics")
COMP = ["", "functions", "graph", "printer", "writer", "wrapper"]
PRELUDE = """#include <limits>
#include <algorithm>
#include <string>
#include <map>
#include <vector>
#include <list>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <memory>
#include <functional>
#include <cmath>
#include <stdexcept>
#include <Python.h>
"""


def sources():
    out = []
    for c in COMP:
        d = os.path.join(SYM, c)
        cm = open(os.path.join(d, "CMakeLists.txt"), encoding="utf-8", errors="replace").read()
        names = []
        for m in re.finditer(r"SET\s*\(\s*\w+_sources\s+([^)]*)\)", cm, re.I):
            names += re.findall(r"[\w./]+\.cpp", m.group(1))
        if not names:
            names = [f for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
        for n in names:
            p = os.path.join(d, n)
            if os.path.exists(p):
                out.append(p)
    return sorted(set(out))


def headers():
    out = []
    for c in COMP:
        d = os.path.join(SYM, c)
        for sub in (d, os.path.join(d, "include")):
            if os.path.isdir(sub):
                out += [os.path.join(sub, f) for f in os.listdir(sub) if f.endswith((".h", ".hpp", ".inl"))]
    return sorted(set(out))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def build(variant="plain", verbose=True):
    """returns (path of symbolics.so, path of shim.so)"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, verbose)
    finally:
        lock.close()


def _build(variant, verbose):
    inc = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
    flags = ["-O1", "-g1", "-fPIC", "-fpermissive", "-w"]
    if variant == "asan":
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    elif variant == "ubsan":
        flags += ["-fsanitize=bounds,null,vptr,return,integer-divide-by-zero,unreachable", "-fno-sanitize-recover=all"]
    incs = ["-I" + os.path.join(SYM, c, "include") for c in COMP] + ["-I" + inc]
    hd = sha(*[x for p in headers() for x in (os.path.basename(p), rd(p))], *flags, PRELUDE, inc)
    src = sources()
    objs, todo = [], []
    for s in src:
        key = sha(hd, os.path.relpath(s, SYM), rd(s))
        o = os.path.join(BUILD, "obj", key[:32] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))
    so = os.path.join(BUILD, "so-%s" % sha(*objs)[:24], "symbolics.so")
    shim_src = os.path.join(VERIF, "sim", "native", "shim.cpp")
    shim = os.path.join(BUILD, "shim-%s.so" % sha(rd(shim_src))[:24])
    if not os.path.exists(shim):
        subprocess.check_call(["g++", "-O2", "-fPIC", "-shared", "-w", "-o", shim + ".tmp", shim_src, "-ldl"])
        os.rename(shim + ".tmp", shim)
    if os.path.exists(so):
        return so, shim
    if todo:
        pdir = os.path.join(BUILD, "pch-" + sha(*flags, PRELUDE)[:16])
        os.makedirs(pdir, exist_ok=True)
        pre = os.path.join(pdir, "prelude.h")
        if not os.path.exists(pre + ".gch"):
            with open(pre, "w") as f:
                f.write(PRELUDE)
            subprocess.check_call(["g++"] + flags + incs + ["-x", "c++-header", pre, "-o", pre + ".gch"])
        # big files first, so that the last worker does not start the longest job
        todo.sort(key=lambda so_: -os.path.getsize(so_[0]))

        def one(job):
            s, o = job
            r = subprocess.run(["g++"] + flags + ["-include", pre] + incs + ["-c", s, "-o", o + ".tmp"],
                               capture_output=True, text=True)
            if r.returncode:
                return s, r.stderr
            os.rename(o + ".tmp", o)
            return None
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            bad = [b for b in ex.map(one, todo) if b]
        if bad:
            for s, e in bad[:3]:
                sys.stderr.write("%s:\n%s\n" % (s, e[-2000:]))
            raise SystemExit("build of /repo/symbolics failed")
    os.makedirs(os.path.dirname(so), exist_ok=True)
    extra = ["-fsanitize=address"] if variant == "asan" else (flags[-2:] if variant == "ubsan" else [])
    subprocess.check_call(["g++", "-shared", "-o", so + ".tmp"] + extra + objs)
    os.rename(so + ".tmp", so)
    return so, shim


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(*(sys.argv[1:2])), "%.1fs" % (time.time() - t))
