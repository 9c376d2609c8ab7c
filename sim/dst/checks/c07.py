import os, re, shutil

PROPERTY = "C07"
LEVEL = "exploration"
QUICK_RUNS = 2500
THOROUGH_RUNS = 80000
QUICK_WALL = 60
SHRINK = ["faults", "jobs"]
RULE = ("one run builds a random model and generates 1-3 targets from it three times from the same process state: undisturbed (reference), with "
        "1-3 injected faults (failing open, mkdir, write, close; short and interrupted writes; one failing memory allocation), and again without faults over "
        "whatever the failed attempt left, in the same process or in a new one; a call that returns must have produced exactly the reference files, a call that did not must raise an error, the repetition must "
        "produce the reference; non-trivial if at least one fault was delivered; distinct by the hash of the log")
STATES = "distinct (targets and options, kind/errno/position of the delivered faults, outcome) tuples"
REAL = ["/repo/symbolics built from the working tree (graph, writers, error reporting)", "/repo/pymbs/input (MbsSystem.genCode, transformation.genCode)",
        "the kernel's file system in a scratch directory"]
STUB = ["disk errors: open, mkdir, write, close below the scratch directory go through a seam that fails them as planned",
        "the clock (file headers carry a time) is virtual", "heap layout: operator new/delete come from a seeded arena"]


def warm():
    import numpy
    import pymbs.input
    from dst import eqprog, gen


def jobs_of(r):
    from dst import gen
    out = []
    base = r.choice(["mod", "arm", "m_1"])
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        lang = r.choice(list(gen.TARGETS))
        out.append({"lang": lang, "kw": r.choice(gen.TARGETS[lang][1]), "name": r.choice([base, base, base + "2", base + "_sensors"]),
                    "dir": r.choice(["", "", "out", "a/b/c", "out"])})
    return out


def fault(r, kinds, alloc=0):
    kind = r.choice(kinds)
    if r.random() < alloc:
        return {"op": 4, "kind": "err", "err": "ENOMEM", "frac": r.random(), "arg": 0, "sticky": 0}
    op = r.choice([0, 1, 1, 1, 2, 2, 3])
    errs = {0: ["ENOSPC", "EACCES", "EMFILE", "ENOENT", "EROFS", "EIO"], 1: ["ENOSPC", "EIO", "EDQUOT"], 2: ["EIO", "ENOSPC", "EDQUOT"],
            3: ["EACCES", "ENOSPC", "EROFS", "ENOTDIR"]}
    if kind in ("short", "eintr"):
        op = 1
    return {"op": op, "kind": kind, "err": r.choice(errs[op]), "frac": r.random(), "arg": r.randrange(1 << 16),
            "sticky": int(r.random() < (0.35 if kind == "err" else 0.3 if kind == "short" else 0))}


def make_plan(seed, tier):
    from dst import eqprog
    from dst.core import rng, heap_cfg
    r = rng("c07", seed)
    m = eqprog.make(r, big=False, portable=r.choice(["py", "m", "mo"]))
    m["optimise"] = r.random() < 0.7
    faults = [fault(r, ["err", "err", "err", "short", "eintr"], 0.3) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return {"seed": seed, "model": m, "jobs": jobs_of(r), "faults": faults, "again": r.random() < 0.5, "old": r.random() < 0.3, "heap": heap_cfg(r)}


def world(plan, ctx):
    """an MbsSystem whose equations are the random system"""
    from pymbs.input import MbsSystem
    from dst import eqprog
    m = plan["model"]
    if eqprog.undefined(m):
        return None
    b = eqprog.Builder(m)
    for e in m["eqs"]:
        b.add(e)
    for d in m["decls"]:
        b.declare(d["n"])
    try:
        b.g.buildGraph(m["optimise"])
    except Exception as ex:
        if "is not supported" in str(ex):
            ctx.count("refused as unsupported")
            return None
        raise
    w = MbsSystem()
    w.graph = b.g
    w._keep = b
    return w


def reference(plan, ctx, w, d):
    """undisturbed generation -> (result, files) or None if the model is refused"""
    from dst import gen
    out = os.path.join(d, "out")
    os.mkdir(out)
    st, res = gen.generate(ctx.shim, w, plan["jobs"], out, [])
    if st != "result":
        ctx.violate("undisturbed:%s" % st, "generating %s without any fault ended with %s %s" % (plan["jobs"], st, res))
    files = gen.tree(out)
    shutil.rmtree(out)
    for o in res["outcome"]:
        if o[0] != "ok":
            ctx.count("refused: " + o[1])
            return None
    if not files:
        ctx.violate("nothing-written", "generating %s returned without writing a file" % plan["jobs"])
    return res, files


def differ(a, b):
    """first difference of two trees; directories that only one has do not count"""
    for k in sorted(set(a) | set(b)):
        if k.endswith("/"):
            continue
        if k not in a:
            return "%s should not exist" % k
        if k not in b:
            return "%s is missing" % k
        if a[k] != b[k]:
            if len(b[k]) < len(a[k]) and a[k].startswith(b[k]):
                return "%s is truncated (%d of %d bytes)" % (k, len(b[k]), len(a[k]))
            if b[k].startswith(a[k]):
                return "%s has %d bytes too many" % (k, len(b[k]) - len(a[k]))
            x, y = a[k].decode("latin-1").splitlines(), b[k].decode("latin-1").splitlines()
            l = next(((u, v) for u, v in zip(x, y) if u != v), ("", ""))
            return "%s has other content (%r instead of %r)" % (k, l[1][:150], l[0][:150])
    return None


def resolve(plan, res, gen):
    """fractions -> numbers of operations; mkdir faults without a mkdir become open faults"""
    out = []
    for f in plan["faults"]:
        op = f["op"]
        if not res["ops"][op]:
            op = 0
        if op == gen.ALLOC and any(g["op"] == op for g in out):
            continue
        kind = {"err": gen.ERR, "short": gen.SHORT, "eintr": gen.EINTR, "crash": gen.CRASH, "torn": gen.TORN}[f["kind"]]
        out.append({"op": op, "at": 1 + int(f["frac"] * res["ops"][op]), "kind": kind, "err": gen.ERRNO[f["err"]], "arg": f["arg"], "sticky": f["sticky"],
                    "name": f["err"]})
    return out


def snapshots(plan, ctx, w, out):
    """what is there after each call, and what each call writes, without faults"""
    from dst import gen
    after, own = [], []
    for k in range(len(plan["jobs"])):
        for lst, jobs in ((after, plan["jobs"][:k + 1]), (own, plan["jobs"][k:k + 1])):
            os.mkdir(out)
            gen.generate(ctx.shim, w, jobs, out, [])
            lst.append(gen.tree(out))
            shutil.rmtree(out)
    return after, own


def lost(done, after, own, now):
    """files of the first `done` calls that are not as they were, apart from those the next call writes too"""
    later = own[done] if done < len(own) else {}
    want = {k: v for k, v in after[done - 1].items() if k not in later}
    return differ(want, {k: v for k, v in now.items() if k in want})


def words(text):
    """the names a file uses and, in order, the names it assigns to"""
    t = text.decode("latin-1")
    return "\n".join(re.findall(r"^\s*([\w.,\[\]() ]+?)\s*:?=[^=]", t, re.M) + sorted(set(re.findall(r"[A-Za-z_]\w*", t)))).encode()


def stale(files):
    """what an earlier generation could have left: same files, other (longer) content"""
    return {k: b"# stale\n" * 2000 + (v or b"") for k, v in files.items() if not k.endswith("/")}


def put(root, files):
    for k, v in files.items():
        p = os.path.join(root, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v)


def execute(plan, ctx):
    from dst import gen, scratch
    ctx.heap()
    if not plan["jobs"]:
        return
    w = world(plan, ctx)
    if w is None:
        return
    with scratch.Dir() as d:
        ref = reference(plan, ctx, w, d)
        if ref is None:
            return
        res, files = ref
        out = os.path.join(d, "out")
        after, own = snapshots(plan, ctx, w, out) if len(plan["jobs"]) > 1 else (None, None)
        os.mkdir(out)
        if plan["old"]:
            put(out, stale(files))
        faults = resolve(plan, res, gen)
        st, got = gen.generate(ctx.shim, w, plan["jobs"], out, faults, plan.get("again", False))
        what = "; ".join("%s no. %d%s: %s %s" % (gen.NAMES[f["op"]], f["at"], "ff" if f["sticky"] else "", gen.KINDS[f["kind"]],
                                                 f["name"] if f["kind"] == gen.ERR else "") for f in faults)
        if st != "result":
            ctx.violate("generation-%s" % st, "generating %s with %s ended with %s %s" % (plan["jobs"], what, st, got))
        fired = [f for f, n in zip(faults, got["fired"]) if n]
        for f in fired:
            ctx.count("injected: %s %s%s" % (gen.NAMES[f["op"]], gen.KINDS[f["kind"]], " " + f["name"] if f["kind"] == gen.ERR else ""))
        ctx.log(got["outcome"], [n > 0 for n in got["fired"]], got["ops"])
        ctx.state([(j["lang"], sorted(j["kw"]), j["dir"]) for j in plan["jobs"]], [(f["op"], f["kind"], f["name"], f["at"], f["sticky"]) for f in fired],
                  [o[:2] for o in got["outcome"]])
        if fired:
            ctx.nontrivial()
        hard = [f for f in fired if f["kind"] == gen.ERR]
        failed = [o for o in got["outcome"] if o[0] != "ok"]
        if failed and not hard:
            ctx.violate("spurious-failure", "with %s, which a program has to cope with, generating failed: %s" % (what or "no fault", failed[0]))
        if any(not o[2].strip() and o[1] != "MemoryError" for o in failed):
            ctx.violate("silent-error", "the error raised for %s says nothing: %s" % (what, failed[0]))
        now = gen.tree(out)
        if not failed and "again" not in got:
            ctx.count("call returned normally")
            diff = differ(files, now)
            if diff:
                ctx.violate("incomplete-output", "with %s every call returned normally, but %s" % (what, diff))
            return
        if failed:
            ctx.count("error raised: " + failed[0][1])
        else:
            failed = [["no error"]]
        done = next((i for i, o in enumerate(got["outcome"]) if o[0] != "ok"), None)
        if done and "again" not in got:
            diff = lost(done, after, [set().union(*own[done:])] * len(own), now)
            if diff:
                ctx.violate("lost-after-return", "call %d returned normally and a later one failed (%s), but %s" % (done, what, diff))
            ctx.count("call returned before another one failed")
        if "again" in got:
            bad = [o for o in got["again"] if o[0] != "ok"]
            if bad:
                ctx.violate("second-try-fails", "after %s failed with %s, the same process generating again without faults fails: %s" % (what, failed[0], bad[0]))
            # operands may be sorted by now; C and C# are written from a copy whose order depends on addresses
            # and an interrupted simplification may end in another of several equal forms
            sort = words if any(f["op"] == gen.ALLOC for f in fired) else lambda v: bytes(sorted(v))
            mine = {k: sort(v) for k, v in files.items() if k.endswith((".py", ".m", ".mo", ".f90")) and not k.endswith("_CWrapper.py")}
            diff = differ(mine, {k: sort(v) for k, v in now.items() if k in mine}) or differ({k: b"" for k in files}, {k: b"" for k in now})
            if diff:
                ctx.violate("second-try-incomplete", "the same process generating again after %s: %s" % (what, diff))
            ctx.count("repeated successfully in the same process")
            return
        st, again = gen.generate(ctx.shim, w, plan["jobs"], out, [])
        if st != "result" or any(o[0] != "ok" for o in again["outcome"]):
            ctx.violate("retry-fails", "after %s failed with %s, generating again without faults fails: %s %s" % (what, failed[0], st, again))
        diff = differ(files, gen.tree(out))
        if diff:
            ctx.violate("retry-incomplete", "generating again after %s: %s" % (what, diff))
        ctx.count("repeated successfully after an error")


def simplify_plan(plan):
    from dst import eqprog
    for q in eqprog.simplify_plan(plan["model"]):
        yield dict(plan, model=q)
    if plan["old"]:
        yield dict(plan, old=False)


def show(plan):
    from dst import eqprog
    return "%s\n%s\n%s" % (plan["jobs"], plan["faults"], eqprog.show(plan["model"]))
