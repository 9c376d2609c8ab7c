import os, shutil

PROPERTY = "C08"
LEVEL = "exploration"
QUICK_RUNS = 2500
THOROUGH_RUNS = 80000
QUICK_WALL = 60
SHRINK = ["crashes", "jobs", "bystanders"]
RULE = ("one run builds a random model and generates 1-3 targets into a directory that already holds older output and foreign files with similar "
        "names; the process is killed at 1-3 random file operations (before an open, write, close or mkdir, or within a write, which is then torn), each "
        "time a new process starts over with what is on the disk, and the last one runs undisturbed; non-trivial if at least one crash happened; "
        "distinct by the hash of the log")
STATES = "distinct (targets and options, operation and position of every crash, what was on the disk before) tuples"
REAL = ["/repo/symbolics built from the working tree (graph, writers)", "/repo/pymbs/input (MbsSystem.genCode, transformation.genCode)",
        "the kernel's file system in a scratch directory"]
STUB = ["process death: _exit at the planned file operation; what was written before stays (no power failure)",
        "the clock (file headers carry a time) is virtual", "heap layout: operator new/delete come from a seeded arena"]


def warm():
    from dst.checks import c07
    c07.warm()


def make_plan(seed, tier):
    from dst import eqprog
    from dst.checks import c07
    from dst.core import rng, heap_cfg
    r = rng("c08", seed)
    m = eqprog.make(r, big=False, portable=r.choice(["py", "m", "mo"]))
    m["optimise"] = r.random() < 0.7
    crashes = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        kind = r.choice(["crash", "crash", "torn"])
        crashes.append({"op": r.choice([0, 1, 1, 2, 3]) if kind == "crash" else 1, "kind": kind, "err": "EIO", "frac": r.random(), "arg": r.randrange(1 << 16),
                        "sticky": 0})
    jobs = c07.jobs_of(r)
    by = []
    for _ in range(r.choice([2, 4, 8])):
        j = r.choice(jobs)
        by.append([j["dir"], r.choice(["%s2_der_state.py", "%s_der_state.py.bak", "x%s_sensors.m", "%s_notes.txt", "functionmodule.txt", "%s.mo.orig",
                                       "%s_der_state", "stl.mat", "%s_visual.py~", "%s_results.csv", "functionmodule.py.old", "%s"]).replace("%s", j["name"])])
    return {"seed": seed, "model": m, "jobs": jobs, "crashes": crashes, "bystanders": by, "old": r.random() < 0.6, "heap": heap_cfg(r)}


def execute(plan, ctx):
    from dst import gen, scratch
    from dst.checks import c07
    ctx.heap()
    if not plan["jobs"]:
        return
    w = c07.world(plan, ctx)
    if w is None:
        return
    with scratch.Dir() as d:
        ref = c07.reference(plan, ctx, w, d)
        if ref is None:
            return
        res, files = ref
        out = os.path.join(d, "out")
        after, own = c07.snapshots(plan, ctx, w, out)
        os.mkdir(out)
        by = {}
        for k, (sub, n) in enumerate(plan["bystanders"]):
            p = os.path.join(sub, n) if sub else n
            if p not in files and not any(f.startswith(p + "/") for f in files):
                by[p] = b"not yours %d\n" % k * 50
        c07.put(out, by)
        if plan["old"]:
            c07.put(out, c07.stale(files))
        trail = []
        for c in plan["crashes"]:
            f = c07.resolve({"faults": [c]}, res, gen)[0]
            what = "crash (%s) at %s no. %d" % (c["kind"], gen.NAMES[f["op"]], f["at"])
            st, got, done = life(gen, ctx, w, plan["jobs"], out, [f])
            trail.append((f["op"], f["at"], c["kind"], st, done))
            ctx.log(what, st, got, done)
            now = gen.tree(out)
            if st == "exit" and got == 99:
                ctx.count("injected: %s at %s" % ("torn write, crash" if c["kind"] == "torn" else "crash", gen.NAMES[f["op"]]))
                ctx.nontrivial()
            elif st != "result":
                ctx.violate("generation-%s" % st, "generating %s, %s, ended with %s %s" % (plan["jobs"], what, st, got))
            else:
                ctx.count("crash not reached")
                bad = [o for o in got["outcome"] if o[0] != "ok"]
                if bad:
                    ctx.violate("after-crash", "generating over what a crash left fails: %s" % bad[0])
            touched(ctx, by, now, what)
            # calls that had returned before the crash left complete files
            if done:
                diff = c07.lost(done, after, own, now)
                if diff:
                    ctx.violate("lost-after-return", "call %d had returned before the %s, but %s" % (done, what, diff))
                if done < len(plan["jobs"]):
                    ctx.count("crash in a later call")
        st, got, done = life(gen, ctx, w, plan["jobs"], out, [])
        ctx.state([(j["lang"], sorted(j["kw"]), j["dir"]) for j in plan["jobs"]], trail, plan["old"], sorted(by))
        if st != "result" or any(o[0] != "ok" for o in got["outcome"]):
            ctx.violate("restart-fails", "generating again after the crashes %s ended with %s %s" % (trail, st, got))
        now = gen.tree(out)
        touched(ctx, by, now, "the generation after %s" % trail)
        diff = c07.differ(files, {k: v for k, v in now.items() if k not in by})
        if diff:
            ctx.violate("unclean-restart", "after %s and an undisturbed generation, %s" % (trail, diff))


def touched(ctx, by, now, what):
    for k, v in by.items():
        if now.get(k) != v:
            ctx.violate("foreign-file", "%s %s the file %s, which no target writes" % (what, "changed" if k in now else "deleted", k))


def life(gen, ctx, w, jobs, out, faults):
    """one process; also returns how many calls had returned"""
    r, wfd = os.pipe()
    st, got = gen.generate(ctx.shim, w, jobs, out, faults, progress=wfd)
    os.close(wfd)
    done = len(os.read(r, 100))
    os.close(r)
    return st, got, done


def simplify_plan(plan):
    from dst.checks import c07
    yield from c07.simplify_plan(plan)


def show(plan):
    from dst import eqprog
    return "%s\n%s\n%s\n%s" % (plan["jobs"], plan["crashes"], plan["bystanders"], eqprog.show(plan["model"]))
