import io, contextlib

PROPERTY = "C09"
LEVEL = "exploration"
QUICK_RUNS = 1200
THOROUGH_RUNS = 60000
QUICK_WALL = 60
SHRINK = ["loads", "sensors", "jobs", "traj"]
RULE = ("one run assembles one random multibody system (tree of 1-6 bodies, fixed and multi-axis joints, shifted, rotated and nested frames, numeric and "
        "parametric masses, cg and inertia, all load types), derives its equations with 2-3 formalisms and option sets under a seeded heap layout, and steps the "
        "generated programs along a simulated motion with input jumps; at every step every program's accelerations must equal the Newton-Euler reference; "
        "non-trivial if at least two programs were compared at a regular state; distinct by the hash of the log")
STATES = "distinct (topology, joint axes, load kinds, formalisms and options) tuples"
REAL = ["/repo/pymbs (input, transformation, processing: generators, loads, joints)", "/repo/symbolics built from the working tree", "the generated Python programs"]
STUB = ["heap layout: operator new/delete come from a seeded arena", "the integrator: a fixed-step scheme over simulated time"]
CPU_LIMIT = 40
TIMEOUT = 60


def warm():
    import numpy
    import pymbs.input
    from dst import eqprog, mbs, scratch


def make_plan(seed, tier):
    from dst import mbs
    from dst.core import rng, heap_cfg
    r = rng("c09", seed)
    m = mbs.gen(r, big=tier != "quick" and r.random() < 0.3)
    jobs = []
    for mode in r.sample(["Recursive", "Explicit", "OrderN"], r.choice([2, 3])):
        jobs.append({"mode": mode, "simplify": r.random() < 0.6, "opt": r.random() < 0.5})
    if dofs(m) > 4:
        jobs = [j for j in jobs if j["mode"] != "Explicit"] or jobs
    return {"seed": seed, "model": m, "jobs": jobs, "traj": traj(r, m), "heap": heap_cfg(r)}


def dofs(m):
    return sum(len(b["dofs"]) for b in m["bodies"])


def traj(r, m):
    """jumps of the inputs and of the state between the steps of the simulated motion"""
    out = []
    n = dofs(m)
    for k in range(r.choice([2, 3, 4])):
        e = {"dt": r.choice([0.01, 0.05, 0.2]), "u": {u: [round(r.uniform(-4, 4), 2) for _ in range(max(1, s))] for u, s in m["inputs"]}}
        if k and r.random() < 0.5:
            e["q"] = [round(r.uniform(-1.5, 1.5), 3) for _ in range(n)]
            e["qd"] = [round(r.uniform(-2, 2), 3) for _ in range(n)]
        out.append(e)
    return out


class Programs:
    """one model, derived and generated once per job"""

    def __init__(self, ctx, plan, d, skip=lambda job: (), wrap=None):
        import os
        from dst import eqprog, mbs
        m = plan["model"]
        self.ref = mbs.Ref(m)
        self.T = []
        self.decl = {n: {"sh": (k,) if k else ()} for n, k in m["inputs"]}
        for k, job in enumerate(plan["jobs"]):
            label = "%s(simplify=%s,graphOptimizations=%s%s)" % (job["mode"], job.get("simplify"), job.get("opt"), ",kinematicsOnly=True" if job.get("kin") else "")
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    w = mbs.World(m, skip(job), wrap)
                except Exception as ex:
                    ctx.violate("assemble:%s" % type(ex).__name__, "assembling the model fails: %s: %s" % (type(ex).__name__, str(ex)[:300]))
                try:
                    order = w.generate(job)
                except Exception as ex:
                    if job.get("force") and isinstance(ex, NotImplementedError):
                        ctx.count("refused: sensor this formalism cannot deliver")
                        continue
                    ctx.violate("derive-%s:%s" % (job["mode"], type(ex).__name__), "%s fails: %s" % (label, str(ex)[:300]))
                sub = os.path.join(d, "j%d" % k)
                try:
                    w.w.genCode.Python("mod", sub)
                except Exception as ex:
                    ctx.violate("write-%s:%s" % (job["mode"], type(ex).__name__), "writing the program of %s fails: %s" % (label, str(ex)[:300]))
            if sorted(order) != sorted(self.ref.dofs):
                ctx.violate("coordinates", "%s has the coordinates %s, the joints are %s" % (label, order, self.ref.dofs))
            T = eqprog.PyTarget(sub, "mod", dict(self.decl))
            for part in T.files:
                try:
                    T.load(part)
                except SyntaxError as ex:
                    ctx.violate("syntax", "the program of %s is not valid Python: %s" % (label, ex))
            self.T.append((label, job, order, T, w))
            ctx.count("derived: " + job["mode"])


def walk(ctx, plan, progs, visit):
    """the simulated motion; visit(step, state, t) at every regular state"""
    import numpy as np
    from dst import mbs
    m = plan["model"]
    q = [x for b in m["bodies"] for x in b["q0"]]
    qd = [x for b in m["bodies"] for x in b["qd0"]]
    t = 0.0
    n = 0
    for k, e in enumerate(plan["traj"]):
        ctx.step = k
        if len(e.get("q", [])) == len(q):
            q, qd = list(e["q"]), list(e["qd"])
        u = {name: e["u"].get(name, [0.0] * max(1, s)) for name, s in m["inputs"]}
        try:
            S = progs.ref.state(t, q, qd, u)
            if np.abs(list(S.qdd.values())).max() > 1e5:
                raise mbs.Undefined("fast")
        except mbs.Undefined:
            ctx.count("irregular state skipped")
            t += e["dt"]
            continue
        visit(k, S, t, q, qd, u)
        n += 1
        a = [S.qdd[x] for x in progs.ref.dofs]
        dt = e["dt"]
        q = [x + dt * v + dt * dt / 2 * y for x, v, y in zip(q, qd, a)]
        qd = [max(-20, min(20, v + dt * y)) for v, y in zip(qd, a)]
        t += dt
    ctx.count("simulated time [ms]", int(t * 1000))
    return n


def run(ctx, T, order, t, S, u, label):
    """-> derivative and sensors of one program"""
    import numpy as np
    y = [S.q[n] for n in order] + [S.qd[n] for n in order]
    try:
        return np.asarray(T.der_state(t, y, u), dtype=float)
    except Exception as ex:
        ctx.violate("run:%s" % type(ex).__name__, "the program of %s fails: %s: %s" % (label, type(ex).__name__, str(ex)[:300]))


def execute(plan, ctx):
    import numpy as np
    from dst import mbs, scratch
    m = plan["model"]
    ref = mbs.Ref(m)
    if not ref.valid() or not ref.dofs or not plan["jobs"]:
        return
    ctx.heap()
    with scratch.Dir() as d:
        P = Programs(ctx, plan, d)

        def visit(k, S, t, q, qd, u):
            tol = 1e-11 * S.cond + 1e-8
            for label, job, order, T, w in P.T:
                got = run(ctx, T, order, t, S, u, label)
                want = np.array([S.qd[n] for n in order] + [S.qdd[n] for n in order])
                ctx.log(k, label, np.round(got, 6).tolist())
                scale = max(1.0, np.abs(want).max(), np.abs(S.h).max() / max(1e-9, np.linalg.norm(S.M, -2)) if S.h.size else 1)
                if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * scale):
                    ctx.violate("acceleration-" + job["mode"], "%s: at t=%g, coordinates %s, q=%s, qd=%s, inputs %s the program says %s, Newton-Euler says %s" % (
                        label, t, order, [S.q[n] for n in order], [S.qd[n] for n in order], u, got.tolist(), want.tolist()))
        n = walk(ctx, plan, P, visit)
        if n and len(P.T) > 1:
            ctx.nontrivial()
        ctx.state([(b["parent"], tuple(b["dofs"]), b["at"][0], b["to"][0]) for b in m["bodies"]], [x["type"] for x in m["loads"]],
                  [(j["mode"], j["simplify"], j["opt"]) for j in plan["jobs"]])


def simplify_plan(plan):
    import copy
    m = plan["model"]

    def w(**kw):
        return dict(plan, model=dict(m, **kw))
    for key in ("loads", "sensors"):
        for i in range(len(m[key])):
            if key == "sensors" and any(src[0] == "sen" for ld in m["loads"] for v in ld["v"] if isinstance(v, list) for _, src in v):
                continue
            yield w(**{key: m[key][:i] + m[key][i + 1:]})
    # a leaf body that nothing refers to
    last = len(m["bodies"]) - 1
    if last > 0 and not any(x in (["b", last],) or (x and x[0] == "f" and m["frames"][x[1]]["body"] == last) for x in refs(m, last)):
        p = w(bodies=m["bodies"][:-1])
        p["model"]["frames"] = [dict(f, body=-1) if f["body"] == last else f for f in m["frames"]]
        p["traj"] = [{k: v for k, v in e.items() if k not in ("q", "qd")} for e in plan["traj"]]
        yield p
    for i, b in enumerate(m["bodies"]):
        def wb(**kw):
            return w(bodies=m["bodies"][:i] + [dict(b, **kw)] + m["bodies"][i + 1:])
        if b["at"][0] == "f":
            yield wb(at=["b", b["parent"]])
        if b["to"][0] == "f":
            yield wb(to=["b", i])
        if b["mass"] != 1:
            yield wb(mass=1)
        if b["cg"] != [0, 0, 0]:
            yield wb(cg=[0, 0, 0])
        if b["I"] != [1, 0, 1, 0, 0, 1]:
            yield wb(I=[1, 0, 1, 0, 0, 1])
        if any(b["qd0"]):
            yield wb(qd0=[0] * len(b["dofs"]))
        if any(b["q0"]):
            yield wb(q0=[0] * len(b["dofs"]))
        if len(b["dofs"]) > 1:
            p = wb(dofs=b["dofs"][1:], q0=b["q0"][1:], qd0=b["qd0"][1:])
            p["traj"] = [{k: v for k, v in e.items() if k not in ("q", "qd")} for e in plan["traj"]]
            if not any(x.get("joint") for x in m["loads"] + m["sensors"]):
                yield p
    for i, f in enumerate(m["frames"]):
        def wf(**kw):
            return w(frames=m["frames"][:i] + [dict(f, **kw)] + m["frames"][i + 1:])
        if f["R"] is not None:
            yield wf(R=None)
            if f["R"]["kind"] != "exact":
                yield wf(R={"kind": "exact", "rot": [["x", 1.5707963267948966, False]]})
        if f["p"] != [0, 0, 0]:
            yield wf(p=[0, 0, 0])
            if f["p"] != [1, 0, 0]:
                yield wf(p=[1, 0, 0])
        if f["under"] is not None:
            yield wf(under=None)
    for i, ld in enumerate(m["loads"]):
        def wl(**kw):
            return w(loads=m["loads"][:i] + [dict(ld, **kw)] + m["loads"][i + 1:])
        if ld.get("ref"):
            yield wl(ref=None)
        if ld["v"][0] != "vecin" and ld["v"] != [[[1, ["one"]]]] * len(ld["v"]):
            yield wl(v=[[[1, ["one"]]]] * len(ld["v"]))
        for j in (0, 1):
            if ld.get("cs") and ld["cs"][j][0] == "f":
                c = list(ld["cs"])
                c[j] = ["b", m["frames"][c[j][1]]["body"]]
                yield wl(cs=c)
    if m["gravity"] != [0, 0, 0]:
        yield w(gravity=[0, 0, 0])
    for i, j in enumerate(plan["jobs"]):
        for k in ("simplify", "opt"):
            if j.get(k):
                yield dict(plan, jobs=plan["jobs"][:i] + [dict(j, **{k: False})] + plan["jobs"][i + 1:])
    for n, v in m["params"].items():
        if v != 1:
            yield w(params=dict(m["params"], **{n: 1}))


def refs(m, last):
    for i, b in enumerate(m["bodies"]):
        yield b["at"]
        if i != last:
            yield b["to"]
    for x in m["loads"] + m["sensors"]:
        yield from (c for c in x.get("cs", []))
        if x.get("ref"):
            yield x["ref"]
        if "body" in x:
            yield ["b", x["body"]]
        if "joint" in x:
            yield ["b", x["joint"][0]]


def show(plan):
    m = plan["model"]
    out = ["gravity %s, parameters %s, inputs %s" % (m["gravity"], m["params"], m["inputs"])]
    out += ["body %d %s" % (i, b) for i, b in enumerate(m["bodies"])] + ["frame %d %s" % (i, f) for i, f in enumerate(m["frames"])]
    out += ["load %s" % x for x in m["loads"]] + ["sensor %s" % x for x in m["sensors"]] + ["jobs %s" % plan["jobs"], "motion %s" % plan["traj"]]
    return "\n".join(out)
