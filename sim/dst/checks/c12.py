from dst.checks import c09, c10

PROPERTY = "C12"
LEVEL = "exploration"
QUICK_RUNS = 900
THOROUGH_RUNS = 40000
QUICK_WALL = 60
SHRINK = ["loads", "sensors", "jobs", "traj"]
RULE = ("one run assembles one random mechanism with one or two closed loops (four bar linkages, sliders, cranks, legs of a hexapod, transmissions; in any plane, on moving hosts, with further bodies, loads "
        "and sensors attached), derives it with 2-3 formalisms and option sets under a seeded heap layout and evaluates the programs along a motion with jumps; the coordinates, velocities, "
        "accelerations and sensors of every program must be those of the closed mechanism (circle intersections, Jacobians of the closure, Lagrange multipliers); non-trivial if a regular "
        "state was judged; distinct by the hash of the log")
STATES = "distinct (loops, axes, hosts, load and sensor kinds, formalisms and options) tuples"
REAL = c09.REAL + ["/repo/pymbs/processing/loops"]
STUB = c09.STUB
CPU_LIMIT = 60
TIMEOUT = 90


def warm():
    c09.warm()
    from dst import loops


def make_plan(seed, tier):
    from dst import mbs
    from dst.core import rng, heap_cfg
    r = rng("c12", seed)
    m = mbs.gen(r, loops=True)
    m["sensors"] = [s for s in m["sensors"] if s["type"] not in c10.FORCE]
    # loads see rotations modulo a full turn only through what they do, so none may depend on the number itself
    for x in m["loads"]:
        for row in x["v"] if x["v"][0] != "vecin" else []:
            for term in row:
                f = term[1]
                if f[0] == "sen" and m["sensors"][f[1]]["type"] == "Joint" and m["sensors"][f[1]]["joint"] in [y for l in m["loops"] for y in l["v"]]:
                    term[1] = ["sint"]
    # every coordinate of a loop is observed
    have = [s["joint"] for s in m["sensors"] if s["type"] == "Joint"]
    for l in m["loops"]:
        for x in l["u"] + l["v"]:
            if x not in have and r.random() < 0.7:
                have.append(x)
                m["sensors"].append({"name": "s%d" % (100 + len(have)), "type": "Joint", "joint": x})
    m["visuals"] = []
    n = c09.dofs(m)
    modes = ["Recursive", "Explicit"] if n <= 7 else ["Recursive"]
    jobs = [{"mode": x, "simplify": r.random() < 0.6, "opt": r.random() < 0.5, "kin": r.random() < 0.12} for x in r.sample(modes, min(len(modes), r.choice([1, 2, 2])))]
    nu = n - len({tuple(x) for l in m["loops"] for x in l["v"]})
    traj = []
    for k in range(r.choice([3, 5, 8])):
        e = {"u": {u: [round(r.uniform(-4, 4), 2) for _ in range(max(1, s))] for u, s in m["inputs"]}, "tries": [
            [value(r) for _ in range(nu)] for _ in range(12)], "qd": [round(r.uniform(-2, 2), 3) for _ in range(nu)], "t": round(r.uniform(0, 3), 2)}
        traj.append(e)
    return {"seed": seed, "model": m, "jobs": jobs, "traj": traj, "heap": heap_cfg(r)}


def value(r):
    """a coordinate: anything, or one of the places where links are aligned"""
    import math
    return r.choice([0.0, 0.0, math.pi / 2, -math.pi / 2, math.pi, 1.0]) if r.random() < 0.15 else round(r.uniform(-3, 3), 3)


def execute(plan, ctx):
    import contextlib, io, os
    import numpy as np
    from dst import eqprog, loops, mbs, scratch
    m = plan["model"]
    ref = mbs.Ref(m)
    if not ref.valid() or not m["loops"] or not plan["jobs"]:
        return
    L = loops.Loops(ref)
    if not L.ind:
        return
    # regular states of the mechanism
    states = []
    for e in plan["traj"]:
        u = {name: e["u"].get(name, [0.0] * max(1, s)) for name, s in m["inputs"]}
        for q in e["tries"]:
            try:
                S = loops.State(L, e["t"], q, e["qd"], u)
                if np.abs(list(S.qdd.values())).max() > 1e5:
                    raise mbs.Undefined("fast")
            except mbs.Undefined:
                continue
            states.append((e["t"], S, u))
            break
    kinds = "+".join(sorted({l["type"] for l in m["loops"]}))
    if not states:
        ctx.count("no regular state: " + kinds)
        return
    ctx.heap()
    decl = {n: {"sh": (k,) if k else ()} for n, k in m["inputs"]}
    with scratch.Dir() as d:
        for j, job in enumerate(plan["jobs"]):
            label = "%s(simplify=%s,graphOptimizations=%s%s)" % (job["mode"], job.get("simplify"), job.get("opt"), ",kinematicsOnly=True" if job.get("kin") else "")
            sub = os.path.join(d, "j%d" % j)
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    W = mbs.World(m, c10.skip(job))
                    order = W.generate(job)
                    W.w.genCode.Python("mod", sub)
                except Exception as ex:
                    import traceback
                    tb = traceback.extract_tb(ex.__traceback__)
                    ctx.violate("derive-%s-%s:%s" % (job["mode"], kinds, type(ex).__name__), "%s of a mechanism with %s fails: %s: %s (%s)" % (label, m["loops"], type(ex).__name__, str(ex)[:300],
                                                                                                           ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]))
            if sorted(order) != sorted(L.ind):
                ctx.violate("coordinates", "%s has the coordinates %s, the independent ones are %s" % (label, order, L.ind))
            T = eqprog.PyTarget(sub, "mod", dict(decl))
            for part in T.files:
                T.load(part)
            ctx.count("derived: %s, %s" % (job["mode"], kinds))
            for k, (t, S, u) in enumerate(states):
                ctx.step = k
                judge(ctx, plan, L, job, label, order, T, t, S, u, kinds, k)
                ctx.nontrivial()
    ctx.count("states judged", len(states))
    ctx.state([(l["type"], l.get("axis"), l["u"], l["v"]) for l in m["loops"]], [(b["parent"], tuple(b["dofs"])) for b in m["bodies"]], [x["type"] for x in m["loads"] + m["sensors"]],
              [(j["mode"], j["simplify"], j["opt"], j["kin"]) for j in plan["jobs"]])


def judge(ctx, plan, L, job, label, order, T, t, S, u, kinds, k):
    import math
    import numpy as np
    from dst import mbs
    m = plan["model"]
    tol = 1e-11 * S.cond + 1e-8
    scale = max(1.0, np.abs(list(S.qdd.values())).max(), np.abs(S.h).max() / max(1e-9, np.linalg.norm(S.M, -2)))
    U = u
    if job.get("kin"):
        U = dict(u, qdd=[S.qdd[x] for x in order])
        T.decl["qdd"] = {"sh": (len(order),) if len(order) > 1 else ()}
    y = [S.q[n] for n in order] + [S.qd[n] for n in order]
    where = "%s: mechanism with %s at t=%g, %s=%s, velocities %s, inputs %s" % (label, [(l["type"], l["name"], l.get("args", l.get("ratio"))) for l in m["loops"]], t, order, y[:len(order)], y[len(order):], u)
    parts = [("der_state", lambda: np.asarray(T.der_state(t, y, U), dtype=float))]
    if "sensors" in T.files:
        parts.append(("sensors", lambda: T.sensors(t, y, U)))
    got = {}
    for name, f in parts:
        try:
            got[name] = f()
        except Exception as ex:
            ctx.violate("run-%s-%s-%s:%s" % (name, job["mode"], kinds, type(ex).__name__), "%s: the program fails: %s: %s" % (where, type(ex).__name__, str(ex)[:300]))
    for s in m["sensors"]:
        if s["type"] in c10.skip(job):
            continue
        try:
            want = np.asarray(S.sensor(s), dtype=float).reshape(-1)
        except mbs.Undefined:
            continue
        g = np.asarray(got["sensors"][s["name"]], dtype=float).reshape(-1)
        ctx.log(k, label, s["name"], np.round(g, 6).tolist())
        if s["type"] == "Joint":
            if g.shape == want.shape and m["bodies"][s["joint"][0]]["dofs"][s["joint"][1]][0] == "R" and [*s["joint"]] in [x for l in m["loops"] if l["type"] != "Transmission" for x in l["v"]]:
                g = g.copy()
                g[0] = want[0] + math.remainder(g[0] - want[0], 2 * math.pi)
            sc, tl = max(1, np.abs(want).max()), 1e-8 + 1e-12 * S.cond
        elif s["type"] in c10.ACC:
            sc, tl = max(scale, np.abs(want).max()), tol
        else:
            sc, tl = max(1, np.abs(want).max()), 1e-8 + 1e-12 * S.cond
        ctx.count("values compared")
        if g.shape != want.shape or not np.all(np.abs(g - want) <= tl * sc):
            ctx.violate("%s-%s-%s%s" % (s["type"], kinds, job["mode"], "-kin" if job.get("kin") else ""), "%s: %s is %s, the closed mechanism (%s) says %s" % (
                where, s, g.tolist(), {n: round(S.q[n], 6) for n in L.dep}, want.tolist()))
    g = got["der_state"]
    want = np.array([S.qd[n] for n in order] + [S.qdd[n] for n in order])
    ctx.log(k, label, np.round(g, 6).tolist())
    if g.shape != want.shape or not np.all(np.abs(g - want) <= tol * max(scale, np.abs(want).max())):
        ctx.violate("acceleration-%s-%s" % (kinds, job["mode"]), "%s: the program says %s, the laws of motion with closed loops say %s" % (where, g.tolist(), want.tolist()))


def simplify_plan(plan):
    m = plan["model"]
    if len(m["loops"]) > 1:
        pass
    inloop = {x[0] for l in m["loops"] for x in l["u"] + l["v"]}
    ends = {tuple(c) for l in m["loops"] for c in l["cs"]}
    for p in c09.simplify_plan(plan):
        q = p["model"]
        if len(q["bodies"]) != len(m["bodies"]) and (len(m["bodies"]) - 1) in inloop:
            continue
        if any(q["bodies"][i].get(k) != m["bodies"][i].get(k) for i in inloop if i < len(q["bodies"]) for k in ("dofs", "at", "to")):
            continue
        if len(q["bodies"]) == len(m["bodies"]) and any(len(a["dofs"]) != len(b["dofs"]) for a, b in zip(q["bodies"], m["bodies"])):
            continue
        if len(q["bodies"]) != len(m["bodies"]):
            n = len(m["bodies"][-1]["dofs"])
            if n:
                for e in p["traj"]:
                    e = dict(e)
                p["traj"] = [dict(e, tries=[x[:-n] for x in e["tries"]], qd=e["qd"][:-n]) for e in plan["traj"]]
            else:
                p["traj"] = plan["traj"]
        yield p
    for i, e in enumerate(plan["traj"]):
        if any(e["qd"]):
            yield dict(plan, traj=plan["traj"][:i] + [dict(e, qd=[0.0] * len(e["qd"]))] + plan["traj"][i + 1:])
        if e["t"]:
            yield dict(plan, traj=plan["traj"][:i] + [dict(e, t=0)] + plan["traj"][i + 1:])
    for i, j in enumerate(plan["jobs"]):
        if j.get("kin"):
            yield dict(plan, jobs=plan["jobs"][:i] + [dict(j, kin=False)] + plan["jobs"][i + 1:])


def show(plan):
    return c09.show(plan) + "\nloops %s" % plan["model"]["loops"]
