import io, contextlib
from dst.checks import c09

PROPERTY = "C10"
LEVEL = "exploration"
QUICK_RUNS = 1200
THOROUGH_RUNS = 60000
QUICK_WALL = 60
SHRINK = ["loads", "sensors", "visuals", "jobs", "traj"]
RULE = ("one run assembles one random multibody system with sensors of all kinds between arbitrary frames and visualisation objects, derives it with 2-3 "
        "formalisms and option sets (also kinematics only, where the accelerations are inputs) under a seeded heap layout, and steps the generated programs along a "
        "simulated motion with jumps of inputs and state; at every step every sensor and every pose of a visualisation object must equal the reference; "
        "non-trivial if at least one value was compared at a regular state; distinct by the hash of the log")
STATES = "distinct (topology, sensor kinds and reference kinds, formalisms and options) tuples"
REAL = ["/repo/pymbs (input, transformation, processing: generators, sensors, frames)", "/repo/symbolics built from the working tree", "the generated Python programs"]
STUB = c09.STUB
CPU_LIMIT = 40
TIMEOUT = 60
warm = c09.warm
show = c09.show
ACC = ("Acceleration", "AngularAcceleration")
FORCE = ("ConstraintForce", "ConstraintTorque")


def make_plan(seed, tier):
    from dst import mbs
    from dst.core import rng, heap_cfg
    r = rng("c10", seed)
    m = mbs.gen(r, big=tier != "quick" and r.random() < 0.3)
    n = len(m["bodies"])
    anywhere = [["b", i] for i in range(-1, n)] + [["f", i] for i in range(len(m["frames"]))]
    for k in range(r.choice([1, 2, 3])):
        ty = r.choice(["Distance", "Position", "Velocity", "Acceleration", "Orientation", "AngularVelocity", "AngularAcceleration"])
        s = {"name": "t%d" % k, "type": ty, "cs": [r.choice(anywhere), r.choice(anywhere)],
             "ref": r.choice(anywhere) if r.random() < 0.4 and ty not in ("Distance", "Orientation") else None}
        m["sensors"].append(s)
    joints = [[i, d] for i, b in enumerate(m["bodies"]) for d in range(len(b["dofs"]))]
    for k in range(r.choice([0, 1, 1, 2])):
        if joints:
            m["sensors"].append({"name": "c%d" % k, "type": r.choice(FORCE), "joint": r.choice(joints)})
    m["visuals"] = []
    for k in range(r.choice([0, 1, 2])):
        ty, args = r.choice([["Box", [1, 2, 3]], ["Line", [2]], ["Sphere", [0.5]], ["Cylinder", [1, 2]], ["Frame", [0.3]], ["Arrow", [1]], ["File", ["body.stl", 2]]])
        m["visuals"].append({"name": "v%d" % k, "type": ty, "args": args, "cs": r.choice(anywhere)})
    jobs = []
    for mode in r.sample(["Recursive", "Explicit", "OrderN"], r.choice([2, 2, 3])):
        jobs.append({"mode": mode, "simplify": r.random() < 0.6, "opt": r.random() < 0.5, "kin": r.random() < 0.2, "force": r.random() < 0.1})
    if c09.dofs(m) > 4:
        jobs = [j for j in jobs if j["mode"] != "Explicit"] or jobs
    return {"seed": seed, "model": m, "jobs": jobs, "traj": c09.traj(r, m), "heap": heap_cfg(r)}


def skip(job):
    """sensors this job cannot deliver: cut forces need the recursive formalism, accelerations need dynamics"""
    return (ACC + FORCE) if job.get("kin") else (FORCE if job["mode"] != "Recursive" and not job.get("force") else ())


def execute(plan, ctx):
    import numpy as np
    from dst import mbs, scratch
    m = plan["model"]
    ref = mbs.Ref(m)
    if not ref.valid() or not ref.dofs or not plan["jobs"]:
        return
    ctx.heap()
    with scratch.Dir() as d:
        P = c09.Programs(ctx, plan, d, skip)
        seen = [0]

        def visit(k, S, t, q, qd, u):
            tol = 1e-11 * S.cond + 1e-8
            want = {}
            regular = 1.0
            for s in m["sensors"]:
                try:
                    want[s["name"]] = np.asarray(S.sensor(s)).reshape(-1)
                except mbs.Undefined:
                    want[s["name"]] = None
            scale = max(1.0, np.abs(list(S.qdd.values())).max(), np.abs(S.h).max() / max(1e-9, np.linalg.norm(S.M, -2)))
            for label, job, order, T, w in P.T:
                U = u
                if job.get("kin"):
                    U = dict(u, qdd=[S.qdd[x] for x in order])
                    T.decl["qdd"] = {"sh": (len(order),) if len(order) > 1 else ()}
                y = [S.q[n] for n in order] + [S.qd[n] for n in order]
                got = c09.run(ctx, T, order, t, S, U, label)
                if job.get("kin"):
                    w = np.array([S.qd[n] for n in order] + U["qdd"])
                    if not np.allclose(got, w):
                        ctx.violate("kinematics-state", "%s: the derivative of %s is %s, given were %s" % (label, y, got.tolist(), w.tolist()))
                out = {}
                for part, f in (("sensors", T.sensors), ("visual", T.visual)):
                    if part in T.files:
                        try:
                            out.update(f(t, y, U))
                        except Exception as ex:
                            ctx.violate("run-%s-%s:%s" % (part, job["mode"], type(ex).__name__), "the %s program of %s fails: %s: %s" % (part, label, type(ex).__name__, str(ex)[:300]))
                left = skip(job)
                names = {s["name"] for s in m["sensors"] if s["type"] not in left} | {x + v["name"] for v in m["visuals"] for x in ("r_", "T_")}
                if set(out) != names:
                    ctx.violate("names", "%s: the program returns %s, defined are %s" % (label, sorted(out), sorted(names)))
                for s in m["sensors"]:
                    if s["type"] not in left and want[s["name"]] is not None:
                        compare(ctx, k, label, s["type"], s, out[s["name"]], want[s["name"]], tol, scale, t, S, order, u, job)
                        seen[0] += 1
                for v in m["visuals"]:
                    R, p = S.pose_of(v["cs"])[:2]
                    for x, val in (("r_", p), ("T_", R.reshape(-1))):
                        compare(ctx, k, label, "pose", v, out[x + v["name"]], val, tol, scale, t, S, order, u, job)
                        seen[0] += 1
        c09.walk(ctx, plan, P, visit)
        if seen[0]:
            ctx.nontrivial()
        ctx.count("values compared", seen[0])
        ctx.state([(b["parent"], tuple(b["dofs"]), b["at"][0], b["to"][0]) for b in m["bodies"]], [(x["type"], [c[0] for c in x.get("cs", [])], bool(x.get("ref"))) for x in m["sensors"]],
                  [(j["mode"], j["simplify"], j["opt"], j["kin"]) for j in plan["jobs"]])


def compare(ctx, k, label, kind, s, got, want, tol, scale, t, S, order, u, job):
    import numpy as np
    g = np.asarray(got, dtype=float).reshape(-1)
    ctx.log(k, label, s["name"], np.round(g, 6).tolist())
    if kind in ACC or kind in FORCE:
        sc = scale * (max(S.r.mass) * len(S.r.mass) + 1 if kind in FORCE else 1)
    else:
        sc, tol = 1.0, 1e-8
    sc = max(sc, np.abs(want).max())
    if g.shape != want.shape or not np.all(np.abs(g - want) <= tol * sc):
        ctx.violate("%s-%s%s" % (kind, job["mode"], "-kin" if job.get("kin") else ""), "%s: %s at t=%g, coordinates %s, q=%s, qd=%s, inputs %s is %s, the motion says %s" % (
            label, s, t, order, [S.q[n] for n in order], [S.qd[n] for n in order], u, g.tolist(), want.tolist()))


def simplify_plan(plan):
    m = plan["model"]
    for p in c09.simplify_plan(plan):
        n = len(p["model"]["bodies"])
        if n == len(m["bodies"]) or not any(v["cs"] == ["b", n] or v["cs"][0] == "f" and m["frames"][v["cs"][1]]["body"] == n for v in m["visuals"]):
            yield p
    for i in range(len(m["visuals"])):
        yield dict(plan, model=dict(m, visuals=m["visuals"][:i] + m["visuals"][i + 1:]))
    for i, s in enumerate(m["sensors"]):
        def ws(**kw):
            return dict(plan, model=dict(m, sensors=m["sensors"][:i] + [dict(s, **kw)] + m["sensors"][i + 1:]))
        if s.get("ref"):
            yield ws(ref=None)
        for j in (0, 1):
            if s.get("cs") and s["cs"][j][0] == "f":
                c = list(s["cs"])
                c[j] = ["b", m["frames"][c[j][1]]["body"]]
                yield ws(cs=c)
            if s.get("cs") and s["cs"][j] != ["b", -1]:
                c = list(s["cs"])
                c[j] = ["b", -1]
                yield ws(cs=c)
    for i, j in enumerate(plan["jobs"]):
        for key in ("kin", "force"):
            if j.get(key):
                yield dict(plan, jobs=plan["jobs"][:i] + [dict(j, **{key: False})] + plan["jobs"][i + 1:])
