PROPERTY = "C16"
LEVEL = "exploration"
QUICK_RUNS = 6000
THOROUGH_RUNS = 200000
QUICK_WALL = 40
SHRINK = ["ops"]
RULE = ("one run drives one or two integrators of random oscillators, pendulums and forced systems through a random history of steps, step size changes and resets, with right-hand sides that fail or "
        "return invalid numbers at planned evaluations; every returned state is compared with the true motion, with an undisturbed integrator and with what it was when it was returned; "
        "non-trivial if there was a reset after a step; distinct by the hash of the log")
STATES = "distinct (system, sequence of operations, outcomes) tuples"
REAL = ["/repo/pymbs/ui/integrator.py", "scipy's lsoda"]
STUB = ["the model: closed-form right-hand sides that fail at planned evaluations"]


def warm():
    import numpy, scipy.integrate
    import pymbs.ui.integrator


def make_plan(seed, tier):
    from dst.core import rng
    r = rng("c16", seed)
    objs = []
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([1, 1, 2, 3])
        objs.append({"kind": r.choice(["spring", "spring", "damped", "forced", "coupled", "free"]), "n": n, "w": [round(r.uniform(0.5, 9), 2) for _ in range(n)],
                     "q0": [round(r.uniform(-2, 2), 2) for _ in range(n)], "qd0": [round(r.uniform(-2, 2), 2) for _ in range(n)] if r.random() < 0.5 else [0.0] * n,
                     "dt": r.choice([None, None, 0.01, 0.002, 0.05, 0.1]), "tol": r.choice([None, None, [1e-6, 1e-8], [1e-8, 1e-9], [1e-5, 1e-7]])})
    ops = []
    for _ in range(r.choice([3, 6, 12, 25])):
        k = r.random()
        o = r.randrange(len(objs))
        if k < 0.62:
            ops.append([o, "step", r.choice([1, 1, 2, 5])])
        elif k < 0.74:
            ops.append([o, "reset"])
        elif k < 0.86:
            ops.append([o, "dt", r.choice([0.01, 0.001, 0.03, 0.1, 0.004, 1])])
        else:
            ops.append([o, "fault", r.choice(["raise", "raise", "nan"]), r.randrange(1, 40)])
    return {"seed": seed, "objs": objs, "ops": ops}


class Model:
    def __init__(self, o):
        self.o = o
        self.calls = 0
        self.fault = None
        self.fired = None

    def __call__(self, t, y):
        import math
        import numpy as np
        o, n = self.o, self.o["n"]
        self.calls += 1
        if self.fault and self.calls >= self.fault[1]:
            self.fired, self.fault = self.fault[0], None
            if self.fired == "raise":
                raise ArithmeticError("planned")
            return np.full(2 * n, np.nan)
        q, v = y[:n], y[n:]
        w = np.array(o["w"])
        if o["kind"] == "spring":
            a = -w * w * q
        elif o["kind"] == "damped":
            a = -w * w * q - 0.4 * w * v
        elif o["kind"] == "forced":
            a = np.sin(w * t)
        elif o["kind"] == "coupled":
            a = -w * w * q + 0.3 * (q.sum() - n * q)
        else:
            a = -w
        return np.concatenate([v, a])


def close(a, b, tol):
    import numpy as np
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


class Obj:
    def __init__(self, o):
        from pymbs.ui.integrator import Integrator
        self.o = o
        self.f = Model(o)
        kw = {}
        if o["dt"] is not None:
            kw["dt"] = o["dt"]
        if o["tol"]:
            kw["rtol"], kw["atol"] = o["tol"]
        self.I = Integrator(self.f, list(o["q0"]), list(o["qd0"]), **kw)
        self.kw = kw
        self.begin()
        self.dt = o["dt"] if o["dt"] is not None else 0.01
        self.kept = []
        self.broken = False

    def begin(self):
        self.t = 0.0
        self.seq = []         # (t, state) since the last (re)start

    def truth(self, ts):
        """the motion at these times"""
        import numpy as np
        from scipy.integrate import solve_ivp
        g = Model(self.o)
        s = solve_ivp(lambda t, y: g(t, y), (0, max(ts)), list(self.o["q0"]) + list(self.o["qd0"]), method="DOP853", rtol=1e-11, atol=1e-12, t_eval=sorted(set(ts)))
        return dict(zip(sorted(set(ts)), s.y.T))

    def judge(self, ctx, what):
        """after a run: is it the motion, and the same as that of a fresh integrator?"""
        import numpy as np
        from pymbs.ui.integrator import Integrator
        if not self.seq:
            return
        rtol, atol = self.o["tol"] or (1e-3, 1e-6)
        ts = [t for t, _ in self.seq]
        if max(ts) <= 6:
            tr = self.truth(ts)
            for t, y in self.seq:
                tol = 60 * (rtol * (1 + t * max(self.o["w"])) * (2 + np.abs(tr[t]).max() * max(1, max(self.o["w"]))) + atol)
                if not close(y, tr[t], tol):
                    ctx.violate("motion", "%s %s: at t=%g the integrator says %s, the motion is %s (tolerance %g)" % (self.o, what, t, y.tolist(), tr[t].tolist(), tol))
        fresh = Integrator(Model(self.o), list(self.o["q0"]), list(self.o["qd0"]), **self.kw)
        t = 0.0
        for i, (tt, y) in enumerate(self.seq):
            fresh.set_step_size(tt - t)
            z = np.array(fresh.step())
            t = tt
            if not close(y, z, 1e-9 * (1 + np.abs(z).max())):
                ctx.violate("repeat", "%s %s: step %d to t=%g gives %s, a new integrator with the same settings gives %s" % (self.o, what, i, tt, y.tolist(), z.tolist()))
        ctx.count("runs compared with a new integrator")


def execute(plan, ctx):
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    objs = [Obj(o) for o in plan["objs"]]
    trail = []
    for k, op in enumerate(plan["ops"]):
        ctx.step = k
        if op[0] >= len(objs):
            continue
        O = objs[op[0]]
        trail.append(op[1])
        what = "after %s" % [x[1:] for x in plan["ops"][:k + 1] if x[0] == op[0]]
        if op[1] == "dt":
            O.I.set_step_size(op[2])
            O.dt = op[2]
        elif op[1] == "fault":
            if not O.broken:
                O.f.fault = (op[2], O.f.calls + op[3])
        elif op[1] == "reset":
            O.judge(ctx, what)
            O.f.fault = None
            if O.seq:
                ctx.nontrivial()
            O.I.reset()
            O.begin()
            O.broken = False
            if abs(O.I.t) > 0 or [float(x) for x in O.I.y] != [float(x) for x in O.o["q0"] + O.o["qd0"]]:
                ctx.violate("reset", "%s %s: after reset() t is %s and the state %s" % (O.o, what, O.I.t, list(O.I.y)))
        else:
            for _ in range(op[2]):
                if O.broken:
                    break
                O.f.fired = None
                try:
                    y = O.I.step()
                except Exception as ex:
                    if not O.f.fired:
                        ctx.violate("raises:%s" % type(ex).__name__, "%s %s: step() raises %s: %s" % (O.o, what, type(ex).__name__, ex))
                    ctx.count("error passed on: " + O.f.fired)
                    O.broken = True
                    trail.append("error")
                    break
                if O.f.fired:
                    ctx.count("injected: " + O.f.fired)
                if O.f.fired == "raise":
                    ctx.violate("swallowed", "%s %s: the right-hand side raised, step() returned %s" % (O.o, what, list(y)))
                O.t += O.dt
                if O.f.fired == "nan":
                    if np.all(np.isfinite(y)):       # lsoda may have repeated the step
                        tr = O.truth([O.t])[O.t]
                        if not close(np.array(y, dtype=float), tr, 0.05 * (1 + np.abs(tr).max())):
                            ctx.violate("invalid", "%s %s: the right-hand side was NaN once, step() returned %s at t=%g, the motion is %s" % (O.o, what, list(y), O.t, tr.tolist()))
                    O.broken = True
                    break
                if abs(O.I.t - O.t) > 1e-9 * (1 + O.t):
                    ctx.violate("time", "%s %s: the integrator is at %.9g, %.9g is due" % (O.o, what, O.I.t, O.t))
                y0 = np.array(y, dtype=float)
                O.seq.append((O.I.t, y0))
                O.kept.append((y, y0.tolist(), k))
                ctx.log(k, np.round(y0, 6).tolist())
                ctx.count("steps")
        for P in objs:
            for y, y0, kk in P.kept:
                if [float(x) for x in y] != y0:
                    ctx.violate("aliased", "%s: the state returned in operation %d was %s; after operation %d (%s) it is %s" % (P.o, kk, y0, k, op, [float(x) for x in y]))
    for O in objs:
        O.judge(ctx, "at the end of %s" % [x[1:] for x in plan["ops"]])
    ctx.state([(o["kind"], o["n"], o["dt"], bool(o["tol"])) for o in plan["objs"]], trail)


def simplify_plan(plan):
    if len(plan["objs"]) > 1:
        for i in range(len(plan["objs"])):
            yield dict(plan, objs=[plan["objs"][i]], ops=[[0] + x[1:] for x in plan["ops"] if x[0] == i])
    for i, o in enumerate(plan["objs"]):
        for kw in ({"kind": "free"}, {"n": 1, "w": o["w"][:1], "q0": o["q0"][:1], "qd0": o["qd0"][:1]}, {"tol": None}, {"dt": None}):
            if any(o[k] != v for k, v in kw.items()):
                yield dict(plan, objs=plan["objs"][:i] + [dict(o, **kw)] + plan["objs"][i + 1:])
    for i, x in enumerate(plan["ops"]):
        if x[1] == "step" and x[2] > 1:
            yield dict(plan, ops=plan["ops"][:i] + [[x[0], "step", 1]] + plan["ops"][i + 1:])


def show(plan):
    return "%s\n%s" % (plan["objs"], plan["ops"])
