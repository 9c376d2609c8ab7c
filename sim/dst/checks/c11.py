import copy, os

from dst import session

PROPERTY = "C11"
LEVEL = "exploration"
QUICK_RUNS = 900
THOROUGH_RUNS = 40000
QUICK_WALL = 60
SHRINK = ["ops"]
RULE = ("one run is the life of one process: random multibody systems are simulated with world.simulate() under few names, again and again, with other calls that write, import or show programs of the same "
        "names in between, disk errors, a limit on the size of files and systems lsoda gives up on; every result file is compared row by row with the motion integrated from an independent "
        "Newton-Euler reference; non-trivial if two results were judged; distinct by the hash of the log")
STATES = "distinct (sequence of operations, names, formalisms, outcomes) tuples"
REAL = ["/repo/pymbs (input, transformation, processing, common, ui.integrator)", "/repo/symbolics built from the working tree", "the generated Python programs and Python's import system", "scipy's lsoda",
        "the kernel's file system in a scratch directory"]
STUB = ["disk errors: open, mkdir, write, close below the scratch directory go through a seam that fails them as planned; the size limit is the kernel's (RLIMIT_FSIZE)",
        "heap layout: operator new/delete come from a seeded arena", "the clock is virtual"]
CPU_LIMIT = 90
TIMEOUT = 120


def warm():
    import numpy, scipy.integrate
    import pymbs.input
    from dst import eqprog, gen, mbs


def make_plan(seed, tier):
    from dst.checks import c07
    from dst.core import rng, heap_cfg
    r = rng("c11", seed)
    models = [session.gen_model(r)]
    for _ in range(r.choice([0, 1, 1, 2])):
        if r.random() < 0.6:        # nearly the same: programs of equal size
            m = copy.deepcopy(r.choice(models))
            b = r.choice(m["bodies"])
            b["cg"] = [round(-x, 3) if not isinstance(x, list) else x for x in b["cg"]]
            m["gravity"] = r.choice([[0, 0, -1], [0, -1, 0], [1, 0, 0]])
            for p in m["params"]:
                if r.random() < 0.5:
                    m["params"][p] = round(abs(m["params"][p]) + r.choice([0.5, 1.0]), 3)
            models.append(m)
        else:
            models.append(session.gen_model(r))
    ops = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        k = r.randrange(len(models))
        n = sum(len(b["dofs"]) for b in models[k]["bodies"])
        op = {"op": r.choice(["sim"] * 6 + ["gen", "import", "forget"]), "model": k, "name": r.choice(["m", "m", "arm", "pymbsModel"]),
              "job": {"mode": r.choice(["Recursive", "Explicit", "OrderN"]), "simplify": r.random() < 0.6, "opt": r.random() < 0.5}}
        if op["op"] == "sim":
            op["q0"] = [round(r.uniform(-1.2, 1.2), 2) for _ in range(n)]
            op["t"] = r.choice([0, 0.004, 0.01, 0.05, 0.1, 0.13, 0.255, 0.3])
            op["text"] = r.random() < 0.35
            k = r.random()
            if k < 0.06:
                op["q0"] = op["q0"][:-1]
            elif k < 0.1:
                op["q0"] = op["q0"] + [0.5] * r.choice([1, n])
            elif k < 0.2:
                op["stiff"] = r.choice([1e9, 1e11])
                op["t"] = max(op["t"], 0.05)
            elif k < 0.45:
                op["faults"] = [c07.fault(r, ["err", "err", "short", "eintr"]) for _ in range(r.choice([1, 1, 2]))]
            elif k < 0.55:
                op["limit"] = int(10 ** r.uniform(0, 4.5))
        elif op["op"] == "gen":
            op["where"] = r.choice(["cwd", "tmp"])
        ops.append(op)
    return {"seed": seed, "models": models, "ops": ops, "heap": heap_cfg(r)}


def stiff(m, k):
    """the model with a spring that a step of 0.01 s cannot resolve in 500 steps"""
    m = copy.deepcopy(m)
    i = next(i for i, b in enumerate(m["bodies"]) if b["dofs"])
    m["loads"] = [l for l in m["loads"] if l.get("joint") != [i, 0]]
    s = next((j for j, x in enumerate(m["sensors"]) if x.get("joint") == [i, 0]), None)
    if s is None:
        m["sensors"] = m["sensors"] + [{"name": "sK", "type": "Joint", "joint": [i, 0]}]
        s = len(m["sensors"]) - 1
    m["loads"] = m["loads"] + [{"name": "LK", "type": "Joint", "joint": [i, 0], "v": [[[-k, ["sen", s, 0]]]], "how": "exp"}]
    return m


class Motion:
    """states every 0.01 s from the reference, and how far a result may be off"""

    def __init__(self, ref, m, q0, rows):
        import numpy as np
        from dst import mbs
        d = ref.dofs
        self.n = len(d)
        u = {n: [0.0] * max(1, s) for n, s in m["inputs"]}

        budget = [3000]

        def f(t, y):
            budget[0] -= 1
            if budget[0] < 0:
                raise mbs.Undefined("stiff")
            S = ref.state(t, [float(x) for x in y[:self.n]], [float(x) for x in y[self.n:]], u)
            a = np.array([S.qdd[x] for x in d])
            if np.abs(a).max() > 1e5:
                raise mbs.Undefined("fast")
            return np.concatenate([y[self.n:], a])
        y0 = np.array(list(q0) + [0.0] * self.n)
        self.y, z = [self.run(f, y0, rows, *tol) for tol in ((1e-9, 1e-10), (1e-3, 1e-6))]
        n = min(len(self.y), len(z))
        self.y = self.y[:n]
        self.tol = []
        t = 0.0
        for a, b in zip(self.y, z):
            t = max(t, 4 * float(np.abs(a - b).max()))
            self.tol.append(1e-5 * (1 + float(np.abs(a).max())) + t)

    @staticmethod
    def run(f, y0, rows, rtol, atol):
        import numpy as np
        import warnings
        from scipy.integrate import ode
        from dst import mbs
        out = [y0]
        o = ode(f).set_integrator("lsoda", rtol=rtol, atol=atol, nsteps=3000)
        o.set_initial_value(y0)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                while len(out) < rows:
                    y = np.array(o.integrate(0.01 * len(out)))
                    if not o.successful() or not np.all(np.isfinite(y)) or np.abs(y).max() > 1e3:
                        break
                    out.append(y)
        except mbs.Undefined:
            pass
        return out


class Endless(BaseException):
    pass


def watch(limit):
    """integrating without end is noticed by counting"""
    from scipy import integrate
    old = integrate.ode.integrate
    n = [0]

    def counted(self, *a, **kw):
        n[0] += 1
        if n[0] > limit:
            raise Endless()
        return old(self, *a, **kw)
    integrate.ode.integrate = counted
    return old


def execute(plan, ctx):
    import contextlib, io, importlib, resource, sys, tempfile
    import numpy as np
    from scipy import integrate
    from dst import gen, mbs
    from dst.checks import c07
    ctx.heap()
    lib = ctx.shim.lib
    judged = 0
    trail = []
    with session.workdir("sim") as (d, tmp, cwd):
        path = list(sys.path)
        for k, op in enumerate(plan["ops"]):
            ctx.step = k
            m = plan["models"][op["model"]]
            if op.get("stiff"):
                m = stiff(m, op["stiff"])
            ref = mbs.Ref(m)
            if not ref.valid() or not ref.dofs:
                continue
            with contextlib.redirect_stdout(io.StringIO()):
                W = mbs.World(m)
                order = W.generate(op["job"])
            if op["op"] == "gen":
                with contextlib.redirect_stdout(io.StringIO()):
                    W.w.genCode.Python(op["name"], cwd if op["where"] == "cwd" else tmp)
                trail.append("gen " + op["where"])
                continue
            if op["op"] == "import":        # the user works with code generated earlier
                sys.path.insert(0, cwd)
                try:
                    importlib.invalidate_caches()
                    importlib.import_module(op["name"] + "_der_state")
                    trail.append("import")
                except ImportError:
                    pass
                sys.path.remove(cwd)
                continue
            if op["op"] == "forget":
                for x in ("m", "arm"):
                    sys.modules.pop(x + "_der_state", None)
                continue
            q0 = list(op["q0"])
            out = os.path.join(cwd, op["name"] + "_values" + (".csv" if op["text"] else ".npy"))
            before = set(os.listdir(tmp))
            mods = {x: y for x, y in sys.modules.items() if x.endswith("_der_state")}
            faults = []
            if op.get("faults"):
                lib.shim_disk_init(os.fsencode(d), -1)
                res = {"ops": [6, 30, 6, 1]}
                faults = c07.resolve({"faults": op["faults"]}, res, gen)
                for f in faults:
                    lib.shim_disk_fault(f["at"], f["op"], f["kind"], f["err"], f["arg"], f["sticky"])
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            if op.get("limit"):
                resource.setrlimit(resource.RLIMIT_FSIZE, (op["limit"], hard))
            old = watch(int(op["t"] * 300) + 100)
            err = None
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    import warnings
                    warnings.simplefilter("ignore")
                    W.w.simulate(q0, op["t"], op["name"], op["text"])
            except Endless:
                ctx.violate("endless", "simulate(%s, %g, %r) keeps integrating and never ends" % (q0, op["t"], op["name"]))
            except Exception as ex:
                err = ex
            finally:
                integrate.ode.integrate = old
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                fired = [f for i, f in enumerate(faults) if lib.shim_disk_fired(i)]
                if op.get("faults"):
                    lib.shim_disk_clear()
                    lib.shim_disk_on(0)
            for f in fired:
                ctx.count("injected: %s %s%s" % (gen.NAMES[f["op"]], gen.KINDS[f["kind"]], " " + f["name"] if f["kind"] == gen.ERR else ""))
            what = "simulate(%s, %g, %r, text_output=%s) after %s%s" % (q0, op["t"], op["name"], op["text"], trail, ", with %s" % (
                op.get("faults") and [(gen.NAMES[f["op"]], f["at"], f["name"]) for f in fired] or op.get("limit") or "no fault"))
            fault = [f for f in fired if f["kind"] == gen.ERR] or op.get("limit")
            bad = len(q0) != len(order)
            trail.append("sim %s%s" % (op["name"], " failed" if err else ""))
            ctx.log(k, op["op"], op["name"], type(err).__name__ if err else "ok")
            if sys.path != path:
                ctx.violate("path", "after %s sys.path is %s" % (what, [x for x in sys.path if x not in path]))
            left = set(os.listdir(tmp)) - before
            if left and not fault:
                ctx.violate("leftover", "%s leaves %s in the directory for temporary files" % (what, sorted(left)))
            if err:
                ctx.count("error raised: " + type(err).__name__)
                if not (fault or bad or op.get("stiff")):
                    n = Motion(ref, m, [q0[order.index(x)] for x in ref.dofs], 40).y if len(q0) == len(order) else []
                    if len(n) >= 40:
                        ctx.violate("fails:%s" % type(err).__name__, "%s fails: %s" % (what, str(err)[:300]))
                continue
            if bad:
                ctx.violate("wrong-length", "%s returned normally, the model has the coordinates %s" % (what, order))
            try:
                got = np.loadtxt(out, ndmin=2) if op["text"] else np.load(out)
            except Exception as ex:
                ctx.violate("unreadable", "%s returned normally, reading %s fails: %s" % (what, os.path.basename(out), str(ex)[:200]))
            rows = -(-op["t"] // 0.01) if op["t"] > 0 else 0
            if got.ndim != 2 or got.shape[1] != 2 * len(order) or not rows + 1 - 1e-9 <= len(got) + (op["t"] / 0.01 - op["t"] // 0.01 < 1e-6) <= rows + 3:
                ctx.violate("shape", "%s wrote an array of shape %s; %d columns and a row every 0.01 s are due" % (what, got.shape, 2 * len(order)))
            if [float(x) for x in got[0]] != [float(x) for x in q0] + [0.0] * len(q0):
                ctx.violate("first-row", "%s starts with %s" % (what, got[0].tolist()))
            M = Motion(ref, m, [q0[order.index(x)] for x in ref.dofs], len(got))
            perm = [order.index(x) for x in ref.dofs]
            perm = perm + [len(order) + x for x in perm]
            for i in range(min(len(got), len(M.y))):
                if M.tol[i] > 0.05:
                    break
                dist = float(np.abs(got[i][perm] - M.y[i]).max())
                if not dist <= M.tol[i]:
                    ctx.violate("motion", "%s: at %g s the coordinates %s are %s, the motion is %s" % (what, i * 0.01, ref.dofs, got[i][perm].tolist(), M.y[i].tolist()))
                ctx.count("rows judged")
            judged += 1
            if fired or op.get("limit"):
                ctx.count("complete result in spite of a fault")
            ctx.log(np.round(got[-1], 4).tolist())
    if judged > 1:
        ctx.nontrivial()
    ctx.state(trail, [(o["job"]["mode"], o["name"]) for o in plan["ops"]])


def simplify_plan(plan):
    for i, op in enumerate(plan["ops"]):
        def wo(**kw):
            return dict(plan, ops=plan["ops"][:i] + [dict(op, **kw)] + plan["ops"][i + 1:])
        if op.get("faults") and len(op["faults"]) > 1:
            for f in op["faults"]:
                yield wo(faults=[f])
        if op.get("text"):
            yield wo(text=False)
        if op.get("t", 0) > 0.05:
            yield wo(t=0.05)
        if op["job"] != {"mode": "Recursive", "simplify": True, "opt": False}:
            yield wo(job={"mode": "Recursive", "simplify": True, "opt": False})
        if any(op.get("q0", [])):
            yield wo(q0=[0.0] * len(op["q0"]))
        if op["model"]:
            yield wo(model=0)
    for i, m in enumerate(plan["models"]):
        def wm(**kw):
            return dict(plan, models=plan["models"][:i] + [dict(m, **kw)] + plan["models"][i + 1:])
        for k in ("loads", "sensors", "visuals"):
            if m[k] and not (k == "sensors" and m["loads"]):
                yield wm(**{k: []})


def show(plan):
    return "\n".join(["model %d: %s" % x for x in enumerate(plan["models"])] + ["op %d: %s" % x for x in enumerate(plan["ops"])])
