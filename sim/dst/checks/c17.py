from dst import session

PROPERTY = "C17"
LEVEL = "exploration"
QUICK_RUNS = 700
THOROUGH_RUNS = 40000
QUICK_WALL = 75
SHRINK = ["sessions", "preempts"]
RULE = ("one run shows one or two random multibody systems (possibly under the same name) with world.show() on a simulated desktop: a scripted user moves sliders, starts, "
        "stops and restarts the simulation, changes inputs, resets and closes the window at random times, while a seeded scheduler preempts and stalls window and "
        "simulation thread at random lines; every rendered frame is judged against the slider labels or the reference motion at that time; "
        "non-trivial if a frame of a simulation was judged; distinct by the hash of the log")
STATES = "distinct (formalism, sequence of user actions, task switches) tuples"
REAL = ["/repo/pymbs/ui (gui, thread, integrator)", "/repo/pymbs (input, transformation, processing)", "/repo/symbolics built from the working tree", "the generated Python programs",
        "scipy's lsoda", "VTK data model (actors, matrices, renderer)"]
STUB = ["PySide6: simulated desktop over virtual time (sim/dst/simui.py)", "VTK render window: a frame is a snapshot of the actors' matrices", "threading and time: cooperative tasks over a virtual clock"]
CPU_LIMIT = 60
TIMEOUT = 90
warm = session.warm
MS = session.MS


def make_script(r, m, n, long=True):
    """[dt in ms, op, args]"""
    dofs = ["q_%s_%s" % (b["joint"], d) for b in m["bodies"] for d in b["dofs"]]
    ins = [x[0] for x in m["inputs"] if not x[1]]
    out = []
    running = False
    for _ in range(n):
        dt = r.choice([0, 3, 10, 16, 40, 90, 200, 450] if not running else [0, 5, 10, 25, 60, 150, 400, 700])
        k = r.random()
        if k < 0.35:
            out.append([dt, "sim"])
            running = not running
        elif k < 0.6:
            out.append([dt, "move", r.choice(dofs), round(r.random(), 3)])
            for _ in range(r.choice([0, 0, 1, 3])):
                out.append([r.choice([0, 2, 8, 20]), "move", out[-1][2], round(r.random(), 3)])
        elif k < 0.72 and ins:
            out.append([dt, "move", r.choice(ins), round(r.random(), 3)])
        elif k < 0.85:
            out.append([dt, "reset"])
        else:
            out.append([dt, "wait"])
    out.append([r.choice([0, 5, 60, 300]), "close"])
    return out


def make_plan(seed, tier):
    from dst import simsched
    from dst.core import rng
    r = rng("c17", seed)
    ses = []
    for k in range(r.choice([1, 1, 1, 2])):
        m = session.gen_model(r)
        if k and r.random() < 0.5:      # the same system with another number in it: same size of the files
            import copy
            m = copy.deepcopy(ses[0]["model"])
            b = r.choice(m["bodies"])
            b["mass"] = b["mass"] if isinstance(b["mass"], list) else round(b["mass"] + 1, 3)
            if m["params"]:
                p = r.choice(sorted(m["params"]))
                m["params"][p] = round(abs(m["params"][p]) + 1.5, 3)
        opts = {}
        if r.random() < 0.3:
            opts["qRotRange"] = r.choice([[-1.5, 1.5], [0, 3.14], [-3, 2]])
        if r.random() < 0.3:
            opts["qTransRange"] = r.choice([[-1, 1], [-2, 5], [-0.5, 0.5]])
        ses.append({"model": m, "name": r.choice(["m", "m", "other"]), "options": opts, "script": make_script(r, m, r.choice([1, 2, 4, 6])),
                    "job": {"mode": r.choice(["Recursive", "Explicit", "OrderN"]), "simplify": r.random() < 0.6, "opt": r.random() < 0.5}})
    return {"seed": seed, "sessions": ses, "order": [r.randrange(3) for _ in range(5)],
            "preempts": simsched.gen_preempts(r, 40000, r.choice([40, 150, 600]), r.choice([0, 0.2, 0.5])) if r.random() < 0.75 else []}


class Reference:
    """the motion of the system from rest, and the configuration of the actors"""

    def __init__(self, ctx, m, job, d):
        import contextlib, io
        from dst import mbs, eqprog
        self.m = m
        self.ref = mbs.Ref(m)
        self.mode = {"Recursive": "OrderN", "OrderN": "Recursive", "Explicit": "Recursive"}[job["mode"]]
        with contextlib.redirect_stdout(io.StringIO()):
            w = mbs.World(m)
            self.order = w.generate({"mode": self.mode})
            w.w.genCode.Python("mod", d)
        self.T = eqprog.PyTarget(d, "mod", {n: {"sh": (k,) if k else ()} for n, k in m["inputs"]})
        self.T.load("der_state")

    def f(self, u):
        u = {n: (u.get(n, [0.0] * max(1, k))) for n, k in self.m["inputs"]}
        fn = self.T.load("der_state")["mod_der_state"]

        def rhs(t, y):
            import numpy as np
            return np.asarray(fn(t, y), dtype=float).reshape(-1)

        return rhs, u

    def motion(self, q0, schedule, end, loose=False):
        """states at multiples of 0.01 s; schedule: [(time, inputs)] with the first at 0"""
        import numpy as np
        from scipy.integrate import ode
        y = np.array([q0[n] for n in self.order] + [0.0] * len(self.order))
        out = [y]
        k = 0
        N = int(round(end / 0.01)) + 1
        i = 0
        o = None
        while k < N:
            if o is None or (i + 1 < len(schedule) and schedule[i + 1][0] <= k * 0.01 + 1e-9):
                while o is not None and i + 1 < len(schedule) and schedule[i + 1][0] <= k * 0.01 + 1e-9:
                    i += 1
                rhs, u = self.f(schedule[i][1])
                self.T.set_inputs(u)
                if o is None or not loose:
                    o = ode(rhs)
                    if loose:
                        o.set_integrator("lsoda", rtol=1e-3, atol=1e-6)
                    else:
                        o.set_integrator("lsoda", rtol=1e-9, atol=1e-10, nsteps=5000)
                    o.set_initial_value(out[-1], k * 0.01)
            out.append(np.array(o.integrate((k + 1) * 0.01)))
            k += 1
            if not np.all(np.isfinite(out[-1])) or np.abs(out[-1]).max() > 1e3:
                break
        return out

    def pose(self, y):
        return session.poses(self.ref, self.m, dict(zip(self.order, [float(x) for x in y])))


def regular(m):
    """a state from which simulation makes sense"""
    from dst import mbs
    import numpy as np
    ref = mbs.Ref(m)
    if not ref.valid() or not ref.dofs:
        return None
    return ref


def execute(plan, ctx):
    import os
    from dst import mbs, simsched, simui
    with session.workdir() as (d, tmp, cwd):
        se = session.Session(ctx, plan["preempts"], plan["order"])
        for k, s in enumerate(plan["sessions"]):
            ctx.step = k
            if not regular(s["model"]):
                continue
            run_session(ctx, se, s, os.path.join(d, "ref%d" % k))
        se.S.finish()


def run_session(ctx, se, s, refdir, extra=None):
    import contextlib, io
    from dst import mbs, simsched, simui
    S, m = se.S, s["model"]
    D = se.D = simui.Desktop(ctx)
    ref = mbs.Ref(m)
    dofs = set(ref.dofs)
    starts = dict(zip(ref.dofs, [x for b in m["bodies"] for x in b["q0"]]))
    ins = {x[0] for x in m["inputs"] if not x[1]}
    with contextlib.redirect_stdout(io.StringIO()):
        W = mbs.World(m)
        W.generate(s["job"])
    opts = dict({"qTransRange": [-3, 3], "qRotRange": [-3.14, 3.14]}, **s["options"])
    ev = []           # (time, kind, {label: value}, stalled so far)
    state = {"sim": False}

    def labels():
        return {n: simui.shown(n) for n in simui.sliders() if n in dofs or n in ins}

    def note(kind):
        ev.append((S.now, kind, labels(), S.stalled))

    def act(op):
        def go():
            k = op[1]
            if k == "move":
                before = S.stalled
                simui.move(op[2], op[3])
                if op[2] in simui.sliders():
                    lo, hi = (-5, 5) if op[2] in ins else opts["qTransRange" if op[2].rsplit("_", 1)[1][0] == "T" else "qRotRange"]
                    want = lo + op[3] * (hi - lo)
                    if lo <= starts.get(op[2], lo) <= hi and abs(simui.shown(op[2]) - want) > 0.006 + 0.0006 * (hi - lo):
                        ctx.violate("label", "the slider of %s stands at %g of its way from %g to %g, its label shows %s" % (op[2], op[3], lo, hi, simui.shown(op[2])))
                note("move")
            elif k == "sim":
                simui.click("Simulate")
                state["sim"] = not state["sim"]
                note("start" if state["sim"] else "stop")
            elif k == "reset":
                simui.click("Reset")
                note("reset")
            elif k == "close":
                note("close")
                simui.UI.of(simui.MainWindow)[-1].close()
        return go

    t = 0
    for op in s["script"]:
        t += op[0]
        D.actions.append((t * MS, act(op)))
    D.on_frame = None
    first = []
    D.actions.insert(0, (0, lambda: first.append((S.now, "open", labels(), S.stalled))))
    stall0 = []
    orig = D.frames
    D.on_frame = lambda f: stall0.append(S.stalled)
    err = se.show(W.w, s["name"], s["options"])
    ev = first + ev
    if err:
        ctx.violate("show:%s" % err[0], "show() fails: %s (%s)" % (err[1], err[2]))
    if D.errors:
        e = D.errors[0]
        ctx.violate("slot:%s@%s" % (e[0], e[2][-1] if e[2] else "?"), "%s: %s in %s after %s" % (e[0], e[1], e[2], [x[1] for x in ev]))
    for name, ex in S.errors():
        if type(ex).__name__ == "LinAlgError":       # the motion came to a singular position
            ctx.count("motion became singular")
            return
        ctx.violate("thread:%s" % type(ex).__name__, "the simulation thread died from %s: %s" % (type(ex).__name__, ex))
    closed = S.now
    if S.alive():
        S.sleep(500 * MS)
        if S.alive():
            ctx.violate("not-ended", "the window was closed, its thread still runs; actions %s" % [x[1] for x in ev])
    if len(ev) < 2:
        ctx.violate("session", "the window ended after %s" % [x[1] for x in ev])
    ctx.log([(x[0] // 1000, x[1]) for x in ev])
    ctx.state(s["job"]["mode"], [x[1] for x in ev], min(S.switches, 40))
    judge(ctx, s, ev, [(t, session.parse(f, m), st) for (t, f), st in zip(D.frames, stall0)], Reference(ctx, m, s["job"], refdir))
    ctx.count("frames", len(D.frames))


def judge(ctx, s, ev, frames, R):
    import numpy as np
    m = s["model"]
    dofs = R.ref.dofs
    starts = dict(zip(dofs, [x for b in m["bodies"] for x in b["q0"]]))
    for n in dofs:
        res = 0.0011 if "_T" in n else 0.011
        if abs(ev[0][2].get(n, 99) - starts[n]) > res:
            ctx.violate("initial-label", "the window opens with %s at %s, its start value is %s" % (n, ev[0][2].get(n), starts[n]))
    # segments: (begin, end, kind, labels, stalls)
    seg = []
    kind = "kin"
    q = ev[0][2]
    seg.append([ev[0][0], None, "kin", ev[0][2], ev[0][3], []])
    init = ev[0][2]
    for t, k, lab, st in ev[1:]:
        if k == "reset":
            for n in list(lab):
                res = 0.0011 if "_T" in n else 0.011
                if abs(lab[n] - init[n]) > res:
                    ctx.violate("reset-label", "after Reset %s is at %s, the window opened with %s" % (n, lab[n], init[n]))
        if seg[-1][2] == "sim":
            if k == "stop" or k == "close":
                seg.append([t, None, "stopped", lab, st, []])
            else:
                seg[-1][5].append((t, lab, st))
                continue
        elif k == "start":
            seg.append([t, None, "sim", lab, st, []])
        elif k in ("move", "reset"):
            if all(lab[n] == seg[-1][3].get(n) for n in dofs) and k == "move":
                continue           # nothing moved, or an input
            seg.append([t, None, "kin", lab, st, []])
        else:
            continue
        seg[-2][1] = t
    seg[-1][1] = max(t, ev[-1][0]) if seg[-1][1] is None else seg[-1][1]
    last = None          # pose the previous segment ended with
    fi = 0
    held = None
    judged = 0
    before = []
    for si, (a, b, kind, lab, st0, inner) in enumerate(seg):
        mine = []
        while fi < len(frames) and (frames[fi][0] < b or si == len(seg) - 1):
            if frames[fi][0] >= a or si == 0:
                mine.append(frames[fi])
            fi += 1
        stall_end = mine[-1][2] if mine else st0
        nxt = [x[3] for x in ev if x[0] >= b]
        stall = max(stall_end, nxt[0] if nxt else stall_end) - st0
        settle = 40 * MS + stall
        if kind == "kin":
            want = R.pose([lab[n] for n in R.order])
            last = mine[-1][1] if mine else last
            for t, p, _ in mine:
                ctx.log("frame", t // 1000, [np.round(x[0], 5).tolist() for x in p])
                if t > a + settle and session.dist(p, want) > 0.012 * reach(m):
                    ctx.violate("scene", "%.3f s after the sliders were set to %s the scene shows %s, not %s" % ((t - a) / 1e9, lab, fmt(p), fmt(want)))
                judged += 1
            if b - a > settle:
                if last is None or session.dist(last, want) > 0.012 * reach(m):
                    ctx.violate("scene-lost", "the sliders stand at %s for %.3f s, the scene still shows %s, not %s" % (lab, (b - a) / 1e9, fmt(last), fmt(want)))
            held = None
        elif kind == "sim":
            T = Motion(R, a, b, lab, inner, stall, m)
            tau = 0.0
            prev = last
            for t, p, fst in mine:
                ctx.log("frame", t // 1000, [np.round(x[0], 4).tolist() for x in p])
                lo, hi = (t - a) / 1e9 - 0.045 - (fst - st0) / 1e9, (t - a) / 1e9 + 0.0201
                got = T.find(p, max(lo, tau - 0.0101, 0), hi)
                if got is None and t <= a + settle:     # what the sliders showed just before
                    old = [R.pose([x[3][n] for n in R.order]) for x in seg[:si] if x[2] == "kin" and x[1] is not None and x[1] >= a - settle]
                    if any(session.dist(p, o) < 1e-9 for o in old + ([prev] if prev is not None else [])):
                        continue
                    if any(x[0].find(p, 0, (x[2] - x[1]) / 1e9 + 0.03) is not None for x in before if x[2] >= a - settle):    # the last step of a run before
                        continue
                if got is None:
                    where = T.find(p, 0, hi + 0.3)
                    ctx.violate("motion-ahead" if where not in (None, "skip") and where > hi else "motion-behind" if where not in (None, "skip") else "motion",
                                "%.3f s after the simulation was started from %s the scene shows %s; the motion is %s%s" % (
                                    (t - a) / 1e9, lab, fmt(p), fmt(T.at(min(hi, max(lo, 0)))), "" if where in (None, "skip") else " (it had this pose at %.3f s)" % where))
                if got == "skip":
                    break
                tau = got
                judged += 1
                ctx.nontrivial()
                ctx.count("simulation frames judged")
            before.append((T, a, b))
            last = mine[-1][1] if mine else last
            if b - a > 60 * MS + stall and not mine and T.moves((b - a) / 1e9):
                ctx.violate("no-frames", "the simulation ran for %.3f s and nothing was drawn" % ((b - a) / 1e9))
        else:
            stop = mine
            final = None
            for t, p, _ in mine:
                if t > a + settle:
                    if final is None:
                        final = last
                    if session.dist(p, final) > 1e-9:
                        ctx.violate("moves-after-stop", "%.3f s after the simulation was stopped the scene changes from %s to %s" % ((t - a) / 1e9, fmt(final), fmt(p)))
                last = p
    ctx.count("frames judged", judged)


class Motion:
    def __init__(self, R, a, b, lab, inner, stall, m):
        import numpy as np
        self.R = R
        D = (b - a) / 1e9
        q0 = {n: lab[n] for n in R.ref.dofs}
        ins = [x[0] for x in m["inputs"] if not x[1]]
        self.ok = True
        sched = [(0.0, {n: [lab[n]] for n in ins})]
        late = list(sched)
        for t, l, st in inner:
            tau = (t - a) / 1e9
            u = {n: [l[n]] for n in ins}
            if u != sched[-1][1]:
                sched.append((max(0.0, int(tau / 0.01) * 0.01 - stall / 1e9), u))
                late.append((tau + 0.03 + stall / 1e9, u))
        end = D + 0.05
        try:
            y = R.motion(q0, sched, end)
            z = R.motion(q0, sched, end, loose=True)
            ws = []
            if len(sched) > 1:      # when exactly an input took effect is not known
                for a, b in ((late, late), (sched, late), (late, sched)):
                    v = [(a, b)[i % 2][i] for i in range(len(sched))]
                    ws.append(R.motion(q0, sorted(v, key=lambda x: x[0]), end))
        except Exception:
            self.ok = False
            y = z = []
            ws = []
        n = min([len(y), len(z)] + [len(w) for w in ws])
        n = min(n, self.regular(y, sched, m))
        self.poses = [R.pose(x[:len(R.order)]) for x in y[:n]]
        self.tol = []
        t = 0.0
        for k in range(n):
            t = max(t, session.dist(self.poses[k], R.pose(z[k][:len(R.order)])) * 4 + sum(2 * session.dist(self.poses[k], R.pose(w[k][:len(R.order)])) for w in ws))
            self.tol.append(1e-3 + t)

    def regular(self, y, sched, m):
        """up to where the equations of motion are regular"""
        from dst import mbs
        k = len(self.R.order)
        for i in list(range(0, len(y), 5)):
            u = [x for x in sched if x[0] <= i * 0.01 + 1e-9][-1][1]
            try:
                q, qd = dict(zip(self.R.order, y[i][:k])), dict(zip(self.R.order, y[i][k:]))
                d = self.R.ref.dofs
                self.R.ref.state(i * 0.01, [float(q[x]) for x in d], [float(qd[x]) for x in d], {n: u.get(n, [0.0] * max(1, s)) for n, s in m["inputs"]})
            except mbs.Undefined:
                return max(0, i - 5)
        return len(y)

    def at(self, tau):
        k = int(round(tau / 0.01))
        return self.poses[min(k, len(self.poses) - 1)] if self.poses else None

    def moves(self, d):
        return self.poses and any(session.dist(self.poses[0], p) > 1e-6 for p in self.poses[:int(d / 0.01)])

    def find(self, p, lo, hi):
        """time in the window at which the motion has this pose; None: at none; 'skip': cannot be judged"""
        import math
        if not self.ok:
            return "skip"
        a, b = int(math.ceil(lo / 0.01 - 1e-6)), int(math.floor(hi / 0.01 + 1e-6))
        for k in range(max(a, 0), b + 1):
            if k >= len(self.poses) or self.tol[k] > 0.05:
                return "skip"
            if session.dist(p, self.poses[k]) <= self.tol[k]:
                return k * 0.01
        return None


def reach(m):
    """how far the resolution of a slider can move something"""
    return 1 + 2 * len(m["bodies"]) + sum(abs(x) for b in m["bodies"] for x in b["q0"])


def fmt(p):
    import numpy as np
    return None if p is None else [np.round(x[0], 4).tolist() for x in p]


def simplify_plan(plan):
    from dst.checks import c09
    for i, s in enumerate(plan["sessions"]):
        def ws(**kw):
            return dict(plan, sessions=plan["sessions"][:i] + [dict(s, **kw)] + plan["sessions"][i + 1:])
        for k in range(len(s["script"]) - 2, -1, -1):
            yield ws(script=s["script"][:k] + s["script"][k + 1:])
        if s["options"]:
            yield ws(options={})
        m = s["model"]
        for k in ("loads", "sensors", "visuals"):
            if m[k] and (k != "visuals" or len(m[k]) > 1) and not (k == "sensors" and m["loads"]):
                yield ws(model=dict(m, **{k: m[k][:1] if k == "visuals" else []}))
        if m["gravity"] != [0, 0, -1]:
            yield ws(model=dict(m, gravity=[0, 0, -1]))
        if s["job"] != {"mode": "Recursive", "simplify": True, "opt": False}:
            yield ws(job={"mode": "Recursive", "simplify": True, "opt": False})


def show(plan):
    out = []
    for s in plan["sessions"]:
        out.append("name %s options %s %s\nscript %s\n%s" % (s["name"], s["options"], s["job"], s["script"], {k: v for k, v in s["model"].items()}))
    return "\n".join(out) + "\npreempts %s order %s" % (plan["preempts"], plan["order"])
