from dst import session

PROPERTY = "C19"
LEVEL = "exploration"
QUICK_RUNS = 600
THOROUGH_RUNS = 40000
QUICK_WALL = 60
SHRINK = ["sessions", "preempts"]
RULE = ("one run shows a random multibody system on a simulated desktop; a scripted user loads result files (states over time, Dymola and OpenModelica layouts with constants, "
        "aliases and components; also truncated, foreign, missing and malformed ones, and a cancelled dialog), plays, stops, resumes, rewinds, changes the speed, simulates, "
        "moves sliders and closes the window at random times while threads are preempted and stalled; every frame is compared with the file; "
        "non-trivial if a frame of a played file was judged; distinct by the hash of the log")
STATES = "distinct (kind of file, sequence of user actions, task switches) tuples"
REAL = ["/repo/pymbs/ui (gui, matlab_player, thread, integrator)", "/repo/pymbs (input, transformation, processing)", "/repo/symbolics built from the working tree",
        "the generated Python programs", "scipy.io.loadmat"]
STUB = ["PySide6: simulated desktop over virtual time (sim/dst/simui.py)", "VTK render window: a frame is a snapshot of the actors' matrices",
        "threading and time: cooperative tasks over a virtual clock", "the file dialog answers as the plan says"]
CPU_LIMIT = 60
TIMEOUT = 90
warm = session.warm
MS = session.MS


# ------------------------------------------------------------------ result files
def mat4(path, mats):
    """MAT-file level 4: [(name, array or list of strings)]"""
    import struct
    import numpy as np
    with open(path, "wb") as f:
        for name, a in mats:
            if isinstance(a, tuple):        # ('text', [strings], pad): every string is a column
                w = max(len(s) for s in a[1])
                b = b"".join(s.encode().ljust(w, a[2]) for s in a[1])
                f.write(struct.pack("<5i", 51, w, len(a[1]), 0, len(name) + 1) + name.encode() + b"\0" + b)
            else:
                a = np.asarray(a)
                ty, dt = (20, "<i4") if a.dtype.kind == "i" else (0, "<f8")
                f.write(struct.pack("<5i", ty, a.shape[0], a.shape[1], 0, len(name) + 1) + name.encode() + b"\0" + a.astype(dt).tobytes(order="F"))


def times(f):
    import numpy as np
    from dst.core import rng
    r = rng("t", f["seed"])
    n = f["n"]
    if f["grid"] == "even":
        d = [f["dt"]] * (n - 1)
    elif f["grid"] == "uneven":
        d = [f["dt"] * r.choice([0.2, 1, 1, 3, 8]) for _ in range(n - 1)]
    else:                                    # events: samples at the same time
        d = [r.choice([0.0, f["dt"], f["dt"]]) for _ in range(n - 1)]
    return f["t0"] + np.concatenate([[0.0], np.cumsum(d)]) if n > 1 else np.array([f["t0"]])


def rot(axis, a):
    import numpy as np
    c, s = np.cos(a), np.sin(a)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R = np.eye(3)
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = -s, s
    return R


def make_file(f, path, m, order, ref):
    """writes the file, -> {'T': times, 'poses': [...]} or None if it is not one that can be shown"""
    import numpy as np, scipy.io
    from dst.core import rng
    r = rng("f", f["seed"])
    T = times(f)
    n = len(T)
    kind = f["kind"]
    if kind == "missing":
        return None
    if kind == "garbage":
        with open(path, "wb") as fh:
            fh.write(bytes(r.randrange(256) for _ in range(r.choice([0, 3, 200, 4000]))))
        return None
    if kind in ("states", "few", "noT", "ragged"):
        q0 = dict(zip(ref.dofs, [x for b in m["bodies"] for x in b["q0"]]))
        Y = np.array([q0[x] + r.uniform(-0.8, 0.8) * np.sin(r.uniform(0.5, 9) * (T - T[0]) + r.uniform(0, 6)) for x in order])
        nq = len(order)
        if f["more"]:
            Y = np.vstack([Y, np.array([[r.uniform(-9, 9) for _ in T] for _ in range(nq)])])
        d = {"T": T.reshape(1, -1), "Y": Y}
        if kind == "few":
            d["Y"] = Y[:nq - 1]
        elif kind == "noT":
            d = {"t": T.reshape(1, -1), "Y": Y}
        elif kind == "ragged":
            d["Y"] = Y[:, :-1] if n > 1 else np.hstack([Y, Y])
        scipy.io.savemat(path, d, format=r.choice(["4", "5"]))
        out = {"T": T, "poses": [session.poses(ref, m, dict(zip(order, [float(x) for x in Y[:nq, k]]))) for k in range(n)]}
        bad = kind != "states"
    else:
        names, info, d1, d2 = ["time" if f["om"] else "Time"], [[2 if f["om"] and r.random() < 0.5 else 0, 1, 0, -1]], [[T[0], T[-1]]], [T]
        poses = [[] for _ in T]
        vs = []
        for v in m["visuals"]:
            p = np.array([r.uniform(-2, 2) + (r.uniform(-1, 1) * np.sin(r.uniform(1, 9) * T) if r.random() < 0.7 else 0 * T) for _ in range(3)])
            w = r.choice([0, 0, 1, 4])
            ax = r.randrange(3)
            R = np.array([rot((ax + 1) % 3, 0.7) @ rot(ax, 0.3 + w * t) for t in T])
            for k in range(n):
                poses[k].append((p[:, k], R[k]))
            col = r.random() < 0.7
            vs += [("r_%s[%d%s]" % (v["name"], i + 1, ",1" if col else ""), p[i]) for i in range(3)]
            vs += [("T_%s[%d,%d]" % (v["name"], i + 1, j + 1), R[:, i, j]) for i in range(3) for j in range(3)]
        pre = f["prefix"]
        if kind == "foreign":
            vs = [(x.replace("r_", "s_").replace("T_", "S_"), y) for x, y in vs]
        vs = [(pre + x, y) for x, y in vs]
        vs += [("der(%s)" % x, 0 * y + 77.0) for x, y in vs[:4]]
        vs += [(pre + "x" + vs[0][0][len(pre):], 0 * T + 55.0), ("w.q", np.cos(T))]
        if f["shuffle"]:
            r.shuffle(vs)
        for x, y in vs:
            names.append(x)
            if np.all(y == y[0]) and r.random() < 0.7:
                s = r.choice([1, 1, -1])
                have = [k for k in range(1, len(d1)) if d1[k][0] == -y[0]]
                if have and r.random() < 0.7:
                    info.append([1, -(have[0] + 1), 0, 0])
                    continue
                d1.append([s * y[0], s * y[0]])
                info.append([1, s * len(d1), 0, 0])
            else:
                have = [k for k in range(1, len(d2)) if np.array_equal(d2[k], -y)]
                same = [k for k in range(1, len(d2)) if np.array_equal(d2[k], y)]
                if have and r.random() < 0.8:
                    info.append([2, -(have[0] + 1), 0, -1])
                elif same and r.random() < 0.8:
                    info.append([2, same[0] + 1, 0, -1])
                else:
                    s = r.choice([1, 1, -1])
                    d2.append(s * y)
                    info.append([2, s * len(d2), 0, -1])
        pad = b"\0" if f["om"] else b" "
        mat4(path, [("Aclass", ("text", ["Atrajectory", "1.1", "", "binTrans"], pad)), ("name", ("text", names, pad)),
                    ("description", ("text", ["d%d [m]" % k if r.random() < 0.7 or not k else "" for k in range(len(names))], pad)),
                    ("dataInfo", np.array(info).T.astype(int)), ("data_1", np.array(d1)), ("data_2", np.array(d2))])
        out = {"T": T, "poses": poses}
        bad = kind == "foreign"
    if f["cut"] is not None:
        with open(path, "rb") as fh:
            b = fh.read()
        with open(path, "wb") as fh:
            fh.write(b[:int(len(b) * f["cut"])])
        bad = True
    return None if bad else out


def gen_file(r, k):
    kind = r.choice(["states"] * 4 + ["modelica"] * 4 + ["missing", "garbage", "few", "noT", "ragged", "foreign"])
    return {"kind": kind, "seed": r.getrandbits(40), "n": r.choice([1, 2, 5, 20, 60]), "dt": r.choice([0.002, 0.01, 0.02, 0.05, 0.11, 0.25]),
            "grid": r.choice(["even", "even", "uneven", "events"]), "t0": r.choice([0, 0, 0, 1.5, -2]), "more": r.random() < 0.5, "om": r.random() < 0.5,
            "prefix": r.choice(["", "", "m.", "a.b."]), "shuffle": r.random() < 0.5, "cut": r.choice([0.1, 0.5, 0.93]) if r.random() < 0.08 and kind in ("states", "modelica") else None}


def make_script(r, m, files):
    dofs = ["q_%s_%s" % (b["joint"], d) for b in m["bodies"] for d in b["dofs"]]
    out = []
    if r.random() < 0.8:
        out.append([r.choice([0, 5, 40]), "load", 0])
    for _ in range(r.choice([2, 3, 5, 8])):
        dt = r.choice([0, 5, 16, 60, 150, 400, 900])
        k = r.random()
        if k < 0.42:
            out.append([dt, "play"])
        elif k < 0.58:
            out.append([dt, "load", r.choice([None] + list(range(len(files))))])
        elif k < 0.68:
            out.append([dt, "rewind"])
        elif k < 0.77:
            out.append([dt, "scale", r.choice(["1", "2", "0.5", "10", "0.1", ""])])
        elif k < 0.86:
            out.append([dt, "move", r.choice(dofs), round(r.random(), 3)])
        elif k < 0.93:
            out.append([dt, "sim"])
        elif k < 0.96:
            out.append([dt, "reset"])
        else:
            out.append([dt, "track"])
    out.append([r.choice([0, 5, 60, 300, 900]), "close"])
    return out


def make_plan(seed, tier):
    from dst import simsched
    from dst.core import rng
    r = rng("c19", seed)
    m = session.gen_model(r)
    if r.random() < 0.3:
        for v in m["visuals"]:
            v["name"] = v["name"].replace("v1", "v01").replace("v0", "v")       # names that begin like each other
    files = [gen_file(r, k) for k in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.8:
        files[0].update(kind=r.choice(["states", "modelica"]), cut=None)
    return {"seed": seed, "sessions": [{"model": m, "name": "m", "files": files, "script": make_script(r, m, files), "job": {"mode": r.choice(["Recursive", "Explicit", "OrderN"]), "simplify": True, "opt": r.random() < 0.5}}],
            "order": [r.randrange(3) for _ in range(5)],
            "preempts": simsched.gen_preempts(r, 40000, r.choice([40, 150, 600]), r.choice([0, 0.2, 0.5])) if r.random() < 0.75 else []}


def execute(plan, ctx):
    from dst.checks import c17
    with session.workdir() as (d, tmp, cwd):
        se = session.Session(ctx, plan["preempts"], plan["order"])
        for k, s in enumerate(plan["sessions"]):
            ctx.step = k
            if not c17.regular(s["model"]):
                continue
            run_session(ctx, se, s, d)
        se.S.finish()


def run_session(ctx, se, s, d):
    import contextlib, io, os
    from dst import mbs, gen, simui
    S, m = se.S, s["model"]
    D = se.D = simui.Desktop(ctx)
    with contextlib.redirect_stdout(io.StringIO()):
        W = mbs.World(m)
        order = W.generate(s["job"])
    ref = mbs.Ref(m)
    data = os.path.join(d, "data")
    os.mkdir(data)
    files = []
    for k, f in enumerate(s["files"]):
        p = os.path.join(data, "f%d.mat" % k)
        files.append((p, make_file(f, p, m, order, ref)))
        ctx.log("file", f["kind"], f["n"], files[-1][1] is not None)
    before = gen.tree(data)
    ev = []
    allowed = []

    def labels():
        return {n: simui.shown(n) for n in simui.sliders() if n in ref.dofs}

    def btn(text):
        return simui.buttons(text)[0]

    def act(op):
        def go():
            k = op[1]
            a = S.now
            nerr = len(D.errors)
            was = btn("Play Results").isChecked()
            sim = btn("Simulate").isChecked()
            did = True
            if k == "move":
                simui.move(op[2], op[3])
            elif k == "sim":
                simui.click("Simulate")
            elif k == "reset":
                simui.click("Reset")
            elif k == "rewind":
                did = simui.click("Reset", 1)
            elif k == "play":
                did = simui.click("Play Results")
            elif k == "load":
                D.files.append("" if op[2] is None else files[op[2]][0])
                simui.click("Load mat file")
                ctx.count("results: %s" % ("dialog cancelled" if op[2] is None else s["files"][op[2]]["kind"] + (", truncated" if s["files"][op[2]]["cut"] is not None else "")))
                if op[2] is not None and files[op[2]][1] is None:
                    del D.errors[nerr:]
            elif k == "scale":
                simui.UI.of(simui.LineEdit)[0].setText(op[2])
            elif k == "track":
                simui.UI.of(simui.CheckBox)[0].click()
            elif k == "close":
                ev.append({"t": a, "end": a, "op": op, "did": True, "q": labels(), "st": S.stalled, "was": was, "play": was, "simwas": sim, "sim": sim})
                simui.UI.of(simui.MainWindow)[-1].close()
                return
            ev.append({"t": a, "end": S.now, "op": op, "did": bool(did), "q": labels(), "st": S.stalled, "was": was, "play": btn("Play Results").isChecked(),
                       "simwas": sim, "sim": btn("Simulate").isChecked()})
        return go

    t = 0
    for op in s["script"]:
        t += op[0]
        D.actions.append((t * MS, act(op)))
    D.actions.insert(0, (0, lambda: ev.append({"t": S.now, "end": S.now, "op": [0, "open"], "did": True, "q": labels(), "st": S.stalled, "was": False, "play": False, "simwas": False, "sim": False})))
    stalls = []
    D.on_frame = lambda f: stalls.append(S.stalled)
    err = se.show(W.w, s["name"])
    what = [e["op"][1:] for e in ev]
    if err:
        ctx.violate("show:%s" % err[0], "show() fails: %s (%s)" % (err[1], err[2]))
    if D.errors:
        e = D.errors[0]
        ctx.violate("slot:%s@%s" % (e[0], e[2][-1] if e[2] else "?"), "%s: %s in %s after %s" % (e[0], e[1], e[2], what))
    for name, ex in S.errors():
        import traceback
        if not any(f.name == "playResults" for f in traceback.extract_tb(ex.__traceback__)):
            continue          # the simulation came to a singular position
        ctx.violate("thread:%s" % type(ex).__name__, "a thread died from %s: %s after %s" % (type(ex).__name__, ex, what))
    if S.alive():
        S.sleep(500 * MS)
        if S.alive():
            ctx.violate("not-ended", "the window was closed, its thread still runs; actions %s" % what)
    if D.ctx.stats.get("timer started in a wrong thread") or D.ctx.stats.get("timer stopped in a wrong thread"):
        ctx.violate("wrong-thread", "a timer of the window is used by another thread")
    if gen.tree(data) != before:
        ctx.violate("file-changed", "playing results changed a result file")
    ctx.log([(e["t"] // 1000, e["op"][1], e["play"], e["sim"]) for e in ev])
    ctx.state([f["kind"] for f in s["files"]], [e["op"][1] for e in ev], min(S.switches, 40))
    Judge(ctx, s, m, ref, order, ev, files, [(t, session.parse(f, m), st) for (t, f), st in zip(D.frames, stalls)]).run()
    ctx.count("frames", len(D.frames))


class Judge:
    def __init__(self, ctx, s, m, ref, order, ev, files, frames):
        self.ctx, self.s, self.m, self.ref, self.order, self.ev, self.files, self.frames = ctx, s, m, ref, order, ev, files, frames
        self.what = [e["op"][1:] for e in ev]

    def pose(self, q):
        return session.poses(self.ref, self.m, q)

    def bad(self, sig, msg):
        self.ctx.violate(sig, "%s; actions %s" % (msg, self.what))

    def stalled(self, t):
        return max([e["st"] for e in self.ev if e["end"] <= t] + [f[2] for f in self.frames if f[0] <= t] + [self.ev[0]["st"]])

    def run(self):
        ev = self.ev
        if not ev or ev[-1]["op"][1] != "close":
            self.bad("session", "the window ended by itself")
        loaded = None           # index of the file
        starts = {0}            # samples at which playing may go on
        mode = ("kin", ev[0]["q"])
        scale = 1.0
        last = None
        fi = 0
        for i, e in enumerate(ev[:-1]):
            op = e["op"]
            k = op[1]
            fresh = True
            if k == "load" and op[2] is not None and self.files[op[2]][1] is not None:
                loaded = op[2]
                starts = {0}
                if e["play"]:
                    self.bad("play-after-load", "after a file was loaded 'Play Results' is still pressed")
                if not e["sim"]:
                    mode = ("sample", 0)
                else:
                    fresh = False
            elif k == "load":
                fresh = False
            elif k == "play":
                if loaded is None:
                    if e["did"]:
                        self.bad("play-nothing", "'Play Results' can be pressed, no file was loaded")
                    fresh = False
                elif not e["did"]:
                    self.bad("play-disabled", "a file was loaded, 'Play Results' is disabled")
                elif e["play"]:
                    if e["sim"]:
                        self.bad("both", "results are played while the simulation runs")
                    mode = ("play", sorted(starts), scale)
                elif e["was"]:
                    mode = ("frozen",)
                else:
                    if scale is not None:
                        self.bad("play-refused", "'Play Results' was pressed and is not")
                    if e["simwas"]:       # the simulation was stopped
                        mode = ("any",)
                    else:
                        fresh = False
            elif k == "rewind":
                if loaded is None:
                    if e["did"]:
                        self.bad("rewind-nothing", "results can be reset, no file was loaded")
                    fresh = False
                else:
                    starts = {0}
                    if e["was"] and scale is not None:
                        if not e["play"]:
                            self.bad("rewind-stops", "playing results ends with 'Reset'")
                        mode = ("play", [0], scale)
                    elif e["sim"]:
                        fresh = False
                    else:
                        mode = ("sample", 0)
            elif k == "sim":
                if e["sim"]:
                    if e["play"]:
                        self.bad("both", "results are played while the simulation runs")
                    if e["was"]:
                        starts = {0}
                mode = ("any",)
            elif k in ("move", "reset"):
                if e["play"] or e["sim"] or (k == "move" and i and e["q"] == ev[i - 1]["q"]):
                    fresh = False
                else:
                    mode = ("kin", e["q"])
            elif k == "scale":
                scale = float(op[2]) if op[2] else None
                fresh = False
            else:
                fresh = k == "open"
            if fresh:
                self.begin = e["t"]
                self.st0 = self.stalled(e["t"] - 45 * MS)      # a stall may have begun before
                self.prev = last
                self.before = self.seg[0] if i else None
                self.seg = mode
                self.got = []
            # frames until the next action
            b = ev[i + 1]["t"]
            stall = ev[i + 1]["st"] - self.st0
            while fi < len(self.frames) and self.frames[fi][0] <= b:
                t, p, st = self.frames[fi]
                if t == b and i + 2 < len(ev) and ev[i + 1]["t"] == b:
                    break
                fi += 1
                self.got.append((t, p, st - self.st0))
                last = p
            self.last = last
            r = self.judge(mode, b, stall, loaded, ev[i + 1]["was"])
            if r is not None:
                starts = r

    def judge(self, mode, b, stall, loaded, pressed):
        ctx = self.ctx
        a = self.begin
        settle = 20 * MS + stall * 1 + 1000000
        for t, p, st in self.got:
            ctx.log("frame", t // 1000, [x[0].round(4).tolist() for x in p])
        if mode[0] == "any":
            return None
        if mode[0] == "frozen":
            for t, p, st in self.got:
                if t > a + settle and session.dist(p, self.got[0][1] if self.got[0][0] <= a + settle else self.prev) > 1e-9:
                    self.bad("moves-after-stop", "%.3f s after playing was stopped the scene changes to %s" % ((t - a) / 1e9, fmt(p)))
            return None
        if mode[0] in ("kin", "sample"):
            want = self.pose(mode[1]) if mode[0] == "kin" else self.files[loaded][1]["poses"][mode[1]]
            tol = 0.012 * (1 + 2 * len(self.m["bodies"]) + sum(abs(x) for x in mode[1].values())) if mode[0] == "kin" else 1e-9
            what = "the sliders stand at %s" % mode[1] if mode[0] == "kin" else "the results were loaded or reset"
            for t, p, st in self.got:
                if t > a + settle and session.dist(p, want) > tol:
                    self.bad("scene:" + mode[0], "%s, %.3f s later the scene shows %s, not %s" % (what, (t - a) / 1e9, fmt(p), fmt(want)))
            if b > a + settle and (self.last is None or session.dist(self.last, want) > tol):
                self.bad("scene-lost:" + mode[0], "%s %.3f s ago, the scene still shows %s, not %s" % (what, (b - a) / 1e9, fmt(self.last), fmt(want)))
            return None
        # playing
        F = self.files[loaded][1]
        T, P, scale = F["T"], F["poses"], mode[2]
        n = len(T)
        problems, out = [], set()
        for s0 in mode[1]:
            e = self.explain(F, s0, scale, a, b, stall, pressed)
            if isinstance(e, str):
                problems.append((s0, e))
            else:
                out |= e
        if not out:
            s0, e = problems[0]
            self.bad("play:" + e.split("|")[0], "a file with samples at %s%s is played from sample %s at speed %s: %s" % (T[:12].tolist(), " ..." if n > 12 else "", [x[0] for x in problems], scale, e.split("|")[1]))
        ctx.nontrivial()
        ctx.count("frames of results judged", len(self.got))
        return out

    def explain(self, F, s0, scale, a, b, stall, pressed):
        """the frames of this segment if playing went on from sample s0: a complaint, or the samples at which it may go on later"""
        T, P = F["T"], F["poses"]
        n = len(T)
        seq = [s0]
        while seq[-1] < n - 1:
            j = seq[-1]
            t = T[j]
            while j < n - 1 and T[j] < t + 0.02:
                j += 1
            seq.append(j)
        due = [(T[j] - T[s0]) / scale for j in seq]       # seconds after the beginning
        eps = 1e-6
        end = due[-1]                                     # then it starts over again
        lag = 0.0205

        def ok(t, p, st):
            x = (t - a) / 1e9
            y = x - lag - st / 1e9
            for i, j in enumerate(seq):
                if due[i] <= x + eps and (i + 1 == len(seq) or due[i + 1] >= y) and session.dist(p, P[j]) <= 1e-9:
                    if i + 1 < len(seq) or y <= end:
                        return True
            if x >= end - eps and session.dist(p, P[0]) <= 1e-9:
                return True
            if y <= 0:         # something that was to be drawn before
                return self.before in ("any", "play", "frozen") or self.prev is not None and session.dist(p, self.prev) <= 1e-9 or all(session.dist(p, o) > 1e-9 for o in P)
            return False

        for t, p, st in self.got:
            if not ok(t, p, st):
                k = [i for i in range(n) if session.dist(p, P[i]) <= 1e-9]
                return "%s|%.4f s later the scene shows %s, which is %s; due is sample %s" % (
                    "ahead" if k and T[k[0]] - T[s0] > (t - a) / 1e9 * scale else "behind" if k else "other",
                    (t - a) / 1e9, fmt(p), "sample %s" % k if k else "no sample", [j for i, j in enumerate(seq) if due[i] <= (t - a) / 1e9][-1])
        if b > a + lag * 1e9 + stall + 1000000 and (self.last is None or not ok(b, self.last, stall)):
            return "stuck|%.3f s later the scene still shows %s" % ((b - a) / 1e9, fmt(self.last))
        x = (b - a) / 1e9
        y = x - lag - stall / 1e9
        if pressed and y > end + 0.001:
            return "not-finished|%.3f s later, %.3f s after the last sample, 'Play Results' is still pressed" % (x, x - end)
        if not pressed and x < end - eps:
            return "early-end|%.3f s later, %.3f s before the last sample is due, 'Play Results' is not pressed any more" % (x, end - x)
        out = set()
        if not pressed:
            return {0}
        for i, j in enumerate(seq):
            if (i == 0 or due[i - 1] <= x + eps) and (i + 1 == len(seq) or due[i + 1] >= y - 0.0005):
                out.add(j)
        return out


def fmt(p):
    import numpy as np
    return None if p is None else [np.round(x[0], 4).tolist() + np.round(x[1], 3).reshape(-1).tolist() for x in p]


def simplify_plan(plan):
    from dst.checks import c17
    for p in c17.simplify_plan(dict(plan, sessions=[dict(s, options={}) for s in plan["sessions"]])):
        yield p
    s = plan["sessions"][0]
    for i, f in enumerate(s["files"]):
        for kw in ({"n": 2}, {"n": 5}, {"grid": "even"}, {"t0": 0}, {"more": False}, {"prefix": ""}, {"shuffle": False}, {"om": False}):
            if any(f[k] != v for k, v in kw.items()):
                yield dict(plan, sessions=[dict(s, files=s["files"][:i] + [dict(f, **kw)] + s["files"][i + 1:])])


def show(plan):
    from dst.checks import c17
    return c17.show(dict(plan, sessions=[dict(s, options={}) for s in plan["sessions"]])) + "\n%s" % plan["sessions"][0]["files"]
