from dst import session

PROPERTY = "C18"
LEVEL = "exploration"
QUICK_RUNS = 700
THOROUGH_RUNS = 40000
QUICK_WALL = 60
SHRINK = ["sessions", "preempts"]
RULE = ("one run shows one or two random multibody systems on a simulated desktop; a scripted user moves sliders, simulates, and starts and stops recordings at random "
        "times (also shorter than a sampling step, twice within a second, or by closing the window), while threads are preempted and stalled, the wall clock is "
        "adjusted and the disk fails while a recording is saved; every file of every recording is compared with the frames that were on the screen; "
        "non-trivial if a recording with samples was judged; distinct by the hash of the log")
STATES = "distinct (formalism, sequence of user actions, samples per recording, delivered faults, task switches) tuples"
REAL = ["/repo/pymbs/ui (gui, pi_recorder, thread, integrator)", "/repo/pymbs (input, transformation, processing)", "/repo/symbolics built from the working tree",
        "the generated Python programs", "numpy's savetxt and the files it writes"]
STUB = ["PySide6: simulated desktop over virtual time (sim/dst/simui.py)", "VTK render window: a frame is a snapshot of the actors' matrices",
        "threading and time: cooperative tasks over a virtual clock; the wall clock of the C library follows it", "disk errors: open, mkdir, write, close fail as planned"]
CPU_LIMIT = 60
TIMEOUT = 90
warm = session.warm
MS = session.MS


def make_script(r, m):
    """[dt in ms, op, args]"""
    dofs = ["q_%s_%s" % (b["joint"], d) for b in m["bodies"] for d in b["dofs"]]
    out = []
    for _ in range(r.choice([2, 3, 5, 8])):
        dt = r.choice([0, 3, 10, 16, 40, 90, 200, 450])
        k = r.random()
        if k < 0.5:
            f = None
            if r.random() < 0.25:
                op = r.choice([0, 1, 1, 2, 3])
                kind = r.choice([1, 1, 1, 2, 3]) if op == 1 else 1
                f = {"op": op, "at": r.choice([1, 1, 1, 2, 3]), "kind": kind, "err": r.choice(["ENOSPC", "EIO", "EACCES"] if op in (0, 3) else ["ENOSPC", "EIO"]), "arg": r.randrange(1000), "sticky": int(r.random() < 0.3 and kind != 3)}
            out.append([dt, "rec", f])
        elif k < 0.65:
            out.append([dt, "sim"])
        elif k < 0.88:
            out.append([dt, "move", r.choice(dofs), round(r.random(), 3)])
        elif k < 0.94:
            out.append([dt, "reset"])
        else:
            out.append([dt, "jump", r.choice([-3600, -2, -0.7, 0.4, 30, 86400])])
    out.append([r.choice([0, 5, 60, 300]), "close"])
    return out


def make_plan(seed, tier):
    from dst import simsched
    from dst.core import rng
    r = rng("c18", seed)
    ses = []
    for k in range(r.choice([1, 1, 1, 2])):
        m = session.gen_model(r)
        if r.random() < 0.15:
            m["visuals"][-1]["name"] = "state"
        ses.append({"model": m, "name": r.choice(["m", "m", "other"]), "script": make_script(r, m),
                    "job": {"mode": r.choice(["Recursive", "Explicit", "OrderN"]), "simplify": r.random() < 0.6, "opt": r.random() < 0.5}})
    return {"seed": seed, "sessions": ses, "order": [r.randrange(3) for _ in range(5)],
            "preempts": simsched.gen_preempts(r, 40000, r.choice([40, 150, 600]), r.choice([0, 0.2, 0.5])) if r.random() < 0.75 else []}


def execute(plan, ctx):
    from dst.checks import c17
    with session.workdir() as (d, tmp, cwd):
        se = session.Session(ctx, plan["preempts"], plan["order"])
        for k, s in enumerate(plan["sessions"]):
            ctx.step = k
            if not c17.regular(s["model"]):
                continue
            run_session(ctx, se, s, cwd)
        se.S.finish()


def tree(cwd):
    from dst import gen
    return {p: v for p, v in gen.tree(cwd).items() if p.startswith("pi_record")}


def run_session(ctx, se, s, cwd):
    import contextlib, io
    from dst import mbs, gen, simui
    S, m = se.S, s["model"]
    D = se.D = simui.Desktop(ctx)
    with contextlib.redirect_stdout(io.StringIO()):
        W = mbs.World(m)
        order = W.generate(s["job"])
    ref = mbs.Ref(m)
    ev, recs = [], []
    cur = []
    lib = ctx.shim.lib

    def save(go, fault):
        """an action that ends a recording"""
        before = tree(cwd)
        nerr = len(D.errors)
        said = len(se.out.getvalue())
        b = S.now
        if fault:
            lib.shim_disk_init(cwd.encode(), -1)
            lib.shim_disk_fault(fault["at"], fault["op"], fault["kind"], gen.ERRNO[fault["err"]], fault["arg"], fault["sticky"])
        try:
            go()
        finally:
            fired = 0
            if fault:
                fired = lib.shim_disk_fired(0)
                lib.shim_disk_clear()
                lib.shim_disk_on(0)
        a, st = cur.pop()
        if fired:
            ctx.count("disk fault delivered: %s %s" % (gen.KINDS[fault["kind"]], gen.NAMES[fault["op"]]))
        recs.append({"a": a, "b": b, "stall": S.stalled - st, "before": before, "after": tree(cwd), "errors": D.errors[nerr:], "saved": "saved" in se.out.getvalue()[said:],
                     "fault": fault if fired else None})
        del D.errors[nerr:]

    def act(op):
        def go():
            k = op[1]
            ev.append((S.now, k))
            if k == "move":
                simui.move(op[2], op[3])
            elif k == "sim":
                simui.click("Simulate")
            elif k == "reset":
                simui.click("Reset")
            elif k == "jump":
                S.jump(int(op[2] * 1e9))
                ctx.count("wall clock adjusted")
            elif k == "rec":
                if cur:
                    save(lambda: simui.click("Stop"), op[2])
                else:
                    cur.append((S.now, S.stalled))
                    if not simui.click("Record"):
                        ctx.violate("no-record", "there is no way to start a recording: the buttons are %s" % [b.text() for b in simui.UI.of(simui.Button)])
            elif k == "close":
                w = simui.UI.of(simui.MainWindow)[-1]
                if cur:
                    save(w.close, None)
                else:
                    w.close()
        return go

    t = 0
    for op in s["script"]:
        t += op[0]
        D.actions.append((t * MS, act(op)))
    stalls = []
    D.on_frame = lambda f: stalls.append(S.stalled)
    err = se.show(W.w, s["name"])
    if err:
        ctx.violate("show:%s" % err[0], "show() fails: %s (%s)" % (err[1], err[2]))
    if D.errors:
        e = D.errors[0]
        ctx.violate("slot:%s@%s" % (e[0], e[2][-1] if e[2] else "?"), "%s: %s in %s after %s" % (e[0], e[1], e[2], [x[1] for x in ev]))
    if S.alive():
        S.sleep(500 * MS)
    n = [x.next for x in D.timers if x.next is not None and x._interval == 40]
    frames = [(t, session.parse(f, m)) for t, f in D.frames]
    for i, x in enumerate(recs):
        judge(ctx, s, m, ref, order, x, frames, [y[1] for y in ev])
    ctx.log([(x[0] // 1000, x[1]) for x in ev])
    ctx.state(s["job"]["mode"], [x[1] for x in ev], [x.get("n") for x in recs], [x["fault"] and (x["fault"]["op"], x["fault"]["at"]) for x in recs], min(S.switches, 40))
    ctx.count("frames", len(D.frames))


def read(data):
    return [[float(x) for x in l.split(";")] for l in data.decode().splitlines()]


def judge(ctx, s, m, ref, order, x, frames, what):
    import numpy as np
    what = "%s, recording of %.3f s" % (what, (x["b"] - x["a"]) / 1e9)
    changed = [p for p in x["before"] if x["after"].get(p, 0) != x["before"][p]]
    if changed:
        ctx.violate("overwritten", "saving a recording changed files of another one: %s (%s)" % (changed, what))
    f = x["fault"]
    if x["errors"]:
        e = x["errors"][0]
        if not f or f["kind"] in (2, 3):
            ctx.violate("save:%s@%s" % (e[0], e[2][-1] if e[2] else "?"), "saving a recording fails with %s: %s in %s (%s, fault %s)" % (e[0], e[1], e[2], what, f))
        ctx.count("recordings refused by the disk")
        if x["saved"]:
            ctx.violate("claims", "a recording that could not be written is reported as saved (%s, fault %s)" % (what, f))
        return
    new = {p: v for p, v in x["after"].items() if p not in x["before"]}
    dirs = [p for p in new if v_dir(p)]
    if len(dirs) != 1:
        ctx.violate("directories", "a recording was stopped and left %s (%s, fault %s)" % (sorted(new), what, f))
    d = dirs[0]
    files = {p[len(d):]: v for p, v in new.items() if p != d and v is not None}
    names = ["%s.pid" % v["name"] for v in m["visuals"]]
    extra = [n for n in files if n not in names + ["state.txt"]]
    if extra or "state.txt" not in files:
        ctx.violate("files", "a recording of %s consists of %s (%s)" % (names, sorted(files), what))
    try:
        data = {n: read(v) for n, v in files.items()}
    except ValueError as ex:
        ctx.violate("format", "a recording cannot be read: %s (%s)" % (ex, what))
    rows = data["state.txt"]
    x["n"] = len(rows)
    if rows:
        missing = [n for n in names if n not in data]
        if missing:
            ctx.violate("files", "a recording with %d samples has no %s (%s)" % (len(rows), missing, what))
    for n in names:
        if [y[0] for y in data.get(n, [])] != [y[0] for y in rows]:
            ctx.violate("times", "the times in %s are %s, in state.txt %s (%s)" % (n, [y[0] for y in data.get(n, [])][:8], [y[0] for y in rows][:8], what))
    T = [y[0] for y in rows]
    ctx.log("recording", len(rows), T, [[[round(z, 2) for z in y] for y in data[n]] for n in sorted(data)])
    D = (x["b"] - x["a"]) / 1e9
    stall = x["stall"] / 1e9
    first = min([t for t, _ in frames] + [x["b"]])
    begin = max(0.0, (first - x["a"]) / 1e9)
    # regular sampling over the whole recording
    prev = 0.0 if begin <= 0 else None
    for t in T:
        if t < -0.001 or t > D + stall + 0.001:
            ctx.violate("outside", "a recording contains a sample at %g s (%s)" % (t, what))
        if prev is None:
            if t > begin + 0.0415 + stall:
                ctx.violate("gap", "a recording has its first sample at %g s, the first frame was drawn at %g s (%s)" % (t, begin, what))
        elif not (0.0375 - stall <= t - prev <= 0.0425 + stall) or t < prev:
            ctx.violate("gap", "a recording has samples at %s: they should be 40 ms apart (%s, stalled %g s)" % (T, what, stall))
        prev = t
    end = prev if prev is not None else begin
    if D - end > 0.0415 + stall:
        ctx.violate("end-missing", "a recording of %g s ends at %g s (%s)" % (D, end, what))
    # what was on the screen
    for i, t in enumerate(T):
        at = x["a"] + int(t * 1e9)
        slack = 1100000 + x["stall"]
        old = [p for ft, p in frames if ft <= at - slack][-1:]
        cand = old + [p for ft, p in frames if at - slack < ft <= at + slack]
        row = []
        for n in names:
            v = data[n][i][1:]
            if len(v) != 12:
                ctx.violate("columns", "%s has %d columns, not 13 (%s)" % (n, len(v) + 1, what))
            row.append((np.array(v[:3]), np.array(v[3:]).reshape(3, 3)))
        big = max(float(np.abs(p).max()) + float(np.abs(R).max()) for p, R in row)
        tol = 0.00055 + 1e-6 * big
        if not np.isfinite(big):         # the simulation has left the numbers
            break
        if not any(session.dist(row, c) <= tol for c in cand):
            ctx.violate("sample", "%.3f s after it was started a recording has %s; the screen showed %s (%s)" % (t, fmt(row), [fmt(c) for c in cand[-2:]], what))
        if len(rows[i]) != len(order) + 1:
            ctx.violate("columns", "state.txt has %d columns, the system %d coordinates (%s)" % (len(rows[i]), len(order), what))
        q = dict(zip(order, rows[i][1:]))
        want = session.poses(ref, m, q)
        if session.dist(row, want) > 0.0012 * reach(m, q):
            ctx.violate("state", "%.3f s after it was started a recording has the state %s and %s, which are at %s then (%s)" % (t, q, fmt(row), fmt(want), what))
        ctx.nontrivial()
    ctx.count("samples judged", len(T))
    ctx.count("recordings judged")


def v_dir(p):
    return p.endswith("/") and p.count("/") == 1


def reach(m, q):
    return 1 + len(q) * (1 + 2 * len(m["bodies"]) + sum(abs(x) for x in q.values()))


def fmt(p):
    import numpy as np
    return [np.round(x[0], 4).tolist() + np.round(x[1], 3).reshape(-1).tolist() for x in p]


def simplify_plan(plan):
    from dst.checks import c17
    for p in c17.simplify_plan(dict(plan, sessions=[dict(s, options={}) for s in plan["sessions"]])):
        yield p


def show(plan):
    from dst.checks import c17
    return c17.show(dict(plan, sessions=[dict(s, options={}) for s in plan["sessions"]]))
