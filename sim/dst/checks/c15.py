PROPERTY = "C15"
LEVEL = "exploration"
QUICK_RUNS = 6000
THOROUGH_RUNS = 400000
QUICK_WALL = 60
SHRINK = ["preempts", "jumps"]
RULE = ("one run lets the real-time loop call a step function over virtual time: constant or irregular model steps, random computing times with stalls, waits that "
        "last too long, a scaling factor, and adjustments of the wall clock in both directions while it runs; the begin of every step is checked against the "
        "time the model and the scaling imply; non-trivial if at least 5 steps were judged; distinct by the hash of the log")
STATES = "distinct (scaling, step pattern, stall, clock adjustment) tuples"
REAL = ["/repo/pymbs/ui/thread.py"]
STUB = ["threading and time: cooperative tasks over a virtual clock", "the function the thread calls: a scripted step"]


def warm():
    from dst.checks import c14
    c14.warm()


def make_plan(seed, tier):
    from dst import simsched
    from dst.core import rng
    r = rng("c15", seed)
    n = r.choice([8, 20, 40])
    kind = r.choice(["constant", "constant", "irregular"])
    dt = r.choice([0.01, 0.02, 0.05])
    steps = [dt if kind == "constant" else r.choice([0.0, 0.001, 0.01, 0.02, 0.1, 0.5]) for _ in range(n)]
    costs = [r.choice([0, 0, 0.0005, 0.002, 0.008]) for _ in range(n)]
    for _ in range(r.choice([0, 0, 1, 2])):
        costs[r.randrange(n)] = r.choice([0.1, 0.4, 2.0])
    total = sum(steps) * 1.2 + sum(costs) + 0.05
    jumps = sorted([round(r.uniform(0, total), 4), r.choice([-3600.0, -5.0, -0.5, 0.5, 5.0, 3600.0, 86400.0 * 365])] for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    return {"seed": seed, "steps": steps, "costs": costs, "scale": r.choice([1, 1, 1, 2, 0.5, 0.1, 10, 0.01, 7.3]), "t0": r.choice([0, 0.01, 12.5]), "jumps": jumps, "kind": kind,
            "late": r.choice([0, 0, 0.0001, 0.003]), "free": r.random() < 0.15, "order": [0], "preempts": simsched.gen_preempts(r, 400, r.choice([5, 30])) if r.random() < 0.3 else []}


def execute(plan, ctx):
    from dst import simsched
    import pymbs.ui.thread as T
    from dst.zygote import REPO
    NS = simsched.NS
    S = simsched.Sched(ctx, plan["preempts"], plan["order"], (REPO + "/pymbs/ui/thread.py",))
    S.late = int(plan["late"] * NS)
    log = []            # (begin, end, model time returned)
    model = [plan["t0"]]
    n = len(plan["steps"])

    def fn():
        k = len(log)
        b = S.now
        if k >= n:
            th.stop()
            return model[0]
        S.sleep(int(plan["costs"][k] * NS))
        if k:
            model[0] += plan["steps"][k]
        log.append((b, S.now, model[0]))
        return model[0]

    th = T.PyMbsThread(fn, realtime=not plan.get("free"))
    th.reinit()
    th.scaling = plan["scale"]
    start = S.now
    th.start()
    horizon = start + int((sum(plan["steps"]) / plan["scale"] + sum(plan["costs"]) + n * (plan["late"] + 0.002) + 1) * NS)
    for at, by in plan["jumps"]:
        at = start + int(at / plan["scale"] * NS)
        if at > S.now and not th._task.done:
            S.sleep(at - S.now)
        S.jump(int(by * NS))
        ctx.count("wall clock adjusted " + ("forward" if by > 0 else "backward"))
    if S.now < horizon:
        S.sleep(horizon - S.now)
    S.finish()
    for name, ex in S.errors():
        ctx.violate("thread:%s" % type(ex).__name__, "the loop dies from %s: %s" % (type(ex).__name__, ex))
    eps = 2e-6 * NS
    sc = plan["scale"]
    for k, (b, e, m) in enumerate(log):
        ctx.log(k, (b - start) // 1000, (e - start) // 1000, round(m, 6))
    for k in range(1, len(log)):
        b = log[k][0]
        if plan.get("free"):
            if b > log[k - 1][1] + eps:
                ctx.violate("waits", "step %d begins %.6f s after the previous one has ended although the thread does not run in real time" % (k, (b - log[k - 1][1]) / NS))
            continue
        m = log[k - 1][2] - log[0][2]          # model time reached before this step, since the first
        due0 = log[0][0] + m / sc * NS         # counting from the begin or from the end of the first step
        due1 = log[0][1] + m / sc * NS
        if b < due0 - eps:
            ctx.violate("early", "step %d begins %.6f s before the model time %.4f (scaling %g) is due; steps %s" % (k, (due0 - b) / NS, m, sc, plan["steps"][:k]))
        free = max(log[k - 1][1], due1)
        if b > free + eps + S.late + plan["late"] * NS:
            ctx.violate("late", "step %d begins %.6f s after it was due: the model had reached %.4f (scaling %g), the previous step had ended" % (k, (b - free) / NS, m, sc))
    if len(log) < n:
        ctx.violate("stalled", "only %d of %d steps were made by the time all were due (%.3f s)" % (len(log), n, (horizon - start) / NS))
    if max(plan["costs"]) >= 0.1:
        ctx.count("stalls")
    if plan["late"]:
        ctx.count("waits that last too long")
    if plan.get("free"):
        ctx.count("runs without real time")
    ctx.state(sc, plan.get("free"), plan["kind"], max(plan["costs"]) >= 0.1, [j[1] for j in plan["jumps"]])
    ctx.nontrivial() if len(log) >= 5 else None


def simplify_plan(plan):
    n = len(plan["steps"])
    for k in (n // 2, n - 1):
        if 2 <= k < n:
            yield dict(plan, steps=plan["steps"][:k], costs=plan["costs"][:k])
    for i in range(n):
        if plan["costs"][i]:
            yield dict(plan, costs=plan["costs"][:i] + [0] + plan["costs"][i + 1:])
    for k, v in (("late", 0), ("scale", 1), ("t0", 0), ("preempts", [])):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def show(plan):
    return "model steps %s\ncomputing times %s\nscaling %s, first time %s, waits last %s too long%s\nwall clock adjustments %s\npreemptions %s" % (
        plan["steps"], plan["costs"], plan["scale"], plan["t0"], plan["late"], ", no real time" if plan.get("free") else "", plan["jumps"], plan["preempts"])
