PROPERTY = "C14"
LEVEL = "exploration"
QUICK_RUNS = 6000
THOROUGH_RUNS = 400000
QUICK_WALL = 60
SHRINK = ["ops", "preempts"]
RULE = ("one run drives one background thread of the user interface through random sequences of start, stop, reinit+start and waits, with steps of random cost "
        "that may stall, fail or stop the thread themselves; a seeded scheduler decides every interleaving at line granularity over virtual time; "
        "non-trivial if the thread ran and was stopped or restarted; distinct by the hash of the log")
STATES = "distinct (operation kinds, realtime, sequence of task switches) tuples"
REAL = ["/repo/pymbs/ui/thread.py"]
STUB = ["threading and time: cooperative tasks over a virtual clock", "the function the thread calls: a scripted step"]


def warm():
    from dst import simsched
    with simsched.imported_with(simsched.fake_modules()):
        import pymbs.ui.thread


def make_plan(seed, tier):
    from dst import simsched
    from dst.core import rng
    r = rng("c14", seed)
    ops = []
    for _ in range(r.choice([2, 3, 4, 6, 8])):
        k = r.random()
        ops.append(["restart"] if k < 0.35 else ["stop"] if k < 0.7 else ["wait", r.choice([0, 0.001, 0.005, 0.02, 0.1, 0.5])] if k < 0.95 else ["join"])
    # an endless animation thread is never joined by its user without a stop
    ops = [o for i, o in enumerate(ops) if o[0] != "join" or (i and ops[i - 1][0] == "stop")]
    costs = [r.choice([0.0005, 0.001, 0.002, 0.005, 0.03]) for _ in range(r.choice([1, 3, 7]))]
    if r.random() < 0.3:
        costs[r.randrange(len(costs))] = r.choice([0.3, 1.0])      # a stall
    return {"seed": seed, "ops": ops, "costs": costs, "dt": r.choice([0, 0.01, 0.01, 0.05, 30]), "realtime": r.random() < 0.6,
            "fail": sorted(r.sample(range(12), r.choice([0, 0, 0, 1, 2]))), "selfstop": sorted(r.sample(range(12), r.choice([0, 0, 0, 1, 2]))),
            "order": [r.randrange(3) for _ in range(7)], "preempts": simsched.gen_preempts(r, 300, r.choice([2, 4, 10, 30])) if r.random() < 0.9 else []}


class Boom(Exception):
    pass


def execute(plan, ctx):
    from dst import simsched
    import pymbs.ui.thread as T
    from dst.zygote import REPO
    S = simsched.Sched(ctx, plan["preempts"], plan["order"], (REPO + "/pymbs/ui/thread.py",))
    calls = []          # [task, begin, end]
    active = []
    bad = []
    t = [0.0]
    stopped = {}        # task -> calls that may still begin
    NSEC = simsched.NS

    def fn():
        me = S.cur
        n = len(calls)
        if active and not bad:
            bad.append(("concurrent", "step %d begins in %s while a step of %s is in progress" % (n, me.name, active[0].name)))
        if me in stopped:
            stopped[me] -= 1
            if stopped[me] < 0 and not bad:
                bad.append(("after-stop", "step %d begins although the thread was stopped before the previous step began" % n))
        active.append(me)
        c = [me, S.now, None]
        calls.append(c)
        if len(calls) > 4000:
            raise simsched.Killed()
        try:
            S.sleep(int((plan["costs"][n % len(plan["costs"])] + 1e-5) * NSEC))
            if n in plan["fail"]:
                ctx.count("steps that raise")
                raise Boom()
            if n in plan["selfstop"]:
                ctx.count("steps that stop the thread")
                th.stop()
                stopped[me] = 0
                c[2] = S.now
        finally:
            if me in active:
                active.remove(me)
            c[2] = S.now
        t[0] += plan["dt"]
        return t[0]

    th = T.PyMbsThread(fn, realtime=plan["realtime"])
    grace = max(plan["costs"]) * 2 + 0.2
    ran = False
    try:
        running = None      # the current task, if it was started and not stopped
        for k, op in enumerate(plan["ops"]):
            ctx.step = k
            try:
                if op[0] == "restart":
                    n = len(calls)
                    for x in S.alive():
                        stopped.setdefault(x, 1)
                    th.reinit()
                    th.start()
                    running = th.last_task
                    ran = True
                elif op[0] == "stop":
                    th.stop()
                    if running is not None:
                        stopped.setdefault(running, 1)
                        running = None
                elif op[0] == "join":
                    if th.is_alive():
                        th.join()
                else:
                    n = len(calls)
                    S.sleep(int(op[1] * NSEC))
                    if running is not None and not running.done and op[1] > grace + plan["dt"] and len(calls) == n:
                        bad.append(("stuck", "the thread runs but made no step within %g s" % op[1]))
            except simsched.Deadlock:
                raise
            except Exception as ex:
                ctx.violate("ui:%s" % type(ex).__name__, "%s raises %s: %s (operations %s)" % (op[0], type(ex).__name__, ex, plan["ops"][:k + 1]))
            ctx.log(k, op[0], len(calls), S.now, len(S.alive()))
            if running is not None and running.done and not bad:
                last = [c for c in calls if c[0] is running]
                if running.error is None and running not in stopped:
                    bad.append(("ended", "the thread ended by itself after %d steps" % len(last)))
            if bad:
                break
        th.stop()
        for x in S.alive():
            stopped.setdefault(x, 1)
        S.sleep(int(grace * NSEC))
        if S.alive() and not bad:
            bad.append(("not-ended", "%g s after stop the thread has not ended; %d steps were made, operations %s" % (grace, len(calls), plan["ops"])))
    except simsched.Deadlock as ex:
        bad.append(("deadlock", "nothing can run: %s" % ex))
    S.finish()
    for name, ex in S.errors():
        if not isinstance(ex, Boom) and not bad:
            bad.append(("thread:%s" % type(ex).__name__, "the thread dies from %s: %s" % (type(ex).__name__, ex)))
    ctx.log("calls", [(c[1], c[2]) for c in calls][:50])
    ctx.count("steps", len(calls))
    ctx.state([o[0] for o in plan["ops"]], plan["realtime"], min(S.switches, 40))
    if ran and calls:
        ctx.nontrivial()
    if bad:
        ctx.violate(*bad[0])


def simplify_plan(plan):
    for k in ("fail", "selfstop"):
        if plan[k]:
            yield dict(plan, **{k: []})
    if plan["realtime"]:
        yield dict(plan, realtime=False)
    if len(plan["costs"]) > 1:
        for i in range(len(plan["costs"])):
            yield dict(plan, costs=[plan["costs"][i]])
    if plan["order"] != [0]:
        yield dict(plan, order=[0])
    if plan["dt"]:
        yield dict(plan, dt=0)


def show(plan):
    return "operations %s\nsteps cost %s, advance %s, raise at %s, stop at %s\nrealtime %s\npreemptions at line events %s, order %s" % (
        plan["ops"], plan["costs"], plan["dt"], plan["fail"], plan["selfstop"], plan["realtime"], plan["preempts"], plan["order"])
