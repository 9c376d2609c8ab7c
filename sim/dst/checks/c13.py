import contextlib
import io

PROPERTY = "C13"
LEVEL = "exploration"
QUICK_RUNS = 2500
THOROUGH_RUNS = 60000
QUICK_WALL = 60
SHRINK = ["bad", "eqs"]
RULE = ("one run builds a random multibody system or a random equation system through a clumsy user: before or after scheduled calls of the script the same call is made "
        "wrongly (a name that is taken or impossible, an argument of the wrong kind or one too many, an object from elsewhere in the model or from another one, the same call twice); whenever the call is refused "
        "the script goes on with the right one, and the programs generated at the end must solve the model of the script alone; a run whose wrong call was accepted is dropped; "
        "non-trivial if at least one call was refused and the programs were compared; distinct by the hash of the log")
STATES = "distinct (sequence of refused calls) tuples"
REAL = ["/repo/pymbs (input, transformation, processing, symbolics/graph.py)", "/repo/symbolics built from the working tree", "the generated Python programs"]
STUB = ["heap layout: operator new/delete come from a seeded arena", "the user's mistakes: a proxy around the calls of the script"]
CPU_LIMIT = 40
TIMEOUT = 60


def warm():
    import numpy
    import pymbs.input
    import pymbs.symbolics.graph
    from dst import eqprog, mbs, scratch, nosy
    from dst.checks import c09


def make_plan(seed, tier):
    from dst import eqprog, mbs, nosy
    from dst.checks import c09
    from dst.core import rng, heap_cfg
    r = rng("c13", seed)
    kind = "graph" if r.random() < 0.5 else "mbs"
    if kind == "graph":
        p = eqprog.make(r, big=r.random() < 0.4)
        p["optimise"] = r.random() < 0.7
        calls = len(p["decls"]) + len(p["eqs"])
    else:
        m = mbs.gen(r)
        mode = r.choice(["Recursive", "Explicit", "OrderN"])
        if c09.dofs(m) > 4 and mode == "Explicit":
            mode = "Recursive"
        p = {"model": m, "jobs": [{"mode": mode, "simplify": r.random() < 0.6, "opt": r.random() < 0.5}], "traj": c09.traj(r, m)[:2]}
        calls = len(m["params"]) + len(m["inputs"]) + 2 * len(m["bodies"]) + len(m["frames"]) + 2 * len(m["loads"]) + len(m["sensors"]) + 2
    return dict(p, kind=kind, seed=seed, heap=heap_cfg(r), bad=nosy.gen(r, r.choice([1, 2, 3, 5]), calls))


def execute(plan, ctx):
    from dst import nosy
    N = nosy.Nosy(ctx, plan["bad"])
    ctx.heap()
    try:
        if plan["kind"] == "graph":
            done = graph(plan, ctx, N)
        else:
            done = model(plan, ctx, N)
    except nosy.Accepted:
        ctx.count("dropped: accepted")
        return
    if done and N.refused:
        ctx.nontrivial()
        ctx.count("refused calls", N.refused)
        ctx.count("programs compared after a refusal: " + plan["kind"])


def graph(plan, ctx, N):
    from dst import eqprog, scratch
    if eqprog.undefined(plan):
        return False
    b = eqprog.Builder(plan, N.wrap)
    N.off = False
    g = b.fill()
    try:
        g.buildGraph(plan["optimise"])
    except Exception as e:
        if "is not supported" in str(e):
            ctx.count("refused as unsupported")
            return False
        raise
    with scratch.Dir() as d:
        g.writeCode("py", "mod", d)
        T = eqprog.PyTarget(d, "mod", {x["n"]: x for x in plan["decls"]})
        eqprog.compare_py(plan, T, ctx)
    return True


def model(plan, ctx, N):
    import numpy as np
    from dst import mbs, scratch
    from dst.checks import c09
    m = plan["model"]
    ref = mbs.Ref(m)
    if not ref.valid() or not ref.dofs:
        return False
    with scratch.Dir() as d:
        P = c09.Programs(ctx, plan, d, wrap=N.wrap)

        def visit(k, S, t, q, qd, u):
            tol = 1e-11 * S.cond + 1e-8
            for label, job, order, T, w in P.T:
                got = c09.run(ctx, T, order, t, S, u, label)
                want = np.array([S.qd[n] for n in order] + [S.qdd[n] for n in order])
                ctx.log(k, label, np.round(got, 6).tolist())
                scale = max(1.0, np.abs(want).max(), np.abs(S.h).max() / max(1e-9, np.linalg.norm(S.M, -2)) if S.h.size else 1)
                if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * scale):
                    ctx.violate("acceleration-" + job["mode"], "%s: at t=%g, coordinates %s, q=%s, qd=%s, inputs %s the program says %s, Newton-Euler says %s" % (
                        label, t, order, [S.q[n] for n in order], [S.qd[n] for n in order], u, got.tolist(), want.tolist()))
        return c09.walk(ctx, plan, P, visit) > 0


def simplify_plan(plan):
    from dst import eqprog
    from dst.checks import c09
    for i in range(len(plan["bad"])):
        yield dict(plan, bad=plan["bad"][:i] + plan["bad"][i + 1:])
    yield from (eqprog if plan["kind"] == "graph" else c09).simplify_plan(plan)


def show(plan):
    from dst import eqprog
    from dst.checks import c09
    return "wrong calls %s\n" % plan["bad"] + (eqprog if plan["kind"] == "graph" else c09).show(plan)
