PROPERTY = "C04"
LEVEL = "exploration"
QUICK_RUNS = 3000
THOROUGH_RUNS = 100000
QUICK_WALL = 70
SHRINK = ["eqs"]
RULE = ("one run is a random equation system (states, parameters, inputs, shared sub-expressions, sensors, graphics) inserted in a "
        "random order, built with or without optimisation and written as Python under a seeded heap layout and hash seed; the "
        "generated program is executed at 3 points and compared with a numeric reference solution of the same equations; "
        "non-trivial if at least 3 equations were solved; distinct by the hash of the run's log")
STATES = "distinct (optimise, heap layout, number of equations, number of states, sensors, inputs) tuples"
REAL = ["/repo/symbolics (expressions, graph, equation system, Python writer) built from the working tree", "/repo/pymbs/symbolics/graph.py",
        "the generated Python program"]
STUB = ["heap layout: operator new/delete come from a seeded arena"]


def warm():
    import numpy
    import pymbs.symbolics
    import pymbs.symbolics.graph
    from dst import eqprog


def make_plan(seed, tier):
    from dst import eqprog
    from dst.core import rng, heap_cfg
    r = rng("c04", seed)
    m = eqprog.make(r, big=r.random() < 0.8)
    m["seed"] = seed
    m["heap"] = heap_cfg(r)
    m["optimise"] = r.random() < 0.7
    return m


def execute(plan, ctx):
    from dst import eqprog, scratch
    if eqprog.undefined(plan):
        return
    ctx.heap()
    b = eqprog.Builder(plan)
    g = b.fill()
    try:
        g.buildGraph(plan["optimise"])
    except Exception as e:
        if "is not supported" in str(e):    # a limitation PyMbs declares and refuses: element of an element after substitution
            ctx.count("refused as unsupported")
            return
        raise
    with scratch.Dir() as d:
        g.writeCode("py", "mod", d)
        T = eqprog.PyTarget(d, "mod", {x["n"]: x for x in plan["decls"]})
        eqprog.compare_py(plan, T, ctx)
    n = len(plan["eqs"])
    ctx.state(plan["optimise"], plan["heap"]["mode"], plan["heap"]["reuse"], n, len(plan["states"]),
              sum(d["k"] == "sensor" for d in plan["decls"]), sum(d["k"] == "input" for d in plan["decls"]))
    ctx.count("equations solved", n)
    if n >= 3:
        ctx.nontrivial()


def simplify_plan(plan):
    from dst import eqprog
    return eqprog.simplify_plan(plan)


def show(plan):
    from dst import eqprog
    return "opt=%s " % plan["optimise"] + eqprog.show(plan)
