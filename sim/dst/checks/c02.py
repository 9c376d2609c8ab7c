PROPERTY = "C02"
LEVEL = "exploration"
QUICK_RUNS = 4000
THOROUGH_RUNS = 200000
QUICK_WALL = 60
SHRINK = ["steps"]
RULE = ("one run is a random history of 10-60 operations on a pool of shared expressions in which about a third are total time "
        "derivatives or Jacobians, taken before and after in-place simplification of shared subexpressions, under a seeded heap layout "
        "and hash seed; non-trivial if a derivative was evaluated or an expression was simplified; distinct by the hash of the run's log")
STATES = "distinct (operation, kinds of its operands) pairs executed"
REAL = ["/repo/symbolics (expression classes, simplification, Python printer, Python wrapper), built from the working tree"]
STUB = ["heap layout: operator new/delete come from a seeded arena"]


def warm():
    import numpy
    import pymbs.symbolics
    from dst import exprprog


def make_plan(seed, tier):
    from dst import exprprog
    from dst.core import rng, heap_cfg
    r = rng("c02", seed)
    n = r.choice([10, 20, 30, 45, 60])
    steps, _ = exprprog.gen_program(seed, r, n, der=True)
    return {"seed": seed, "heap": heap_cfg(r), "steps": steps}


def execute(plan, ctx):
    from dst import exprprog
    exprprog.run_program(plan, ctx)
