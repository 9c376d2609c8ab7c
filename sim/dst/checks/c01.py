PROPERTY = "C01"
LEVEL = "exploration"
QUICK_RUNS = 4000
THOROUGH_RUNS = 200000
QUICK_WALL = 60
SHRINK = ["steps"]
RULE = ("one run is a random history of 10-60 operations on a pool of shared expressions (build, in-place simplify, set element, "
        "print, drop) under a seeded heap layout and hash seed; it is non-trivial if an expression was simplified in place or more "
        "than three operations ran; distinct by the hash of the run's log")
STATES = "distinct (operation, kinds of its operands) pairs executed"
REAL = ["/repo/symbolics (expression classes, simplification, Python printer, Python wrapper), built from the working tree"]
STUB = ["heap layout: operator new/delete come from a seeded arena"]


def warm():
    import numpy
    import pymbs.symbolics
    from dst import exprprog


def make_plan(seed, tier):
    from dst import exprprog
    from dst.core import rng, heap_cfg
    r = rng("c01", seed)
    n = r.choice([10, 20, 30, 45, 60])
    steps, _ = exprprog.gen_program(seed, r, n)
    return {"seed": seed, "heap": heap_cfg(r), "steps": steps}


def execute(plan, ctx):
    from dst import exprprog
    exprprog.run_program(plan, ctx)
