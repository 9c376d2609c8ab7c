import re

PROPERTY = "C05"
LEVEL = "exploration"
QUICK_RUNS = 1200
THOROUGH_RUNS = 40000
QUICK_WALL = 70
SHRINK = ["eqs"]
RULE = ("one run is a random equation system written in one of Fortran, C, Matlab and Modelica, in random insertion order under a seeded heap "
        "layout; Fortran and C are compiled and called, Matlab and Modelica are executed by an interpreter; state derivatives, sensors and "
        "graphics at 3 points are compared with a numeric reference; non-trivial if at least 3 equations were solved; distinct by the hash of the log")
STATES = "distinct (language, optimise, heap layout, number of equations, number of states, sensors, inputs) tuples"
REAL = ["/repo/symbolics (expressions, graph, all writers and printers) built from the working tree", "generated Fortran compiled by gfortran",
        "generated C compiled by gcc"]
STUB = ["heap layout: operator new/delete come from a seeded arena", "Matlab and Modelica tools: an interpreter of the emitted subset"]


def warm():
    import numpy
    import pymbs.symbolics
    import pymbs.symbolics.graph
    from dst import eqprog, targets


def make_plan(seed, tier):
    from dst import eqprog
    from dst.core import rng, heap_cfg
    r = rng("c05", seed)
    lang = r.choice(["f90", "c", "m", "mo"])
    m = eqprog.make(r, big=r.random() < 0.6, portable=lang)
    m["seed"] = seed
    m["lang"] = lang
    m["heap"] = heap_cfg(r)
    m["optimise"] = r.random() < 0.7
    return m


def execute(plan, ctx):
    from dst import eqprog, scratch, targets
    if eqprog.undefined(plan):
        return
    ctx.heap()
    lang = plan["lang"]
    b = eqprog.Builder(plan)
    g = b.fill()
    try:
        g.buildGraph(plan["optimise"])
    except Exception as e:
        if "is not supported" in str(e):
            ctx.count("refused as unsupported")
            return
        raise
    decl = {d["n"]: d for d in plan["decls"]}
    with scratch.Dir() as d:
        try:
            with scratch.Stderr() as err:
                g.writeCode(lang, "mod", d)
            if re.search(r"There have been \d+ error", err.text):
                raise targets.Refused(err.text[:200])
            T = targets.LANG[lang](d, "mod", decl)
        except targets.Refused as e:
            ctx.count("refused: %s" % lang)
            return
        except targets.Broken as e:
            if lang == "f90" and "Raising a negative REAL" in str(e):
                ctx.violate("f90-negative-constant-power", "gfortran refuses the generated program: a negative parameter or constant is raised to an integer "
                            "power that is written as a real number: %s" % e)
            ctx.violate("broken-%s" % lang, "the generated %s program is not valid: %s" % (lang, e))
        except Exception as e:
            if "not yet implemented" in str(e) or "is not supported" in str(e) or "solved in several equations" in str(e):
                ctx.count("refused: %s" % lang)
                return
            raise
        eqprog.compare(plan, T, ctx, lang + "-", lang + " ")
    n = len(plan["eqs"])
    ctx.count("language %s" % lang)
    ctx.state(lang, plan["optimise"], plan["heap"]["mode"], plan["heap"]["reuse"], n, len(plan["states"]),
              sum(d["k"] == "sensor" for d in plan["decls"]), sum(d["k"] == "input" for d in plan["decls"]))
    if n >= 3:
        ctx.nontrivial()


def simplify_plan(plan):
    from dst import eqprog
    return eqprog.simplify_plan(plan)


def show(plan):
    from dst import eqprog
    return "%s opt=%s " % (plan["lang"], plan["optimise"]) + eqprog.show(plan)
