import gc, os

PROPERTY = "C06"
LEVEL = "exploration"
QUICK_RUNS = 1500
THOROUGH_RUNS = 50000
QUICK_WALL = 70
SHRINK = ["ops", "models"]
RULE = ("one run interleaves the life of 2-4 models in one process (declare, add equation, build, write, write again as another language, read "
        "assignments, drop) in a random order under a seeded heap layout; whatever is written is executed at 2 points and compared with a numeric "
        "reference of that model alone, and expressions the user still holds must not change through operations on other models; non-trivial if "
        "at least two models were built while another one was unfinished or written; distinct by the hash of the log")
STATES = "distinct (sequence of operation kinds and model indices, heap layout) tuples"
REAL = ["/repo/symbolics (expressions, graph, equation system, optimisation, writers) built from the working tree", "/repo/pymbs/symbolics/graph.py",
        "the generated Python program"]
STUB = ["heap layout: operator new/delete come from a seeded arena", "Matlab and Modelica tools: an interpreter of the emitted subset"]


def warm():
    import numpy
    import pymbs.symbolics
    import pymbs.symbolics.graph
    from dst import eqprog, targets


def make_plan(seed, tier):
    from dst import eqprog
    from dst.core import rng, heap_cfg
    r = rng("c06", seed)
    models, todo = [], []
    for k in range(r.choice([2, 2, 3, 3, 4])):
        m = eqprog.make(r, big=False, portable=r.choice(["py", "m", "mo"]))
        m["points"] = m["points"][:2]
        m["optimise"] = r.random() < 0.75
        models.append(m)
        todo.append(life(r, k, m))
    ops = []
    # mostly whole bursts of one model, sometimes a strict alternation
    burst = r.choice([1, 2, 5, 12])
    while any(todo):
        k = r.choice([i for i, t in enumerate(todo) if t])
        for _ in range(r.randint(1, burst)):
            if todo[k]:
                ops.append(todo[k].pop(0))
    return {"seed": seed, "models": models, "ops": ops, "heap": heap_cfg(r)}


def life(r, k, m):
    names = [d["n"] for d in m["decls"]]
    pre = [["new", k]]
    body = [["decl", k, n] for n in names if r.random() < 0.3] + [["eq", k] for _ in m["eqs"]]
    body += [["hold", k, r.randrange(len(m["eqs"]))] for _ in range(r.choice([0, 1, 1, 2]))]
    body += [["junk", k, r.randrange(len(m["eqs"]))] for _ in range(r.choice([0, 0, 1, 2]))]
    r.shuffle(body)
    post = []
    for _ in range(r.choice([1, 1, 2, 3])):
        post.append(["write", k, r.choice(["py", "py", "m", "mo", "f90", "c", "cs"]), r.choice(["mod", "mod", "m%d" % k])])
        if r.random() < 0.2:
            post.append(["ask", k])
    if post[-1][0] != "write" or post[-1][2] != "py" or r.random() < 0.3:
        post.append(["write", k, "py", "mod"])
    if r.random() < 0.5:
        post.insert(r.randrange(len(post) + 1) if r.random() < 0.2 else len(post), ["drop", k])
    return pre + body + [["build", k]] + post


class Model:
    def __init__(self, plan):
        from dst import eqprog
        self.plan = plan
        self.b = eqprog.Builder(plan)
        self.left = list(plan["eqs"])
        self.done = False
        self.held = []
        self.ok = True
        self.wrote = set()

    def finish(self):
        while self.left:
            self.b.add(self.left.pop(0))
        for d in self.plan["decls"]:
            self.b.declare(d["n"])


def execute(plan, ctx):
    from dst import eqprog, scratch, targets
    ctx.heap()
    M = {}
    mixed = 0
    trail = []
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        kind, k = op[0], op[1]
        if k >= len(plan["models"]):
            continue
        p = plan["models"][k]
        if kind == "new":
            if k not in M and not eqprog.undefined(p):
                M[k] = Model(p)
        if k not in M:
            continue
        m = M[k]
        trail.append((kind, k))
        ctx.log(step, op)
        if kind == "decl" and not m.done:
            if op[2] in m.b.decl:
                m.b.declare(op[2])
        elif kind == "eq" and not m.done:
            if m.left:
                m.b.add(m.left.pop(0))
        elif kind == "hold" and not m.done:
            e = m.b.expr(p["eqs"][op[2] % len(p["eqs"])]["rhs"])
            if not isinstance(e, (int, float)):
                m.held.append([e, str(e)])
        elif kind == "junk" and not m.done:
            import pymbs.symbolics as sy
            e = m.b.expr(p["eqs"][op[2] % len(p["eqs"])]["rhs"])
            if not isinstance(e, (int, float)) and e.shape() == ():
                e = sy.cos(e) * sy.sin(e) + sy.cos(e)
                ctx.log(str(e))
            del e
        elif kind == "build" and not m.done:
            m.finish()
            m.done = True
            try:
                m.b.g.buildGraph(p["optimise"])
            except Exception as ex:
                if "is not supported" not in str(ex):
                    ctx.violate("build:%s" % type(ex).__name__, "buildGraph of model %d failed: %s" % (k, str(ex)[:300]))
                m.ok = False
                ctx.count("refused as unsupported")
            if len(M) > 1:
                mixed += 1
        elif kind == "ask" and m.done and m.ok:
            from pymbs.symbolics.graph import VarKind
            a = m.b.g.getAssignments(VarKind.Der_State)
            ctx.log(len(str(a)) > 0)
        elif kind == "write" and m.done and m.ok:
            write(ctx, m, op, k)
        elif kind == "drop" and m.done:
            del M[k], m
            gc.collect()
        for j, o in M.items():
            for h in o.held:
                s = str(h[0])
                if s != h[1]:
                    if j != k:
                        ctx.violate("foreign-expression", "%r on model %d changed an expression of model %d from %s to %s" % (op, k, j, h[1][:300], s[:300]))
                    h[1] = s
    ctx.state(tuple(trail), plan["heap"]["mode"], plan["heap"]["reuse"])
    ctx.count("operations", len(trail))
    if mixed >= 2:
        ctx.nontrivial()


def write(ctx, m, op, k):
    import re
    from dst import eqprog, scratch, targets
    lang, name = op[2], op[3]
    with scratch.Dir() as d:
        with scratch.Stderr() as err:
            try:
                m.b.g.writeCode(lang, name, d)
            except Exception as ex:
                s = str(ex)
                if "not yet implemented" in s or "is not supported" in s or "solved in several equations" in s:
                    ctx.count("refused: %s" % lang)
                    return
                ctx.violate("write-%s:%s" % (lang, type(ex).__name__), "model %d could not be written as %s%s: %s" % (
                    k, lang, " after %s" % sorted(m.wrote) if m.wrote else "", s[:300]))
        again = lang in m.wrote or bool(m.wrote)
        m.wrote.add(lang)
        ctx.count("written: " + lang)
        if again:
            ctx.count("written after another target")
        if re.search(r"There have been \d+ error", err.text):
            ctx.count("refused: %s" % lang)
            return
        decl = {x["n"]: x for x in m.plan["decls"]}
        if lang == "py":
            eqprog.compare_py(m.plan, eqprog.PyTarget(d, name, decl), ctx)
        elif lang in ("m", "mo"):
            try:
                T = targets.LANG[lang](d, name, decl)
            except targets.Refused:
                return
            except targets.Broken as ex:
                ctx.violate("broken-%s" % lang, "the generated %s program is not valid: %s" % (lang, ex))
            eqprog.compare(m.plan, T, ctx, lang + "-", lang + " ")


def simplify_plan(plan):
    from dst import eqprog
    for k, m in enumerate(plan["models"]):
        if m is None:
            continue
        for q in eqprog.simplify_plan(m):
            yield dict(plan, models=plan["models"][:k] + [q] + plan["models"][k + 1:])


def show(plan):
    from dst import eqprog
    return "\n".join("model %d (optimise=%s): %s" % (k, m["optimise"], eqprog.show(m)) for k, m in enumerate(plan["models"])) + \
        "\n" + " ".join(":".join(map(str, o)) for o in plan["ops"])
