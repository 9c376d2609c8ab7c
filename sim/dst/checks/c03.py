PROPERTY = "C03"
LEVEL = "exploration"
QUICK_RUNS = 3000
THOROUGH_RUNS = 150000
QUICK_WALL = 70
SHRINK = ["steps"]
RULE = ("one run is a random history of 8-40 operations on a pool of shared expressions under a seeded heap layout, into which operations that "
        "must be refused, operations that may be refused and failing allocations are mixed; it is non-trivial if an operation was refused or an "
        "allocation failed; distinct by the hash of the run's log")
STATES = "distinct (refused operation, kinds of its operands) and (operation with failing memory, refused or not) pairs"
REAL = ["/repo/symbolics (expression classes, simplification, Python printer, Python wrapper), built from the working tree"]
STUB = ["operator new/delete: memory comes from a seeded arena; the n-th allocation from a chosen point on can fail"]


def warm():
    import numpy
    import pymbs.symbolics
    from dst import exprprog, refuse


def make_plan(seed, tier):
    from dst import exprprog, refuse
    from dst.core import rng, heap_cfg
    r = rng("c03", seed)
    n = r.choice([8, 15, 25, 40])
    steps, md = exprprog.gen_program(seed, r, n, der=r.random() < 0.4)
    out, ids, have = [], list(exprprog.SYMS), []
    p_bad, p_oom, p_maybe = r.choice([0, 0.3, 0.8]), r.choice([0, 0.3, 0.7]), r.choice([0, 0.2])
    for st in steps:
        while r.random() < p_bad:
            b = refuse.gen_bad(r, md, ids)
            if b:
                out.append(b)
            if r.random() < 0.3:
                break
        if r.random() < p_maybe:
            b = refuse.gen_maybe(r, md, ids)
            if b:
                out.append(b)
        if st["op"] == "del":
            ids.remove(st["a"][0])
        if st["op"] not in ("churn", "del") and r.random() < p_oom:
            # the 1st, 2nd, ... allocation of this operation fails
            st = dict(st, oom=r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 23, 31, 45, 70]))
        out.append(st)
        if "id" in st:
            ids.append(st["id"])
    return {"seed": seed, "heap": heap_cfg(r), "steps": out}


def execute(plan, ctx):
    from dst import exprprog, refuse, ref
    real = exprprog.Real(ctx, plan["seed"])
    md = real.md
    ctx.heap()
    lib = ctx.shim.lib
    seen = {}

    def note(k):
        o = real.obj[k]
        seen[k] = (str(o), None if isinstance(o, (int, float)) else o.shape(), type(o))

    def unchanged(when):
        for k in list(seen):
            if k not in real.obj:
                del seen[k]
                continue
            o = real.obj[k]
            old = seen[k]
            if type(o) is not old[2]:
                ctx.violate("trace", "%s: the type of %s became %s, it was %s" % (when, k, type(o).__name__, old[2].__name__))
            if old[1] is not None and o.shape() != old[1]:
                ctx.violate("trace", "%s: the shape of %s = %s became %s, it was %s" % (when, k, old[0][:200], o.shape(), old[1]))
            if str(o) != old[0]:
                # another form of the same value would be no trace
                if k in real.live:
                    real.check(k, when)
                else:
                    ctx.violate("trace", "%s: %s prints as %s now" % (when, k, str(o)[:200]))
                note(k)

    def refused(what, fn):
        """fn() raises"""
        try:
            v = fn()
        except SystemError as e:
            ctx.violate("unreported", "%s ended without a proper exception: %s" % (what, e))
        except Exception as e:
            ctx.log("refused", what, type(e).__name__)
            ctx.count("refused operations")
            return
        ctx.violate("accepted", "%s was not refused: it gave %s" % (what, str(v)[:200]))

    def failing(st, i, fn):
        """performs fn() while an allocation fails; -> ('ok', value) or ('refused', None)"""
        lib.shim_heap_failat(st["oom"])
        try:
            v = fn()
            out = "ok", v
        except SystemError as e:
            lib.shim_heap_failat(0)
            ctx.violate("unreported", "step %d (%s) without memory ended without a proper exception: %s" % (i, st["op"], e))
        except Exception as e:
            out = "refused", type(e).__name__
        failed = lib.shim_heap_failed()
        lib.shim_heap_failat(0)
        if failed:
            ctx.count("allocation failures")
            ctx.nontrivial()
            ctx.state("oom", st["op"], out[0])
        elif out[0] == "refused":
            ctx.violate("refused", "step %d (%s) was refused although nothing failed: %s" % (i, st["op"], out[1]))
        ctx.log(i, "memory", out[0], failed)
        return out

    for k in exprprog.SYMS:
        note(k)
    for i, st in enumerate(plan["steps"]):
        ctx.step = i
        op = st["op"]
        if not real.ready(st):
            continue
        oom = "oom" in st
        if op == "churn":
            continue
        if op == "del":
            del real.obj[st["a"][0]]
            real.live.remove(st["a"][0])
            continue
        if op == "bad":
            if any(isinstance(real.obj[q], (int, float)) for q in st["a"]):
                continue        # became a number of Python, which has other rules
            what = "step %d: %s%s of %s" % (i, st["k"], " " + str(st["x"]) if "x" in st else "", [seen[q][0][:80] for q in st["a"]])
            ctx.count("refused " + st["k"])
            ctx.state(st["k"], str(st.get("x")), tuple(md.nodes[q].op for q in st["a"]))
            refused(what, lambda: refuse.run_bad(real, st))
            ctx.nontrivial()
            unchanged("after " + what)
            continue
        if op == "maybe":
            if isinstance(real.obj[st["a"][0]], (int, float)):
                continue
            try:
                v = refuse.run_maybe(real, st)
            except SystemError as e:
                ctx.violate("unreported", "step %d (%s) ended without a proper exception: %s" % (i, st, e))
            except Exception as e:
                ctx.count("refused " + st["k"])
                v = None
            if v:
                ctx.count("accepted " + st["k"])
                real.obj["?"], md.nodes["?"] = v
                try:
                    md.values(v[1])
                    real.check("?", "step %d (%s %s of %s)" % (i, st["k"], st["x"], st["a"]))
                except ref.Dom:
                    pass
                del real.obj["?"], md.nodes["?"]
            unchanged("after step %d (%s %s)" % (i, st["k"], st["x"]))
            continue
        k = st["a"][0] if st.get("a") else None
        if op in ("simplify", "str", "atoms", "shape"):
            o = real.obj[k]
            if isinstance(o, (int, float)):
                continue
            fn = {"simplify": o.simplify, "str": o.__str__, "atoms": lambda: sorted(str(q) for q in o.atoms()), "shape": o.shape}[op]
            want = None if op == "simplify" else fn()
            if oom:
                res, v = failing(st, i, fn)
                if res == "ok" and v != want:
                    ctx.violate("incomplete", "step %d: %s of %s gave %s without memory, expected %s" % (i, op, k, str(v)[:300], str(want)[:300]))
                if op == "simplify":
                    for j in real.live:
                        if j in real.obj:
                            real.check(j, "after step %d (simplify %s, an allocation failed)" % (i, k))
                else:
                    unchanged("after step %d (%s %s, an allocation failed)" % (i, op, k))
            if fn() != want:
                ctx.violate("incomplete", "step %d: %s of %s changed" % (i, op, k))
            if op == "simplify":
                for j in real.live:
                    if j in real.obj:
                        real.check(j, "after step %d (simplify %s)" % (i, k))
                for j in list(seen):
                    if j in real.obj:
                        note(j)
            continue
        if op == "setitem":
            m = real.obj[k]
            n = md.nodes[k]
            row, col = st["x"]

            def fn():
                m[row if n.sh[1] == 1 else (row, col)] = real.arg(st["a"][1])
            done = False
            if oom:
                res, v = failing(st, i, fn)
                done = res == "ok"
                if not done:
                    unchanged("after step %d (set element of %s, an allocation failed)" % (i, k))
            if not done:
                fn()
            args = list(n.a)
            args[row * n.sh[1] + col] = md.arg(st["a"][1])
            md.nodes[k] = ref.N("mat", args, n.x, n.sh, "m")
            for j in real.live:
                if j in real.obj:
                    real.check(j, "after step %d (set element of %s)" % (i, k))
            note(k)
            unchanged("after step %d (set element of %s)" % (i, k))
            continue
        if op == "dot":
            node = ref.mk("scalar", [ref.mk("mul", [ref.mk("tr", [md.nodes[st["a"][0]]]), md.nodes[st["a"][1]]])])
        else:
            node = md.build(st)
        try:
            md.values(node)
        except ref.Dom:
            continue
        o = None
        if oom:
            res, o = failing(st, i, lambda: real.apply(st))
            if res != "ok":
                o = None
                unchanged("after step %d (%s, an allocation failed)" % (i, op))
        if o is None:
            o = real.apply(st)
        md.nodes[st["id"]] = node
        real.obj[st["id"]] = o
        real.live.append(st["id"])
        ctx.log(i, op, st["id"])
        real.check(st["id"], "step %d (%s%s)" % (i, op, ", with failing memory" if oom else ""))
        real.check_shape(st["id"])
        note(st["id"])
    for j in real.live:
        real.check(j, "at the end")
    n, msg = ctx.shim.heap_bad()
    if n:
        ctx.violate("heap", "memory error: %s" % msg)
