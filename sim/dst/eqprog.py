"""Random models for the equation layer (Graph): plan, reference solution, builder for the real Graph.

A plan is a list of declarations and a list of equations in insertion order.  Right-hand sides are trees
  ["sym", name] ["num", v] ["add"|"sub"|"mul"|"div", a, b] ["neg"|"sin"|"cos"|"abs"|"sq"|"sqrt1"|"atan", a]
  ["atan2", a, b] ["elem", a, i, j] ["vec", [..]] ["mat", [[..],..]] ["tr", a] ["skew", a] ["solve", A, b]
  ["outer", a, b] ["eye", n] ["zeros", [n, m]] ["colv", a, i]   (slice of a column)
  ["sh", k]  (shared expression object k of the plan)
The reference solution is plain numpy on the same trees; it never sees the library."""
import math
import numpy as np

UNUSUAL = [100000, 65536, 2147483647, -2147483648, 2 ** 31, 2 ** 33, 10 ** 10, -3 * 10 ** 9, 1e10, 3e9, 1.0 / 3, 0.1, 1e-7, -2.5e-9, 6.25e15,
           123456.789012345, 7.0, -2.0, 5]
KIND = {"var": 0x01, "const": 0x02, "param": 0x04, "input": 0x08, "exp": 0x40, "sensor": 0x100, "graphics": 0x200,
        "controller": 0x400}


class Bad(Exception):
    pass


# ------------------------------------------------------------------ reference
def rshape(t, sh, shared):
    op = t[0]
    if op == "sym":
        return sh[t[1]]
    if op == "sh":
        return rshape(shared[t[1]], sh, shared)
    if op in ("num", "elem"):
        return ()
    if op in ("add", "sub"):
        return rshape(t[1], sh, shared)
    if op == "mul":
        a, b = rshape(t[1], sh, shared), rshape(t[2], sh, shared)
        if a == ():
            return b
        if b == ():
            return a
        r, c = a[0], (b[1] if len(b) > 1 else 1)
        if r == 1 and c == 1:
            return ()
        return (r, c) if c > 1 else ((r,) if r > 1 else (1, c))
    if op in ("div", "neg", "sin", "cos", "abs", "sq", "sqrt1", "atan", "atan2"):
        return rshape(t[1], sh, shared)
    if op == "vec":
        return (len(t[1]),)
    if op == "mat":
        return (len(t[1]), len(t[1][0]))
    if op == "tr":
        a = rshape(t[1], sh, shared)
        return (a[1], a[0]) if len(a) > 1 else (1, a[0])
    if op == "skew":
        return (3, 3)
    if op == "solve":
        return rshape(t[2], sh, shared)
    if op == "outer":
        n = rshape(t[1], sh, shared)[0]
        return (n, n)
    if op == "eye":
        return (t[1], t[1])
    if op == "zeros":
        return tuple(t[1])
    if op == "colv":
        return (rshape(t[1], sh, shared)[0],)
    raise Bad(op)


def arr(v):
    return np.atleast_2d(np.asarray(v, dtype=float))


def reval(t, env, shared):
    """env(name) -> 2-d array; every value is a 2-d array (vectors are columns)"""
    v = reval0(t, env, shared)
    nz = getattr(env, "noise", None)
    return v if nz is None or t[0] in ("sym", "sh") else v * (1 + nz(v.shape))


def reval0(t, env, shared):
    op = t[0]
    if op == "sym":
        return env(t[1])
    if op == "sh":
        return reval(shared[t[1]], env, shared)
    if op == "num":
        return arr(t[1])
    if op == "vec":
        return np.array([[reval(e, env, shared)[0, 0]] for e in t[1]])
    if op == "mat":
        return np.array([[reval(e, env, shared)[0, 0] for e in row] for row in t[1]])
    if op == "eye":
        return np.eye(t[1])
    if op == "zeros":
        return np.zeros((t[1][0], t[1][1] if len(t[1]) > 1 else 1))
    a = reval(t[1], env, shared)
    if op in ("add", "sub", "mul", "div", "atan2", "solve", "outer"):
        b = reval(t[2], env, shared)
        if op == "add":
            assert a.shape == b.shape
            return a + b
        if op == "sub":
            assert a.shape == b.shape
            return a - b
        if op == "mul":
            if a.size == 1 or b.size == 1:
                return a * b
            return a @ b
        if op == "div":
            if abs(b[0, 0]) < 1e-3:
                raise Bad("div")
            return a / b[0, 0]
        if op == "atan2":
            if math.hypot(a[0, 0], b[0, 0]) < 1e-2 or (b[0, 0] < 0 and abs(a[0, 0]) < 1e-3):
                raise Bad("atan2")
            return arr(math.atan2(a[0, 0], b[0, 0]))
        if op == "solve":
            if np.linalg.cond(a) > 1e4:
                raise Bad("cond")
            return np.linalg.solve(a, b)
        if op == "outer":
            return a @ b.T
    if op == "neg":
        return -a
    if op == "sin":
        return np.sin(a)
    if op == "cos":
        return np.cos(a)
    if op == "abs":
        return np.abs(a)
    if op == "sq":
        return a * a
    if op == "sqrt1":
        if a[0, 0] < 1e-4:
            raise Bad("sqrt")
        return np.sqrt(a)
    if op == "atan":
        return np.arctan(a)
    if op == "elem":
        return a[t[2]:t[2] + 1, t[3]:t[3] + 1]
    if op == "colv":
        return a[:, t[2]:t[2] + 1]
    if op == "tr":
        return a.T
    if op == "skew":
        x, y, z = a[:, 0]
        return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0.]])
    raise Bad(op)


class Solution:
    """values of every variable at one (time, state, inputs) point"""

    def __init__(self, plan, t, y, u, noise=None):
        self.plan = plan
        if noise is not None:
            R = np.random.RandomState(noise)
            self.noise = lambda sh: 1e-12 * R.uniform(-1, 1, sh)
        self.d = {d["n"]: d for d in plan["decls"]}
        self.defs = {}
        for e in plan["eqs"]:
            if e["lhs"][0] == "list":
                for i, n in enumerate(e["lhs"][1]):
                    self.defs[n] = (e["rhs"], i)
            elif e["lhs"][0] == "der":
                self.defs["der_" + e["lhs"][1]] = (e["rhs"], None)
            else:
                self.defs[e["lhs"][1]] = (e["rhs"], None)
        self.val = {"time": arr(t)}
        k = 0
        for n in plan["states"]:
            m = int(np.prod(self.d[n]["sh"] or [1]))
            self.val[n] = np.array(y[k:k + m], dtype=float).reshape(m, 1)
            k += m
        for n, v in u.items():
            self.val[n] = np.array(v, dtype=float).reshape(-1, 1)
        self.busy = set()

    def __call__(self, n):
        v = self.val.get(n)
        if v is None:
            if n in self.busy:
                raise Bad("cycle")
            self.busy.add(n)
            if n not in self.defs:
                raise Bad("undefined " + n)
            rhs, i = self.defs[n]
            v = reval(rhs, self, self.plan["shared"])
            if i is not None:
                v = v[i:i + 1, :]
            if not np.all(np.isfinite(v)) or np.abs(v).max() > 1e6:
                raise Bad("range")
            self.val[n] = v
        return v

    def der_state(self):
        return np.concatenate([self("der_" + n).reshape(-1) for n in self.plan["states"]])


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, r, style, big):
        self.r = r
        self.sh = {"time": ()}
        self.by = {}
        self.shared = []
        self.decls, self.eqs = [], []
        self.style = style
        self.big = big
        self.nid = 0

    def decl(self, n, sh, kind, init=None, comment=None):
        self.decls.append({"n": n, "sh": list(sh), "k": kind, "init": init, "c": comment})
        self.sh[n] = tuple(sh)

    def avail(self, n):
        self.by.setdefault(self.sh[n], []).append(n)

    def name(self, stem):
        self.nid += 1
        return "%s%d" % (stem, self.nid)

    def pick(self, sh):
        L = self.by.get(sh)
        return ["sym", self.r.choice(L)] if L else None

    def num(self):
        r = self.r
        if r.random() < 0.04:
            return ["num", r.choice(UNUSUAL)]
        return ["num", r.choice([0, 1, 2, -1, 0.5, 3, round(r.uniform(-2, 2), 3), round(r.uniform(-2, 2), 3), -0.25, 1e-3, 12])]

    def share(self, t):
        if t[0] in ("sym", "num", "sh") or self.r.random() > 0.15:
            return t
        self.shared.append(t)
        return ["sh", len(self.shared) - 1]

    def expr(self, sh, depth):
        t = self.expr0(tuple(sh), depth)
        # a shared object used again somewhere else
        if self.shared and self.r.random() < 0.1:
            c = [k for k, s in enumerate(self.shared) if rshape(s, self.sh, self.shared) == tuple(sh)]
            if c:
                return ["sh", self.r.choice(c)]
        return self.share(t)

    def expr0(self, sh, depth):
        r = self.r
        leaf = self.pick(sh)
        if depth <= 0 or (leaf and r.random() < 0.18):
            if leaf and (sh != () or r.random() < 0.8):
                return leaf
            if sh == ():
                return self.num()
            if len(sh) == 1:
                return ["vec", [self.pick(()) if (self.by.get(()) and r.random() < 0.6) else self.num() for _ in range(sh[0])]]
            if sh[0] == sh[1] and r.random() < 0.3:
                return ["eye", sh[0]]
            return ["mat", [[self.pick(()) if (self.by.get(()) and r.random() < 0.5) else self.num() for _ in range(sh[1])] for _ in range(sh[0])]]
        E = lambda s: self.expr(s, depth - 1)
        if sh == ():
            op = r.choice(["add", "add", "sub", "mul", "mul", "div", "neg", "sin", "sin", "cos", "cos", "abs", "sq", "sqrt", "atan2", "elem",
                           "elem", "elem", "dot", "num", "atan"])
            if op in ("add", "sub", "mul"):
                return [op, E(()), E(())]
            if op == "div":
                den = ["add", ["num", r.choice([2, 1.5, 3])], [r.choice(["sin", "cos"]), E(())]]
                if r.random() < 0.5:
                    den = ["add", ["num", 1.25], ["sq", ["sin", E(())]]]
                if r.random() < 0.4:
                    # a whole product over a product
                    return ["div", ["mul", E(()), E(())], ["mul", den, ["add", ["num", 2], ["sin", E(())]]]]
                return ["div", E(()), den]
            if op in ("neg", "sin", "cos", "abs", "sq", "atan"):
                return [op, E(())]
            if op == "sqrt":
                return ["sqrt1", ["add", ["num", r.choice([1, 0.5, 2])], ["sq", E(())]]]
            if op == "atan2":
                return ["atan2", E(()), ["add", ["num", 2.0], ["cos", E(())]]]
            if op == "elem":
                s = r.choice([(3,), (2,), (3, 3), (2, 2), (3,)])
                t = self.pick(s)
                if t is None:
                    return [r.choice(["sin", "cos"]), E(())]
                return ["elem", t, r.randrange(s[0]), r.randrange(s[1]) if len(s) > 1 else 0]
            if op == "dot":
                s = r.choice([(3,), (2,)])
                if not self.by.get(s):
                    return ["mul", E(()), E(())]
                return ["elem", ["mul", ["tr", self.pick(s)], E(s)], 0, 0] if False else ["mul", ["tr", self.pick(s)], E(s)]
            return self.num()
        if len(sh) == 1:
            n = sh[0]
            op = r.choice(["add", "sub", "vec", "vec", "mulmv", "mulmv", "mulsv", "mulsv", "neg", "skewv", "colv", "divv", "solve"])
            if op in ("add", "sub"):
                return [op, E(sh), E(sh)]
            if op == "mulmv":
                m = n if r.random() < 0.8 else r.choice([2, 3])
                return ["mul", E((n, m)), E((m,))]
            if op == "mulsv":
                a, b = E(()), E(sh)
                return ["mul", a, b] if r.random() < 0.6 else ["mul", b, a]
            if op == "divv":
                return ["div", E(sh), ["add", ["num", 2.5], ["sin", E(())]]]
            if op == "neg":
                return ["neg", E(sh)]
            if op == "skewv" and n == 3:
                return ["mul", ["skew", E((3,))], E((3,))]
            if op == "colv":
                s = (n, r.choice([2, 3]))
                if self.by.get(s):
                    return ["colv", self.pick(s), r.randrange(s[1])]
            if op == "solve" and depth >= 2 and self.big and n > 1:
                return ["solve", self.spd(n), E(sh)]
            return ["vec", [self.expr((), depth - 1) for _ in range(n)]]
        n, m = sh
        op = r.choice(["add", "sub", "mat", "mul", "muls", "tr", "neg", "skew", "outer", "mat"])
        if op in ("add", "sub"):
            return [op, E(sh), E(sh)]
        if op == "mul":
            k = r.choice([2, 3])
            return ["mul", E((n, k)), E((k, m))]
        if op == "muls":
            return ["mul", E(()), E(sh)]
        if op == "tr":
            return ["tr", E((m, n))]
        if op == "neg":
            return ["neg", E(sh)]
        if op == "skew" and sh == (3, 3):
            return ["skew", E((3,))]
        if op == "outer" and n == m:
            return ["outer", E((n,)), E((n,))]
        if n == m and r.random() < 0.15:
            return ["eye", n]
        if r.random() < 0.07:
            return ["zeros", [n, m]]
        return ["mat", [[self.expr((), min(1, depth - 1)) for _ in range(m)] for _ in range(n)]]

    def spd(self, n):
        """a well-conditioned matrix"""
        s = lambda: ["mul", ["num", 0.3], [self.r.choice(["sin", "cos"]), self.expr((), 1)]]
        off = {}
        rows = []
        for i in range(n):
            row = []
            for j in range(n):
                if i == j:
                    row.append(["add", ["num", 3], s()])
                else:
                    k = (min(i, j), max(i, j))
                    if k not in off:
                        off[k] = s()
                    row.append(off[k] if self.r.random() < 0.8 else s())
            rows.append(row)
        if self.r.random() < 0.3:       # a solver has to exchange rows
            self.r.shuffle(rows)
        return ["mat", rows]

    def equation(self, lhs, rhs):
        self.eqs.append({"lhs": lhs, "rhs": rhs})


def num_vec(r, n):
    return [round(r.uniform(-1, 1), 3) for _ in range(n)]


def gen_model(r, big=True, portable=None):
    """a model with states, parameters, inputs, auxiliary variables, sensors"""
    style = r.choice(["vec", "vec", "vec", "scalars"])
    g = Gen(r, style, big)
    g.lang = portable
    depth = r.choice([1, 2, 2, 3, 4]) if big else r.choice([1, 2])
    states = []
    if style == "vec":
        n = r.choice([1, 2, 2, 3, 3, 4])
        sh = () if n == 1 else (n,)
        g.decl("q", sh, "var", num_vec(r, n))
        g.decl("qd", sh, "var", num_vec(r, n))
        states = ["q", "qd"]
    else:
        n = r.choice([1, 2, 3, 5])
        for k in range(n):
            nm = r.choice(["x%d", "phi_%d", "s%d_a"]) % k
            g.decl(nm, (), "var", num_vec(r, 1))
            states.append(nm)
    states.sort()
    for s in states:
        g.avail(s)
    g.by.setdefault((), []).append("time")
    for k in range(r.choice([0, 1, 2, 4])):
        nm = g.name("p")
        g.decl(nm, (), "param")
        g.equation(["sym", nm], ["num", r.choice([1, 2, 0.5, 9.81, -3, 1e-4, 1234.5, 0, round(r.uniform(-3, 3), 4), r.choice(UNUSUAL)])])
        g.avail(nm)
    for k in range(r.choice([0, 0, 1, 2])):
        nm = g.name("u")
        sh = r.choice([(), (), (3,), (2,)])
        g.decl(nm, sh, "input")
        g.avail(nm)
    if r.random() < 0.25:
        nm = g.name("c")
        g.decl(nm, (), "const")
        g.equation(["sym", nm], ["num", r.choice([3.25, -1, 7])])
        g.avail(nm)
    for k in range(r.choice([1, 2, 4, 7, 12]) if big else r.choice([0, 1, 2, 4])):
        kind = "exp" if r.random() < 0.15 else "var"
        if r.random() < 0.12:
            m = r.choice([2, 3])
            names = [g.name("l") for _ in range(m)]
            rhs = g.expr((m,), depth)
            for nm in names:
                g.decl(nm, (), "var")
            g.equation(["list", names], rhs)
            for nm in names:
                g.avail(nm)
            continue
        sh = r.choice([(), (), (), (3,), (3,), (2,), (3, 3), (2, 2), (3, 2)])
        nm = g.name(r.choice(["v", "a_", "T_", "_I_"]))
        rhs = g.expr(sh, depth)
        if r.random() < 0.12:
            L = g.by.get(tuple(sh))
            if L:
                rhs = ["sym", r.choice(L)]          # an alias
        g.decl(nm, sh, kind)
        g.equation(["sym", nm], rhs)
        g.avail(nm)
    if style == "vec":
        n = 1 if not g.sh["q"] else g.sh["q"][0]
        sh = g.sh["q"]
        g.decl("qdd", sh, "var")
        if n == 1:
            rhs = ["div", g.expr((), depth), ["add", ["num", 3], ["sin", g.expr((), 1)]]]
            if r.random() < 0.5:
                g.decl("M_", (), "var")
                g.equation(["sym", "M_"], ["add", ["num", 3], ["sin", g.expr((), 1)]])
                rhs = ["div", g.expr((), depth), ["sym", "M_"]]
        else:
            g.decl("M_", (n, n), "var")
            g.equation(["sym", "M_"], g.spd(n))
            g.decl("f_", sh, "var")
            g.equation(["sym", "f_"], g.expr(sh, depth))
            rhs = ["solve", ["sym", "M_"], ["sym", "f_"] if r.random() < 0.5 else ["sub", ["sym", "f_"], g.expr(sh, 1)]]
        g.equation(["sym", "qdd"], rhs)
        g.equation(["der", "q"], ["sym", "qd"])
        g.equation(["der", "qd"], ["sym", "qdd"])
        g.avail("qdd")
    else:
        for s in states:
            g.equation(["der", s], g.expr((), depth))
    for k in range(r.choice([0, 1, 2, 3])):
        nm = g.name("sens")
        sh = r.choice([(), (3,), (2,), (3, 3)])
        rhs = g.expr(sh, depth)
        g.decl(nm, sh, "sensor")
        g.equation(["sym", nm], rhs)
    for k in range(r.choice([0, 0, 1, 2])):
        nm = g.name("gr")
        sh = r.choice([(3,), (3, 3)])
        rhs = g.expr(sh, depth)
        if depends(g, rhs) & (inputs_g(g) | {"time"}):
            continue
        g.decl(nm, sh, "graphics")
        g.equation(["sym", nm], rhs)
    # insertion order: any order in which every symbol is declared before it is used
    order = r.choice(["given", "shuffled", "shuffled", "reversed"])
    if order == "shuffled":
        r.shuffle(g.eqs)
    elif order == "reversed":
        g.eqs.reverse()
    return {"states": states, "decls": g.decls, "eqs": g.eqs, "shared": g.shared, "lazy_decl": r.random() < 0.5}


def inputs_g(g):
    return {d["n"] for d in g.decls if d["k"] == "input"}


def depends(g, rhs):
    """the names rhs depends on, directly or through other equations"""
    defs = {}
    for e in g.eqs:
        for n in (e["lhs"][1] if e["lhs"][0] == "list" else [e["lhs"][1]]):
            if e["lhs"][0] != "der":
                defs[n] = e["rhs"]
    seen, todo = set(), list(free(rhs, g.shared))
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            if n in defs:
                todo += list(free(defs[n], g.shared))
    return seen


def undefined(plan):
    """names that are used but have no equation (a plan reduced too far)"""
    d = {x["n"]: x for x in plan["decls"]}
    have = {"time"} | {n for n, x in d.items() if x["k"] in ("input", "controller")} | set(plan["states"])
    need = set()
    ders = set()
    for e in plan["eqs"]:
        if e["lhs"][0] == "der":
            ders.add(e["lhs"][1])
        else:
            have |= set(e["lhs"][1] if e["lhs"][0] == "list" else [e["lhs"][1]])
        need |= free(e["rhs"], plan["shared"])
    return (need - have) | (set(plan["states"]) - ders)


def free(t, shared):
    out = set()

    def go(t):
        if t[0] == "sym":
            out.add(t[1])
        elif t[0] == "sh":
            go(shared[t[1]])
        elif t[0] == "vec":
            for e in t[1]:
                go(e)
        elif t[0] == "mat":
            for row in t[1]:
                for e in row:
                    go(e)
        elif t[0] not in ("num", "eye", "zeros"):
            for e in t[1:]:
                if isinstance(e, list):
                    go(e)
    go(t)
    return out


def points(r, plan, n):
    """sample points; None if the reference is not well-defined on enough of them"""
    d = {x["n"]: x for x in plan["decls"]}
    ny = sum(int(np.prod(d[s]["sh"] or [1])) for s in plan["states"])
    out = []
    for _ in range(n * 3):
        y = [round(r.uniform(-1.5, 1.5), 4) for _ in range(ny)]
        u = {x["n"]: [round(r.uniform(-2, 2), 4) for _ in range(int(np.prod(x["sh"] or [1])))] for x in plan["decls"] if x["k"] == "input"}
        t = round(r.uniform(0, 5), 3)
        if not ok_point(plan, [t, y, u]):
            continue
        out.append([t, y, u])
        if len(out) == n:
            return out
    return None


def make(r, big=True, portable=None):
    for _ in range(50):
        m = gen_model(r, big, portable)
        p = points(r, m, 3)
        if p:
            m["points"] = p
            return m
    raise Bad("no model")


# ------------------------------------------------------------------ the real half
class Builder:
    def __init__(self, plan, wrap=None):
        import pymbs.symbolics as sy
        from pymbs.symbolics.graph import Graph
        self.sy = sy
        self.plan = plan
        self.g = wrap(Graph()) if wrap else Graph()
        self.sym = {"time": self.g.getVariable("time")}
        self.shared = {}
        self.decl = {d["n"]: d for d in plan["decls"]}

    def declare(self, n):
        if n in self.sym:
            return self.sym[n]
        d = self.decl[n]
        init = d["init"]
        if init is not None:
            init = self.sy.Matrix(init) if d["sh"] else init[0]
        self.sym[n] = self.g.addVariable(n, tuple(d["sh"]), KIND[d["k"]], init, d["c"])
        return self.sym[n]

    def expr(self, t):
        sy = self.sy
        op = t[0]
        X = self.expr
        if op == "sym":
            return self.declare(t[1])
        if op == "sh":
            if t[1] not in self.shared:
                self.shared[t[1]] = X(self.plan["shared"][t[1]])
            return self.shared[t[1]]
        if op == "num":
            return t[1]
        if op == "vec":
            return sy.Matrix([X(e) for e in t[1]])
        if op == "mat":
            return sy.Matrix([[X(e) for e in row] for row in t[1]])
        if op == "eye":
            return sy.eye((t[1], t[1]))
        if op == "zeros":
            return sy.zeros(tuple(t[1]))
        a = X(t[1])
        if op in ("add", "sub", "mul", "div", "atan2", "solve", "outer"):
            b = X(t[2])
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return a * b
            if op == "div":
                return a / b
            return getattr(sy, op)(a, b)
        if op == "neg":
            return -a
        if op == "sq":
            return a ** 2 if isinstance(a, (int, float)) else a ** 2
        if op == "sqrt1":
            return a ** 0.5
        if op in ("sin", "cos", "atan", "abs"):
            if isinstance(a, (int, float)):
                return {"sin": math.sin, "cos": math.cos, "atan": math.atan, "abs": abs}[op](a)
            return abs(a) if op == "abs" else getattr(sy, op)(a)
        if op == "elem":
            s = self.shape(t[1])
            return a[t[2], t[3]] if len(s) > 1 else a[t[2]]
        if op == "colv":
            return a[:, t[2]]
        if op == "tr":
            return sy.transpose(a)
        if op == "skew":
            return sy.skew(a)
        raise Bad(op)

    def shape(self, t):
        sh = {n: tuple(d["sh"]) for n, d in self.decl.items()}
        sh["time"] = ()
        return rshape(t, sh, self.plan["shared"])

    def add(self, e):
        lhs = e["lhs"]
        if lhs[0] == "list":
            left = [self.declare(n) for n in lhs[1]]
        elif lhs[0] == "der":
            left = self.sy.der(self.declare(lhs[1]))
        else:
            left = self.declare(lhs[1])
        rhs = self.expr(e["rhs"])
        self.g.addEquation(left, rhs, shape=None)

    def fill(self):
        if not self.plan.get("lazy_decl"):
            for d in self.plan["decls"]:
                self.declare(d["n"])
        for e in self.plan["eqs"]:
            self.add(e)
        for d in self.plan["decls"]:
            self.declare(d["n"])
        return self.g


# ------------------------------------------------------------------ running generated Python
class PyTarget:
    """the generated Python program, loaded from the files it was written to"""

    def __init__(self, d, name, decl, extra=None):
        self.d, self.name, self.decl = d, name, decl
        self.mods = {}
        self.extra = extra or {}
        import os
        self.files = {}
        for part in ("der_state", "sensors", "visual"):
            p = os.path.join(d, "%s_%s.py" % (name, part))
            if os.path.exists(p):
                self.files[part] = open(p).read()

    def load(self, part):
        full = "%s_%s" % (self.name, part)
        if full in self.mods:
            return self.mods[full]
        ns = {"__name__": full}
        import builtins
        real = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name.startswith(self.name + "_"):
                sub = self.load(name[len(self.name) + 1:])
                return type("M", (), {k: staticmethod(v) if callable(v) else v for k, v in sub.items()})
            if name in self.extra:
                return type("M", (), {k: staticmethod(v) for k, v in self.extra[name].items()})
            return real(name, globals, locals, fromlist, level)
        b = dict(builtins.__dict__)
        b["__import__"] = imp
        ns["__builtins__"] = b
        exec(compile(self.files[part], full + ".py", "exec"), ns)
        self.mods[full] = ns
        return ns

    def set_inputs(self, u):
        for part in self.files:
            ns = self.load(part)
            f = ns.get(self.name + "_setInputs")
            if f:
                f({n: (v[0] if not self.decl[n]["sh"] else np.matrix(v).T) for n, v in u.items() if n in ns["_inputs"]})

    def der_state(self, t, y, u):
        self.set_inputs(u)
        return np.asarray(self.load("der_state")[self.name + "_der_state"](t, np.array(y, dtype=float)))

    def sensors(self, t, y, u):
        return self.load("sensors")[self.name + "_sensors"](t, np.array(y, dtype=float))

    def visual(self, t, y, u):
        return self.load("visual")[self.name + "_visual"](np.array(y, dtype=float))


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.size != b.size:
        return False
    a, b = a.reshape(-1), b.reshape(-1)
    s = max(1.0, np.abs(b).max() if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * s))


def ok_point(plan, pt):
    """the reference is defined at this point and rounding cannot matter there"""
    try:
        A, B = Solution(plan, *pt), Solution(plan, *pt, noise=7)
        watch = ["der_" + s for s in plan["states"]] + [x["n"] for x in plan["decls"] if x["k"] in ("sensor", "graphics", "exp", "var")
                                                        and x["n"] not in plan["states"]]
        return all(close(A(n), B(n), 2e-10) for n in watch)
    except (Bad, np.linalg.LinAlgError):
        return False


def children(t):
    if t[0] == "vec":
        return [((1, i), e) for i, e in enumerate(t[1])]
    if t[0] == "mat":
        return [((1, i, j), e) for i, r in enumerate(t[1]) for j, e in enumerate(r)]
    if t[0] in ("sym", "num", "eye", "zeros", "sh"):
        return []
    return [((i,), e) for i, e in enumerate(t) if i and isinstance(e, list)]


def put(t, path, v):
    if not path:
        return v
    t = list(t)
    t[path[0]] = put(t[path[0]], path[1:], v)
    return t


def simplify_plan(plan):
    """smaller variants of a failing plan: drop equations that nothing uses, replace subtrees by their parts or by constants"""
    import copy

    def used(p):
        s = set()
        for e in p["eqs"]:
            s |= free(e["rhs"], p["shared"])
        return s

    def good(q):
        try:
            if undefined(q):
                return False
        except Exception:
            return False
        q["points"] = [pt for pt in q["points"] if ok_point(q, pt)]
        return bool(q["points"])

    # drop unused definitions
    u = used(plan)
    for k in range(len(plan["eqs"]) - 1, -1, -1):
        e = plan["eqs"][k]
        names = e["lhs"][1] if e["lhs"][0] == "list" else [e["lhs"][1]]
        if e["lhs"][0] == "der" or (set(names) & u):
            continue
        q = dict(plan, eqs=plan["eqs"][:k] + plan["eqs"][k + 1:], decls=[d for d in plan["decls"] if d["n"] not in names])
        if good(q):
            yield q
    if len(plan["points"]) > 1:
        for pt in plan["points"]:
            yield dict(plan, points=[pt])
    sh = {d["n"]: tuple(d["sh"]) for d in plan["decls"]}
    sh["time"] = ()

    def walk(t, path):
        yield path, t
        for p, e in children(t):
            yield from walk(e, path + p)
    for depth in range(1, 12):
        for k, e in enumerate(plan["eqs"]):
            for path, t in list(walk(e["rhs"], ())):
                if len(path) + 1 != depth or t[0] in ("sym", "num"):
                    continue
                s = rshape(t, sh, plan["shared"])
                cand = []
                if t[0] == "sh":
                    cand = [plan["shared"][t[1]]]
                cand += [c for _, c in children(t) if rshape(c, sh, plan["shared"]) == s]
                if s == ():
                    cand.append(["num", 1])
                elif len(s) == 1 and t[0] != "vec":
                    cand.append(["vec", [["num", i + 1] for i in range(s[0])]])
                elif len(s) == 2 and t[0] != "mat":
                    cand.append(["mat", [[["num", i * s[1] + j + 1] for j in range(s[1])] for i in range(s[0])]])
                for c in cand:
                    eqs = list(plan["eqs"])
                    eqs[k] = dict(e, rhs=put(e["rhs"], path, c))
                    q = dict(plan, eqs=eqs)
                    if good(q):
                        yield q


def inputs_of(plan):
    return [d["n"] for d in plan["decls"] if d["k"] == "input"]


def compare_py(plan, T, ctx):
    """runs the generated Python program at the plan's points; violates where it differs from the reference"""
    try:
        for part in T.files:
            T.load(part)
    except SyntaxError as e:
        ctx.violate("syntax", "the generated Python program is not valid Python: %s at %r" % (e.msg, e.text))
    compare(plan, T, ctx, "", "Python ")


def compare(plan, T, ctx, pre, lang):
    """T.der_state/sensors/visual(t, y, u) against the reference"""
    decl = {d["n"]: d for d in plan["decls"]}
    defined = {n for e in plan["eqs"] for n in (e["lhs"][1] if e["lhs"][0] == "list" else [e["lhs"][1]])}
    sens = {d["n"] for d in plan["decls"] if d["k"] == "sensor" and d["n"] in defined}
    gra = {d["n"] for d in plan["decls"] if d["k"] == "graphics" and d["n"] in defined}
    for t, y, u in plan["points"]:
        S = Solution(plan, t, y, u)
        try:
            got = T.der_state(t, y, u)
            ctx.log("der", np.round(np.asarray(got, dtype=float), 9).tolist())
        except Exception as e:
            ctx.violate(pre + "run-der:%s" % type(e).__name__, "the generated %sder_state fails: %s: %s" % (lang, type(e).__name__, e))
        want = S.der_state()
        if not close(got, want):
            ctx.violate(pre + "der_state", "%sder_state(%r,%r,%r) is %r, the equations say %r" % (lang, t, y, u, got.tolist(), want.tolist()))
        for part, names in (("sensors", sens), ("visual", gra)):
            if part not in T.files:
                if names and (part != "visual" or getattr(T, "graphics", True)):
                    ctx.violate(pre + "missing-" + part, "no %s%s file was written for %r" % (lang, part, sorted(names)))
                continue
            try:
                got = T.sensors(t, y, u) if part == "sensors" else T.visual(t, y, u)
            except Exception as e:
                ctx.violate(pre + "run-%s:%s" % (part, type(e).__name__), "the generated %s%s function fails: %s: %s" % (lang, part, type(e).__name__, e))
            if set(got) != names:
                ctx.violate(pre + "keys-" + part, "%s%s returned %r, declared %r" % (lang, part, sorted(got), sorted(names)))
            for n in sorted(names):
                v = np.asarray(got[n], dtype=float)
                ctx.log(n, np.round(v, 9).tolist())
                w = S(n)
                if not close(v, w):
                    ctx.violate(pre + part, "%s%s %s%r at (%r,%r,%r) is %r, the equations say %r" % (lang, part, n, decl[n]["sh"], t, y, u, v.tolist(), w.tolist()))
                if len(decl[n]["sh"]) == 2 and v.shape != w.shape:
                    ctx.violate(pre + "shape-" + part, "%s%s %s has shape %r, declared %r" % (lang, part, n, v.shape, decl[n]["sh"]))


def infix(t, shared):
    """readable form of a tree, for messages"""
    op = t[0]
    X = lambda e: infix(e, shared)
    if op == "sym":
        return t[1]
    if op == "num":
        return repr(t[1])
    if op == "sh":
        return X(shared[t[1]])
    if op in ("add", "sub", "mul", "div"):
        return "(%s%s%s)" % (X(t[1]), {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op], X(t[2]))
    if op == "neg":
        return "-" + X(t[1])
    if op == "elem":
        return "%s[%d,%d]" % (X(t[1]), t[2], t[3])
    if op == "vec":
        return "[" + ",".join(map(X, t[1])) + "]"
    if op == "mat":
        return "[" + ";".join(",".join(map(X, r)) for r in t[1]) + "]"
    if op in ("eye", "zeros"):
        return "%s%r" % (op, t[1])
    if op == "colv":
        return "%s[:,%d]" % (X(t[1]), t[2])
    return op + "(" + ",".join(X(e) for e in t[1:]) + ")"


def show(plan):
    return "; ".join("%s = %s" % (e["lhs"][1] if e["lhs"][0] != "der" else "der(%s)" % e["lhs"][1], infix(e["rhs"], plan["shared"])) for e in plan["eqs"])
