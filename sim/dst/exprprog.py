"""Random programs over the expression API, with the reference model alongside (used by C01 and C02)."""
import gc
import math
import numpy as np
from . import ref
from .core import rng, heap_cfg

SYMS = {"a": ((1, 1), "s"), "b": ((1, 1), "s"), "c": ((1, 1), "s"), "d": ((1, 1), "s"), "e": ((1, 1), "s"),
        "u": ((3, 1), "m"), "v": ((3, 1), "m"), "w": ((2, 1), "m"), "M": ((3, 3), "m"), "Q": ((3, 3), "m"),
        "P": ((2, 2), "m"), "H": ((2, 3), "m"), "G": ((3, 2), "m")}
UN = ["neg", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "sign", "pow", "tr", "skew", "elem", "slice", "scalar", "inv"]
BIN = ["add", "sub", "mul", "div", "atan2", "outer", "solve", "if"]


def envs(seed, k=2, der=True):
    out = []
    for i in range(k):
        r = rng("env", seed, i)
        vals = {}
        for n, (sh, kind) in SYMS.items():
            S = np.array([[[r.uniform(0.3, 2.0) * r.choice([-1, 1]) for _ in range(sh[1])] for _ in range(sh[0])] for _ in range(2)])
            if sh[0] == sh[1] and kind == "m":
                S[0] += np.eye(sh[0]) * 3 * r.choice([-1, 1])
            vals[n] = S
        out.append(vals)
    return out


class Model:
    """the reference half of a run: id -> node"""

    def __init__(self, seed):
        self.envs = [ref.Env(v, 1) for v in envs(seed)]
        self.nodes = {n: ref.sym(n, sh, kind) for n, (sh, kind) in SYMS.items()}

    def arg(self, a):
        if isinstance(a, dict):
            return ref.const(a["c"])
        return self.nodes[a]

    def build(self, st):
        op = st["op"]
        if op == "const":
            return ref.const(st["x"])
        if op in ("zeros", "eye"):
            return ref.N(op, (), None, tuple(st["x"]), "m")
        a = [self.arg(x) for x in st["a"]]
        x = st.get("x")
        if op == "mdiv":
            return ref.mk("mul", [a[0], ref.mk("inv", [a[1]])])
        if op == "if":
            return ref.mk({"<": "iflt", ">": "ifgt", "=": "ifeq"}[x], a)
        return ref.mk(op, a, tuple(x) if isinstance(x, list) else x)

    def values(self, node):
        """[(value, magnitude)]; raises ref.Dom"""
        return [(e(node)[0], e(node)[1]) for e in self.envs]


BIG = [100000, 65536, 2147483647, -2147483648, 2 ** 31, 2 ** 33, 10 ** 10, -3 * 10 ** 9, 2 ** 40, 1e10, 3e9]


def gen_const(r):
    if r.random() < 0.06:
        return r.choice(BIG)
    return r.choice([0, 1, -1, 2, 3, -2, 1, 0, 2, 0.5, -0.25, 1.0, 0.0, -1.0, 2.5, -3.75, 4])


def ops_of(n, out=None):
    out = set() if out is None else out
    out.add(n.op)
    for b in n.a:
        ops_of(b, out)
    return out


def principal(n):
    """PyMbs takes asin(sin(x)), acos(cos(x)) and atan(tan(x)) to be x: valid on the principal branch only,
    so the property is claimed there; programs that could leave it are not generated"""
    if n.op in ("elem", "slice") and ops_of(n.a[0]) & {"inv", "solve", "outer", "sign"}:
        return False        # rejected by the library: "Unknown Type"
    if n.op in ("asin", "acos", "atan", "atan2"):
        return not (ops_of(n.a[0]) & {"sin", "cos", "tan"})
    return True


def gen_program(seed, r, length, der=False, max_size=70):
    """steps whose reference values exist; returns (steps, model)"""
    md = Model(seed)
    steps = []
    nid = [0]
    sc = [n for n, (s, k) in SYMS.items() if k == "s"]
    live_s, live_m = list(sc), [n for n, (s, k) in SYMS.items() if k == "m"]
    nsym_s = r.sample(sc, r.randint(2, len(sc)))
    hasder = set()
    mats = []
    # swarm: every run uses its own mix of operations
    unw = [u for u in UN if r.random() < 0.7] or ["neg"]
    biw = [b for b in BIN if b in ("add", "mul") or r.random() < 0.7]
    p_simplify = r.choice([0.0, 0.1, 0.3, 0.5])
    p_const = r.choice([0.05, 0.15, 0.35])
    p_reuse = r.choice([0.3, 0.6, 0.9])
    matbias = r.choice([0.1, 0.4, 0.7])

    def pick(pool, base):
        if pool and r.random() < p_reuse:
            k = len(pool)
            if r.random() < 0.5:
                return pool[max(0, k - 1 - int(r.expovariate(0.4)))] if k else r.choice(base)
            return r.choice(pool)
        return r.choice(base)
    pool_s, pool_m = [], []
    bs = nsym_s
    bm = r.sample(live_m, r.randint(2, len(live_m)))

    def S(allow_const=True):
        if allow_const and r.random() < p_const:
            return {"c": gen_const(r)}
        return pick(pool_s, bs)

    def Mx():
        return pick(pool_m, bm)

    def by_shape(pred, tries=12):
        for _ in range(tries):
            m = Mx()
            if pred(md.nodes[m].sh):
                return m
        c = [m for m in pool_m + list(SYMS) if md.nodes[m].kind == "m" and pred(md.nodes[m].sh)]
        return r.choice(c) if c else None

    def shape(x):
        return (1, 1) if isinstance(x, dict) else md.nodes[x].sh

    def one():
        z = r.random()
        mat = r.random() < matbias
        if pool_s + pool_m and z < p_simplify * 0.6:
            return {"op": "simplify", "a": [r.choice(pool_s + pool_m)]}
        if z > 0.985:
            return {"op": "churn", "x": r.randint(1, 40)}
        if z > 0.97 and pool_s + pool_m:
            return {"op": r.choice(["str", "atoms", "shape"]), "a": [r.choice(pool_s + pool_m)]}
        if z > 0.96 and len(pool_s) > 4:
            return {"op": "del", "a": [r.choice(pool_s[:-2])]}
        if z > 0.94 and mats:
            m = r.choice(mats)
            sh = md.nodes[m].sh
            return {"op": "setitem", "a": [m, S()], "x": [r.randrange(sh[0]), r.randrange(sh[1])]}
        if der and r.random() < 0.3:
            if r.random() < 0.75:
                return {"op": "der", "a": [pick(pool_m, bm) if mat else pick(pool_s, bs)]}
            cand = [m for m in pool_m if md.nodes[m].op == "mat" and md.nodes[m].sh[1] == 1]
            names = r.sample(sc, r.randint(2, 3))
            if cand and r.random() < 0.8:
                return {"op": "jac", "a": [r.choice(cand)], "x": names}
            return {"op": "jac", "a": [pick(pool_s, bs)], "x": names}
        if z < 0.62:
            op = r.choice(biw + ["add", "mul", "mul", "sub"])
            if op in ("add", "sub"):
                if mat:
                    x = Mx()
                    y = by_shape(lambda s: s == md.nodes[x].sh)
                    a = [x, y] if r.random() < 0.5 else [y, x]
                else:
                    a = [S(), S()]
            elif op == "mul":
                if mat:
                    x = Mx()
                    t = r.random()
                    if t < 0.35:
                        a = [x, S()] if r.random() < 0.5 else [S(), x]
                    else:
                        y = by_shape(lambda s: s[0] == md.nodes[x].sh[1])
                        if y is None:
                            return None
                        a = [x, y]
                else:
                    a = [S(), S()]
            elif op == "div":
                a = [Mx() if mat else S(), S()]
                if mat and r.random() < 0.4:
                    y = by_shape(lambda s: s[0] == s[1] > 1)
                    x = y and (y if r.random() < 0.5 else by_shape(lambda s: s == md.nodes[y].sh))
                    if not x:
                        return None
                    return {"op": "mdiv", "a": [x, y]}
            elif op == "atan2":
                a = [S(), S()]
            elif op == "outer":
                x = by_shape(lambda s: s[1] == 1)
                y = x and by_shape(lambda s: s == md.nodes[x].sh)
                if None in (x, y):
                    return None
                a = [x, y]
            elif op == "solve":
                x = by_shape(lambda s: s[0] == s[1] > 1)
                y = x and by_shape(lambda s: s == (md.nodes[x].sh[0], 1))
                if not y:
                    return None
                a = [x, y]
            else:
                if mat:
                    x = Mx()
                    y = by_shape(lambda s: s == md.nodes[x].sh)
                else:
                    x, y = S(False), S(False)
                c = r.choice("<>" if r.random() < 0.85 else "=")
                l = S(False)
                rr = l if (c == "=" and r.random() < 0.5) else S(False)
                return {"op": "if", "a": [l, rr, x, y], "x": c}
            if all(isinstance(q, dict) for q in a):
                return None
            return {"op": op, "a": a}
        if z < 0.70:
            # a matrix from scalars
            sh = r.choice([(2, 1), (3, 1), (2, 2), (3, 3), (2, 3), (3, 2)])
            return {"op": "mat", "a": [S() for _ in range(sh[0] * sh[1])], "x": list(sh)}
        if z < 0.72:
            if r.random() < 0.5:
                return {"op": "eye", "x": r.choice([[2, 2], [3, 3]])}
            return {"op": "zeros", "x": r.choice([[2, 2], [3, 3], [3, 1], [2, 1], [2, 3]])}
        op = r.choice(unw)
        if op == "tr":
            a, x = [Mx()], None
        elif op == "skew":
            m = by_shape(lambda s: s == (3, 1))
            a, x = [m], None
        elif op == "elem":
            m = Mx()
            sh = md.nodes[m].sh
            a, x = [m], [r.randrange(sh[0]), r.randrange(sh[1])]
        elif op == "slice":
            m = by_shape(lambda s: s[0] > 1)
            if m is None:
                return None
            sh = md.nodes[m].sh
            r0 = r.randint(0, sh[0] - 2)
            r1 = r.randint(r0 + 2, sh[0])
            c0 = r.randint(0, sh[1] - 1)
            c1 = r.randint(c0 + 1, sh[1])
            a, x = [m], [r0, r1, c0, c1]
        elif op == "scalar":
            m = by_shape(lambda s: s[1] == 1)
            if m is None:
                return None
            k = by_shape(lambda s: s == md.nodes[m].sh)
            return {"op": "dot", "a": [m, k]}
        elif op == "inv":
            m = by_shape(lambda s: s[0] == s[1] > 1)
            if m is None:
                return None
            a, x = [m], None
        elif op == "pow":
            if mat and r.random() < 0.3:
                m = by_shape(lambda s: s[0] == s[1] > 1)
                if m is None:
                    return None
                a, x = [m], r.choice([1, 2, 3, 2, 3, -1, -2])
            else:
                a, x = [S(False)], r.choice([2, 3, -1, 0.5, 1, -2, 2, 4, -0.5, 0])
        elif op == "neg":
            a, x = [Mx() if mat else S(False)], None
        else:
            a, x = [S(False)], None
        st = {"op": op, "a": a}
        if x is not None:
            st["x"] = x
        return st

    queue, made = [], []

    def fold(op, leaves, order):
        """op over the leaves, as a list of step functions; the result is the last one made"""
        seq = [lambda m: {"op": op, "a": [leaves[order[0]], leaves[order[1]]]}]
        for k in order[2:]:
            seq.append(lambda m, k=k: {"op": op, "a": [m[-1], leaves[k]] if k % 2 else [leaves[k], m[-1]]})
        return seq

    def twins():
        """two expressions that differ in one leaf only (or in the order of their leaves), used in one expression: telling them
        apart, or finding out that they are equal, decides what they merge to"""
        kind = r.choice(["s", "s", "s", "m", "f2"])
        simp = lambda m: {"op": "simplify", "a": [m[-1]]}
        if kind == "s":
            n = r.choice([2, 3, 3, 4, 4])
            base = r.sample(bs, min(len(bs), 2)) if r.random() < 0.7 else [pick(pool_s, bs), pick(pool_s, bs)]
            l1 = [r.choice(base) for _ in range(n)]
            if r.random() < 0.2:
                l1[0] = {"c": gen_const(r)}
            l2 = list(l1)
            t = r.random()
            if t < 0.6:
                l2[r.randrange(n)] = r.choice(base)
            elif t < 0.8:
                r.shuffle(l2)
            f = r.choice(["mul", "mul", "add"])
        elif kind == "m":
            n = r.choice([2, 3])
            q = by_shape(lambda t: t[0] == t[1] > 1)
            q2 = q and by_shape(lambda t: t == md.nodes[q].sh)
            if not q2:
                return []
            base = [q, q2]
            l1 = [r.choice(base) for _ in range(n)]
            l2 = list(l1)
            if r.random() < 0.6:
                l2[r.randrange(n)] = r.choice(base)
            else:
                r.shuffle(l2)
            f = r.choice(["mul", "mul", "add"])
        else:
            x, y = pick(pool_s, bs), pick(pool_s, bs)
            l1, l2, n, f = [x, y], [y, x] if r.random() < 0.5 else [x, x], 2, r.choice(["atan2", "div", "sub"])
        order = list(range(n))
        sq1 = fold(f, l1, order)
        if r.random() < 0.3:
            r.shuffle(order)
        sq2 = fold(f, l2, order)
        mark = []
        keep = lambda m: mark.append(m[-1])
        un = []
        if kind != "m" and r.random() < 0.6:
            g = r.choice(["sin", "cos", "abs", "neg", "pow", "atan"])
            un = [lambda m: {"op": g, "a": [m[-1]], **({"x": 2} if g == "pow" else {})}]
        s1 = [simp] if r.random() < p_simplify + 0.3 else []
        seq = sq1 + s1 + un
        n1 = len(sq1) + len(un) - 1
        seq += sq2 + s1 + un
        comb = r.choice(["mul", "mul", "sub", "add"] + (["div"] if kind != "m" else []))
        seq += [lambda m: {"op": comb, "a": [m[n1], m[-1]]}, simp]
        return seq

    def late():
        """arguments whose kind shows only after simplification: (X + Y) - Y, -1 * X, X * 1, X + 0 with X a number, a matrix literal,
        a negation, a transpose, zero ..."""
        simp = lambda m: {"op": "simplify", "a": [m[-1]]}
        hide = r.choice(["addsub", "addsub", "minus", "minus2", "direct"])

        def hidden(x, kind):
            # steps whose last one has the value of x (or -x)
            if hide == "addsub":
                y = (pick(pool_s, bs) if kind == "s" else by_shape(lambda t: t == sh_of(x)))
                return [lambda m: {"op": "add", "a": [x(m) if callable(x) else x, y]}, lambda m: {"op": "sub", "a": [m[-1], y]}]
            if hide == "minus":
                return [lambda m: {"op": "mul", "a": [x(m) if callable(x) else x, {"c": -1}] if r.random() < 0.5 else
                                   [{"c": -1}, x(m) if callable(x) else x]}]
            if hide == "minus2":
                y = pick(pool_s, bs)
                return [lambda m: {"op": "mul", "a": [x(m) if callable(x) else x, y]}, lambda m: {"op": "neg", "a": [m[-1]]},
                        lambda m: {"op": "div", "a": [m[-1], y]}]
            return []
        shp = [None]

        def sh_of(x):
            return shp[0]
        if r.random() < 0.3:
            # a table of functions of numbers, each with a factor of its own
            c = lambda: {"c": r.choice([0, 0, 1, -1, 0.5, -0.5, 2, -2, 3, -0.25, 1.0, 4, -2.5])}
            seq, n = [], r.randint(3, 7)
            for _ in range(n):
                f = r.choice(["sin", "cos", "tan", "asin", "acos", "atan", "sign", "atan2", "atan2", "atan2", "if", "if"])
                k = 1 + (f == "atan2")
                st = ({"op": f, "a": [c() for _ in range(k)]} if f != "if" else
                      {"op": f, "a": [c(), c(), pick(pool_s, bs), c()], "x": r.choice("<>=")})
                seq += [lambda m, st=st: st, lambda m: {"op": "mul", "a": [m[-1], pick(pool_s, bs)]}]
            for k in range(1, n):
                seq += [lambda m, k=k: {"op": "add", "a": [m[1] if k == 1 else m[-1], m[2 * k + 1]]}]
            return seq + [simp]
        if r.random() < 0.5:
            f = r.choice(["sin", "cos", "tan", "asin", "acos", "atan", "sign", "abs", "neg", "pow", "atan2", "atan2", "atan2", "if", "div"])
            c = lambda: {"c": r.choice([0, 0, 1, -1, 0.5, -0.5, 2, -2, 3, -0.25, 1.0, 4, -2.5])}
            hide = r.choice(["addsub", "direct", "direct", "minus"])
            x, y = c(), c()
            if hide == "minus":
                x = pick(pool_s, bs)
            seq = hidden(x, "s")
            a = (lambda m: m[-1]) if seq else (lambda m: x)
            other = y if r.random() < 0.8 else pick(pool_s, bs)
            if f in ("atan2", "div"):
                seq += [lambda m: {"op": f, "a": [a(m), other] if r.random() < 0.5 or (isinstance(other, dict) and not other["c"]) else [other, a(m)]}]
            elif f == "if":
                seq += [lambda m: {"op": "if", "a": [a(m), other, pick(pool_s, bs), pick(pool_s, bs)], "x": r.choice("<>=")}]
            elif f in ("neg", "abs", "pow") and not seq:
                return []
            else:
                seq += [lambda m: {"op": f, "a": [a(m)], **({"x": r.choice([2, 3, -1, 0.5, -2, 0, 1])} if f == "pow" else {})}]
            seq += [simp] if r.random() < 0.7 else []
            seq += [lambda m: {"op": r.choice(["add", "mul", "sub"]), "a": [pick(pool_s, bs), m[-1]]}]
            return seq
        n = r.choice([2, 3])
        k = r.choice(["mat", "mat", "sym", "neg", "tr", "eye", "zeros", "inv"])
        f = r.choice(["inv", "inv", "pow", "pow", "tr", "mul", "solve", "outer", "skew", "elem", "slice", "dot", "div", "if", "neg"])
        col = f in ("outer", "skew", "dot")
        if f == "skew":
            n = 3
        sh = (n, 1) if col else (n, n)
        shp[0] = sh
        sym = by_shape(lambda t: t == sh)
        if not sym or (col and k in ("tr", "eye", "inv")):
            return []
        if k == "mat":
            seq = [lambda m: {"op": "mat", "a": [S() for _ in range(sh[0] * sh[1])], "x": list(sh)}]
        elif k == "neg":
            seq = [lambda m: {"op": "neg", "a": [sym]}]
        elif k in ("tr", "inv"):
            seq = [lambda m: {"op": k, "a": [sym]}]
        elif k in ("eye", "zeros"):
            seq = [lambda m: {"op": k, "x": list(sh)}]
        else:
            seq = []
        seq += hidden((lambda m: m[-1]) if seq else sym, "m")
        x = (lambda m: m[-1]) if seq else (lambda m: sym)
        y = by_shape(lambda t: t == sh)
        v = by_shape(lambda t: t == (n, 1))
        if f in ("inv", "tr", "skew", "neg"):
            seq += [lambda m: {"op": f, "a": [x(m)]}]
        elif f == "pow":
            e = r.choice([2, 3, -1, -2, -3, 0, 1])
            seq += [lambda m: {"op": f, "a": [x(m)], "x": e}]
        elif f in ("mul", "outer", "dot"):
            seq += [lambda m: {"op": f, "a": [x(m), y] if r.random() < 0.5 else [y, x(m)]}]
        elif f == "solve":
            seq += [lambda m: {"op": f, "a": [x(m), v]}]
        elif f == "elem":
            seq += [lambda m: {"op": f, "a": [x(m)], "x": [r.randrange(sh[0]), r.randrange(sh[1])]}]
        elif f == "slice":
            c0 = r.randrange(sh[1])
            seq += [lambda m: {"op": f, "a": [x(m)], "x": [0, sh[0], c0, r.randint(c0 + 1, sh[1])]}]
        elif f == "div":
            seq += [lambda m: {"op": f, "a": [x(m), S(False)]}]
        else:
            seq += [lambda m: {"op": "if", "a": [S(False), S(False), x(m), y], "x": r.choice("<>")}]
        seq += [simp] if r.random() < 0.8 else []
        return seq

    def compound():
        """like terms that differ in one number only: A*q + B*q, f(x,k)+f(x,l) - merging them wrongly is silent"""
        form = r.choice(["mm", "mm", "mm", "ss", "mv"])
        if r.random() < (0.6 if der else 0.2):
            form = "deep"
        if form == "deep":
            # a function of matrices that depend on the scalar symbols, brought back to scalars
            n = r.choice([2, 3])
            ent = lambda: S() if r.random() < 0.7 else pick(pool_s, bs)
            mk = lambda rows, cols: {"op": "mat", "a": [ent() for _ in range(rows * cols)], "x": [rows, cols]}
            seq = [lambda m: mk(n, n), lambda m: mk(n, 1)]
            k = r.choice(["solve", "solve", "inv", "pow", "mul", "skew", "outer", "if", "tr"])
            if k == "solve":
                seq += [lambda m: {"op": "solve", "a": [m[0], m[1]]}]
            elif k == "inv":
                seq += [lambda m: {"op": "inv", "a": [m[0]]}, lambda m: {"op": "mul", "a": [m[-1], m[1]]}]
            elif k == "pow":
                seq += [lambda m: {"op": "pow", "a": [m[0]], "x": r.choice([2, 3])}, lambda m: {"op": "mul", "a": [m[-1], m[1]]}]
            elif k == "skew" and n == 3:
                seq += [lambda m: {"op": "skew", "a": [m[1]]}, lambda m: {"op": "mul", "a": [m[-1], m[1]]},
                        lambda m: {"op": "mul", "a": [m[0], m[-1]]}]
            elif k == "outer":
                two, nt = r.choice([(0, 0), (1, 0), (0, 1), (1, 1), (1, 1)])
                sq = by_shape(lambda t: t == (n, n))
                seq += [lambda m: mk(n, 1)] + [lambda m: {"op": "mul", "a": [sq, m[1]]}, lambda m: {"op": "mul", "a": [sq, m[2]]}] * nt
                i, j = (1, 2) if not nt else (3, 4)
                seq += [lambda m: {"op": "outer", "a": [m[i], m[j if two else i]] if r.random() < 0.6 else [m[j], m[i if two else j]]},
                        lambda m: {"op": "mul", "a": [m[-1], m[1]]}]
            elif k == "if":
                seq += [lambda m: {"op": "mul", "a": [m[0], m[1]]},
                        lambda m: {"op": "if", "a": [S(False), S(False), m[1], m[-1]], "x": r.choice("<>")}]
            elif k == "tr":
                seq += [lambda m: {"op": "tr", "a": [m[0]]}, lambda m: {"op": "mul", "a": [m[-1], m[1]]}]
            else:
                seq += [lambda m: {"op": "mul", "a": [m[0], m[1]]}]
            seq += [lambda m: {"op": "dot", "a": [m[-1], m[1]] if r.random() < 0.5 else [m[1], m[-1]]}]
            if der:
                seq += [lambda m: {"op": "mat", "a": [m[-1], pick(pool_s, bs)], "x": [2, 1]}]
                if r.random() < 0.7:
                    seq += [lambda m: {"op": "jac", "a": [m[-1]], "x": r.sample(bs, min(len(bs), r.randint(2, 3)))}]
                else:
                    seq += [lambda m: {"op": "der", "a": [m[-2]]}]
            return seq
        z = r.random()
        if z < 0.3:
            return twins()
        if z < 0.6:
            return late()
        if r.random() < 0.25:
            # numbers that do not fit into an int, given or calculated
            b = lambda: {"c": r.choice(BIG + [3, -1, 50000, 1e6])}
            x = pick(pool_s, bs)
            f = r.choice(["mul", "mul", "add", "sub"])
            g = f if r.random() < 0.7 else r.choice(["mul", "add", "sub"])
            seq = [lambda m: {"op": f, "a": [x, b()] if r.random() < 0.5 else [b(), x]},
                   lambda m: {"op": g, "a": [m[-1], b()] if r.random() < 0.5 else [b(), m[-1]]}]
            if r.random() < 0.4:
                seq += [lambda m: {"op": "neg", "a": [m[-1]]}]
            if r.random() < 0.4:
                seq += [lambda m: {"op": "mat", "a": [m[-1], b(), b(), x], "x": r.choice([[2, 2], [4, 1]])},
                        lambda m: {"op": "mul", "a": [m[-1], b()]}]
            elif r.random() < 0.5:
                seq += [lambda m: {"op": r.choice(["add", "sub", "mul"]), "a": [m[-1], m[0]]}]
            return seq
        c1, c2 = gen_const(r), gen_const(r)
        if r.random() < 0.5:
            c1, c2 = round(r.uniform(-3, 3), 3), r.choice([1, 2, 3, -1, -2])
        if r.random() < 0.5:
            c1, c2 = c2, c1
        if form == "ss":
            x, y = pick(pool_s, bs), pick(pool_s, bs)
            f = r.choice(["atan2", "add"])
            return [lambda m: {"op": f, "a": [x, {"c": c1}]}, lambda m: {"op": f, "a": [y if r.random() < 0.3 else x, {"c": c2}]},
                    lambda m: {"op": "mul", "a": [m[0], y]}, lambda m: {"op": "mul", "a": [m[1], y]},
                    lambda m: {"op": r.choice(["add", "sub"]), "a": [m[2], m[3]]}]
        sh = r.choice([(2, 2), (3, 3), (2, 3), (3, 2)])
        k = sh[0] * sh[1]
        e = [gen_const(r) for _ in range(k)]
        pos = r.randrange(k)
        e1, e2 = list(e), list(e)
        e1[pos], e2[pos] = c1, c2
        o = r.choice(["add", "sub", "sub"])
        build = [lambda m: {"op": "mat", "a": [{"c": x} for x in e1], "x": list(sh)},
                 lambda m: {"op": "mat", "a": [{"c": x} for x in e2], "x": list(sh)}]
        if form == "mm":
            q = by_shape(lambda t: t[0] == sh[1])
            q2 = by_shape(lambda t: t == md.nodes[q].sh) if q and r.random() < 0.4 else q
            return build + [lambda m: {"op": "mul", "a": [m[0], q]}, lambda m: {"op": "mul", "a": [m[1], q2]},
                            lambda m: {"op": o, "a": [m[2], m[3]]}]
        x = S(False)
        return build + [lambda m: {"op": "mul", "a": [m[0], x]}, lambda m: {"op": "mul", "a": [m[1], x]},
                        lambda m: {"op": o, "a": [m[2], m[3]]}]

    tries = 0
    while len(steps) < length and tries < length * 12:
        tries += 1
        if not queue and r.random() < 0.1 and len(steps) < length - 5:
            queue, made = compound(), []
        forced = bool(queue)
        st = queue.pop(0)(made) if forced else one()
        if st is None or None in st.get("a", ()):
            queue = []
            continue
        op = st["op"]
        if op in ("simplify", "str", "atoms", "shape", "churn"):
            steps.append(st)
            continue
        if op == "del":
            k = st["a"][0]
            pool_s.remove(k)
            steps.append(st)
            continue
        ids = [x for x in st["a"]] if "a" in st else []
        ids = [x for x in ids if not isinstance(x, dict)]
        if forced and any(i not in md.nodes for i in ids):
            queue = []
            continue
        if op == "setitem":
            m = st["a"][0]
            n = md.nodes[m]
            k = st["x"][0] * n.sh[1] + st["x"][1]
            args = list(n.a)
            args[k] = md.arg(st["a"][1])
            if any(i in hasder for i in ids[1:]):
                continue
            nn = ref.N("mat", args, n.x, n.sh, "m")
            try:
                md.values(nn)
            except ref.Dom:
                continue
            md.nodes[m] = nn
            steps.append(st)
            continue
        if op in ("der", "jac") and any(i in hasder for i in ids):
            continue
        if op == "dot":
            node = ref.mk("scalar", [ref.mk("mul", [ref.mk("tr", [md.nodes[st["a"][0]]]), md.nodes[st["a"][1]]])])
        else:
            node = md.build(st)
        if node.size > max_size or not principal(node):
            queue = []
            continue
        try:
            md.values(node)
        except ref.Dom:
            queue = []
            continue
        st["id"] = "t%d" % nid[0]
        nid[0] += 1
        made.append(st["id"])
        md.nodes[st["id"]] = node
        if op == "mat":
            mats.append(st["id"])
        if op in ("der", "jac") or any(i in hasder for i in ids):
            hasder.add(st["id"])
        (pool_s if node.kind == "s" else pool_m).append(st["id"])
        steps.append(st)
        if r.random() < p_simplify * 0.5:
            steps.append({"op": "simplify", "a": [st["id"]]})
    return steps, md


# ------------------------------------------------------------------ the real half
def namespace(env):
    ns = {}
    for n in ("sin", "cos", "tan", "zeros", "eye", "matrix", "array"):
        ns[n] = getattr(np, n)
    ns["abs"], ns["sign"] = abs, lambda v: np.sign(v) * 1.0
    ns["asin"], ns["acos"], ns["atan"], ns["atan2"] = np.arcsin, np.arccos, np.arctan, np.arctan2
    ns["arcsin"], ns["arccos"], ns["arctan"], ns["arctan2"] = np.arcsin, np.arccos, np.arctan, np.arctan2
    ns["sqrt"], ns["linalg"], ns["float"] = np.sqrt, np.linalg, float
    for n, (sh, kind) in SYMS.items():
        S = env.v[n]
        ns[n] = float(S[0][0, 0]) if kind == "s" else np.matrix(S[0])
        ns["der_" + n] = float(S[1][0, 0]) if kind == "s" else np.matrix(S[1])
    return ns


class Real:
    def __init__(self, ctx, seed):
        import pymbs.symbolics as sy
        self.sy = sy
        self.ctx = ctx
        self.obj = {}
        for n, (sh, kind) in SYMS.items():
            self.obj[n] = sy.Symbol(n) if kind == "s" else sy.Symbol(n, (sh[0],) if sh[1] == 1 else sh)
        self.md = Model(seed)
        self.ns = [namespace(e) for e in self.md.envs]
        self.live = []

    def arg(self, a):
        return a["c"] if isinstance(a, dict) else self.obj[a]

    def ready(self, st):
        return all(isinstance(a, dict) or a in self.obj for a in st.get("a", ()))

    def apply(self, st):
        sy, op, x = self.sy, st["op"], st.get("x")
        a = [self.arg(q) for q in st.get("a", ())]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op in ("div", "mdiv"):
            return a[0] / a[1]
        if op == "pow":
            return a[0] ** x
        if op == "neg":
            return -a[0]
        if op == "abs":
            return abs(a[0])
        if op in ("sin", "cos", "tan", "asin", "acos", "atan", "sign", "skew", "inv", "der"):
            return getattr(sy, op)(a[0])
        if op == "tr":
            return sy.transpose(a[0])
        if op in ("atan2", "outer", "solve"):
            return getattr(sy, op)(a[0], a[1])
        if op == "if":
            return sy.If({"<": sy.Less, ">": sy.Greater, "=": sy.Equal}[x](a[0], a[1]), a[2], a[3])
        if op == "elem":
            sh = self.md.nodes[st["a"][0]].sh
            return a[0][x[0]] if sh[1] == 1 else a[0][x[0], x[1]]
        if op == "slice":
            sh = self.md.nodes[st["a"][0]].sh
            if sh[1] == 1:
                return a[0][x[0]:x[1]]
            if x[3] == x[2] + 1:
                return a[0][x[0]:x[1], x[2]]
            return a[0][x[0]:x[1], x[2]:x[3]]
        if op == "dot":
            return sy.scalar(sy.transpose(a[0]) * a[1])
        if op == "mat":
            r, c = x
            if c == 1:
                return sy.Matrix(a)
            return sy.Matrix([[a[i * c + j] for j in range(c)] for i in range(r)])
        if op == "eye":
            return sy.eye(x[0]) if x[0] == 3 else sy.eye(tuple(x))
        if op == "zeros":
            return sy.zeros(tuple(x) if x[1] > 1 else (x[0],))
        if op == "jac":
            return sy.jacobian(a[0], sy.Matrix([self.obj[n] for n in x]))
        raise KeyError(op)

    def check(self, k, when):
        """the value of expression k equals the reference"""
        ctx, node, o = self.ctx, self.md.nodes[k], self.obj[k]
        txt = str(o)
        ctx.log("val", k, txt)
        for i, env in enumerate(self.md.envs):
            S, mag = env(node)
            want = S[0]
            try:
                got = eval(txt, dict(self.ns[i]))
            except Exception as e:
                ctx.violate("unprintable", "%s: %s cannot be evaluated: %s: %s" % (when, k, txt[:300], e))
            if isinstance(got, str):
                ctx.violate("unprintable", "%s: %s prints as %s" % (when, k, txt[:300]))
            g = np.asarray(got, dtype=float)
            if g.ndim == 0:
                g = g.reshape(1, 1)
            if g.shape != want.shape and not (node.kind == "s" and g.size == 1):
                ctx.violate("shape", "%s: %s = %s has shape %s, expected %s" % (when, k, txt[:300], g.shape, want.shape))
            g = g.reshape(want.shape)
            tol = 1e-9 * (1 + mag) + 1e-9 * mag * mag * 0.01
            P = env.poly(node) if mag > ref.BIG else None
            if P is not None:
                tol = 1e-12 * P + 1e-12
            if not np.all(np.abs(g - want) <= tol):
                ctx.violate("value", "%s: %s = %s evaluates to %s, expected %s" % (
                    when, k, txt[:400], np.array2string(g, precision=8), np.array2string(want, precision=8)))

    def check_shape(self, k):
        o, node = self.obj[k], self.md.nodes[k]
        if isinstance(o, (int, float)):
            return
        s = o.shape()
        w = node.sh
        ok = {(): (1, 1)}.get(s, s)
        if len(ok) == 1:
            ok = (ok[0], 1)
        if ok != w and not (w[0] == 1 and ok == (w[1], 1)) and not (w == (1, 1)):
            self.ctx.violate("shape", "%s reports shape %s, expected %s" % (k, s, w))


def run_program(plan, ctx, light=False):
    real = Real(ctx, plan["seed"])
    md = real.md
    ctx.heap()
    junk = []
    for i, st in enumerate(plan["steps"]):
        ctx.step = i
        op = st["op"]
        if not real.ready(st):
            continue
        ctx.count("op " + op)
        if op == "churn":
            for _ in range(st["x"]):
                junk.append(real.obj["a"] + real.obj["b"] * len(junk))
            continue
        k = st["a"][0] if st.get("a") else None
        if op == "simplify":
            o = real.obj[k]
            if isinstance(o, (int, float)):
                continue
            o.simplify()
            ctx.log(i, "simplify", k)
            ctx.nontrivial()
            ctx.count("checks after in-place simplify")
            for j in real.live:
                if j in real.obj:
                    real.check(j, "after step %d (simplify %s)" % (i, k))
            continue
        if op in ("str", "atoms", "shape"):
            o = real.obj[k]
            if isinstance(o, (int, float)):
                continue
            str(o) if op == "str" else (o.atoms() if op == "atoms" else real.check_shape(k))
            continue
        if op == "del":
            del real.obj[k]
            real.live.remove(k)
            gc.collect(0)
            continue
        if op == "setitem":
            m = real.obj[k]
            n = md.nodes[k]
            r, c = st["x"]
            if n.sh[1] == 1:
                m[r] = real.arg(st["a"][1])
            else:
                m[r, c] = real.arg(st["a"][1])
            args = list(n.a)
            args[r * n.sh[1] + c] = md.arg(st["a"][1])
            md.nodes[k] = ref.N("mat", args, n.x, n.sh, "m")
            for j in real.live:
                if j in real.obj:
                    real.check(j, "after step %d (set element of %s)" % (i, k))
            continue
        if op == "dot":
            node = ref.mk("scalar", [ref.mk("mul", [ref.mk("tr", [md.nodes[st["a"][0]]]), md.nodes[st["a"][1]]])])
        else:
            node = md.build(st)
        try:
            md.values(node)
        except ref.Dom:      # only after minimisation removed a step
            continue
        o = real.apply(st)
        md.nodes[st["id"]] = node
        real.obj[st["id"]] = o
        real.live.append(st["id"])
        ctx.log(i, op, st["id"])
        ctx.state(op, tuple(md.nodes[x].op if not isinstance(x, dict) else "c" for x in st.get("a", ())))
        real.check(st["id"], "step %d (%s)" % (i, op))
        real.check_shape(st["id"])
    for j in real.live:
        real.check(j, "at the end")
    if len(plan["steps"]) > 3:
        ctx.nontrivial()
    n, msg = ctx.shim.heap_bad()
    if n:
        ctx.violate("heap", "memory error: %s" % msg)
