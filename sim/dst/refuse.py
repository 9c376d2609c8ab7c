"""Operations that must be refused, and values that may be refused, over the expression API (used by C03)."""
from . import ref
from .exprprog import SYMS


class Opaque:
    """something that is no expression"""


WRONG = {"none": lambda: None, "str": lambda: "x", "complex": lambda: 1j, "list": lambda: [1], "object": Opaque, "dict": dict,
         "bytes": lambda: b"a", "type": lambda: int, "tuple": lambda: ()}
BADDIM = [[-1], [0], [-1, -1], [2, -2], [-2, 2], [0, 2], [2, 0], [2 ** 40], [2 ** 70], [2, 2 ** 63], [5, 2, 2], [2, 2, 2, 2], ["x"], [2, None], [1.5]]
FUNCS1 = ["sin", "cos", "tan", "asin", "acos", "atan", "sign", "skew", "inv", "der", "transpose", "scalar"]
FUNCS2 = ["atan2", "outer", "solve", "Less", "Greater", "Equal", "element", "jacobian"]


def gen_bad(r, md, ids):
    """a must-refuse step over the expressions `ids`, or None"""
    mats = [i for i in ids if md.nodes[i].kind == "m" and md.nodes[i].sh[0] > 1]
    scs = [i for i in ids if md.nodes[i].kind == "s"]
    if not mats or not scs:
        return None
    sh = lambda i: md.nodes[i].sh

    def M(pred=lambda s: True):
        c = [i for i in mats if pred(sh(i))]
        return r.choice(c) if c else None
    s = r.choice(scs)
    k = r.choice(["add", "sub", "mul", "mul", "outer", "solve", "skew", "scalar", "inv", "pow", "vpow", "div", "atan2", "if", "less", "jac",
                  "index", "index", "slice", "indextype", "del", "set", "set", "setindex", "settype", "type", "type", "argc", "dim", "ragged",
                  "uninit", "norm", "exponent", "kw", "iter", "setscalar", "number"])
    st = {"op": "bad", "k": k, "a": []}
    a, x = [], None
    if k in ("add", "sub"):
        p = M()
        a = [p, M(lambda t: t != sh(p))]
    elif k == "mul":
        p = M()
        a = [p, M(lambda t: t[0] != sh(p)[1])]
    elif k == "outer":
        z = r.random()
        p = M(lambda t: t[1] == 1)
        a = [p, M(lambda t: t != sh(p))] if z < 0.5 and p else ([s, M()] if z < 0.75 else [M(lambda t: t[1] > 1), M()])
    elif k == "solve":
        if r.random() < 0.5:
            p = M(lambda t: t[0] == t[1])
            a = [p, p and M(lambda t: t[0] != sh(p)[0])]
        else:
            a = [M(lambda t: t[0] != t[1]), M()]
    elif k == "skew":
        a = [r.choice(["a", M(lambda t: t != (3, 1))])]        # (the scalar zero stands for the zero vector)
    elif k == "scalar":
        a = [M()]
    elif k in ("inv", "pow"):
        a = [M(lambda t: t[0] != t[1])]
        x = r.choice([2, -1, 0, 3, 0.5, -2]) if k == "pow" else None
    elif k == "vpow":
        a = [M(lambda t: t[1] == 1)]
        x = r.choice([2, -1, 3])
    elif k == "div":
        a = [r.choice([s, M()]), M(lambda t: t[0] != t[1])]
    elif k == "atan2":
        a = [M(), s] if r.random() < 0.5 else [s, M()]
    elif k == "if":
        p = M()
        a = [s, r.choice(scs), p, r.choice([s, M(lambda t: t != sh(p))])]
    elif k == "less":
        p = M()
        a = [p, r.choice([s, M(lambda t: t != sh(p))])]
        x = r.choice(["Less", "Greater", "Equal"])
    elif k == "jac":
        a = [s, M(lambda t: t[1] > 1)] if r.random() < 0.5 else [M(lambda t: t[1] > 1), s]
    elif k == "index":
        p = M()
        n = sh(p)
        big = r.choice([n[0], n[0] + 1, 7, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63, 2 ** 70, -2 ** 31 - 1, -2 ** 40, -2 ** 70, -7])
        bigc = r.choice([n[1], n[1] + 1, 7, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63, 2 ** 70, -7, -2 ** 40, -2 ** 70])
        a = [p]
        x = [{"i": max(big, n[0] * n[1]) if big > 0 else big}] if r.random() < 0.3 else (
            [{"i": big}, {"i": r.randrange(n[1])}] if r.random() < 0.5 else [{"i": r.randrange(n[0])}, {"i": bigc}])
    elif k == "slice":
        p = M()
        n = sh(p)
        a = [p]
        # (start, stop, step); an empty selection is no matrix
        bad = r.choice([[0, 2, 0], [None, None, 0], [1, 1, None], [n[0], n[0], None], [n[0] + 3, n[0] + 5, None]])
        x = [{"s": bad}] if n[1] == 1 else ([{"s": bad}, {"i": 0}] if r.random() < 0.5 else [{"i": 0}, {"s": [1, 1, None]}])
    elif k == "indextype":
        a = [M()]
        x = r.choice([[{"w": "none"}], [{"w": "str"}], [{"w": "object"}], [{"w": "tuple"}], [{"i": 0}, {"i": 0}, {"i": 0}], [{"i": 0}, {"w": "str"}],
                      [{"w": "complex"}, {"i": 0}]])
    elif k == "del":
        a = [r.choice([s, M()])]
        x = r.choice([[{"i": 0}], [{"i": 0}, {"i": 0}], [{"i": 9}], [{"s": [0, 1, None]}]])
    elif k in ("set", "setindex", "settype", "setscalar"):
        z = [i for i in mats if md.nodes[i].op == "mat"] if k != "setscalar" else [i for i in scs if i in SYMS]
        if not z:
            return None
        p = r.choice(z)
        n = sh(p)
        a = [p]
        if k == "set":
            if r.random() < 0.6:
                a += [M()]
                x = [{"i": r.randrange(n[0])}, {"i": r.randrange(n[1])}]
            else:
                a += [M(lambda t: t[0] != n[0])]
                x = [{"s": [None, None, None]}, {"i": 0}]
        elif k == "setindex":
            a += [s]
            x = r.choice([[{"i": n[0]}, {"i": 0}], [{"i": 0}, {"i": n[1]}], [{"i": 2 ** 40}, {"i": 0}], [{"i": n[0] * n[1]}], [{"i": -2 ** 40}], [{"i": 0}, {"i": 2 ** 70}],
                          [{"w": "str"}], [{"w": "none"}]])
        elif k == "settype":
            x = [{"i": 0}, {"i": 0}, {"v": r.choice(list(WRONG))}]
        else:
            a += [s]
            x = [{"i": 0}]
    elif k == "type":
        a = [r.choice([s, M()])]
        x = [r.choice(["+", "-", "*", "/", "r+", "r-", "r*", "r/"] + FUNCS1 + FUNCS2 + ["Matrix", "If", "Number"]), r.choice(list(WRONG))]
        if x[0] == "Matrix" and x[1] in ("list", "tuple", "dict"):
            return None
    elif k == "argc":
        a = [s]
        x = [r.choice(FUNCS1 + FUNCS2 + ["If", "Symbol"]), r.choice([0, 4, 7])]
    elif k == "dim":
        x = [r.choice(["Symbol", "zeros", "eye", "Matrix"]), r.choice(BADDIM)]
    elif k == "ragged":
        a = [s, r.choice(scs), M()]
        x = r.choice(["[[a],[a,b]]", "[a,[b]]", "[None]", "['x']", "[[a,'x']]", "[[]]", "[]", "[[a,b],[None,b]]", "[[a,b],a]", "[[a,m],[b,b]]"])
        if x in ("[a,[b]]", "[[a,b],a]"):
            return None
    elif k == "uninit":
        a = [r.choice([s, M()])]
        x = r.choice(["str", "shape", "simplify", "len", "add", "radd", "getitem", "atoms", "norm", "neg", "sin", "pow", "set", "mat"])
    elif k == "norm":
        a = [r.choice([i for i in scs + [q for q in mats if sh(q)[1] > 1] if i in SYMS])]
    elif k == "exponent":
        a = [s, s]
        x = r.choice(["sym", "none", "str", "huge", "neghuge", "mod", "rpow"])
    elif k == "kw":
        a = [s]
        x = r.choice(["sin", "solve", "Symbol", "Matrix", "der"])
    elif k == "iter":
        a = [r.choice(list(SYMS))]
        x = r.choice(["float", "int", "lt", "call", "attr", "index", "hashnew"])
    elif k == "number":
        x = r.choice(["none", "str", "list", "none2"])
    if None in a:
        return None
    st["a"] = a
    if x is not None:
        st["x"] = x
    return st


def index(x):
    out = []
    for i in x:
        if "i" in i:
            out.append(i["i"])
        elif "s" in i:
            out.append(slice(*i["s"]))
        elif "w" in i:
            out.append(WRONG[i["w"]]())
    return out[0] if len(out) == 1 else tuple(out)


def run_bad(real, st):
    """performs the operation; whatever it returns is returned"""
    sy, k, x = real.sy, st["k"], st.get("x")
    a = [real.obj[i] for i in st["a"]]
    if k == "add":
        return a[0] + a[1]
    if k == "sub":
        return a[0] - a[1]
    if k == "mul":
        return a[0] * a[1]
    if k in ("outer", "solve", "atan2"):
        return getattr(sy, k)(a[0], a[1])
    if k in ("skew", "scalar", "inv"):
        return getattr(sy, k)(a[0])
    if k in ("pow", "vpow"):
        return a[0] ** x
    if k == "div":
        return a[0] / a[1]
    if k == "if":
        return sy.If(sy.Less(a[0], a[1]), a[2], a[3])
    if k == "less":
        return getattr(sy, x)(a[0], a[1])
    if k == "jac":
        return sy.jacobian(a[0], a[1])
    if k in ("index", "slice", "indextype"):
        return a[0][index(x)]
    if k == "del":
        del a[0][index(x)]
        return None
    if k in ("set", "setindex", "setscalar"):
        a[0][index(x)] = a[1]
        return None
    if k == "settype":
        a[0][index(x[:2])] = WRONG[x[2]["v"]]()
        return None
    if k == "type":
        f, w = x[0], WRONG[x[1]]()
        v = a[0]
        if f in ("+", "-", "*", "/"):
            return {"+": lambda: v + w, "-": lambda: v - w, "*": lambda: v * w, "/": lambda: v / w}[f]()
        if f[0] == "r":
            return {"+": lambda: w + v, "-": lambda: w - v, "*": lambda: w * v, "/": lambda: w / v}[f[1]]()
        if f == "Matrix":
            return sy.Matrix([v, w])
        if f == "If":
            return sy.If(w, v, v)
        if f == "Number":
            return sy.Number(w)
        if f in FUNCS1:
            return getattr(sy, f)(w)
        return getattr(sy, f)(v, w)
    if k == "argc":
        if x[0] == "Symbol" and x[1] == 7:
            return sy.Symbol(1, 2, 3, 4, 5, 6, 7)
        return getattr(sy, x[0])(*([a[0]] * x[1]))
    if k == "dim":
        d = tuple(x[1])
        if x[0] == "Symbol":
            return sy.Symbol("n", d)
        if x[0] == "eye" and len(d) == 2 and d[0] == d[1]:
            return sy.eye(d)
        return getattr(sy, x[0])(d)
    if k == "ragged":
        return sy.Matrix(eval(x, {"a": a[0], "b": a[1], "m": a[2]}))
    if k == "uninit":
        t = type(a[0])
        n = t.__new__(t)
        return {"str": lambda: str(n), "shape": lambda: n.shape(), "simplify": lambda: n.simplify(), "len": lambda: len(n), "add": lambda: a[0] + n,
                "radd": lambda: n + a[0], "getitem": lambda: n[0], "atoms": lambda: n.atoms(), "norm": lambda: n.norm(), "neg": lambda: -n,
                "sin": lambda: sy.sin(n), "pow": lambda: n ** 2, "set": lambda: n.__setitem__(0, 1), "mat": lambda: sy.Matrix([n, 1])}[x]()
    if k == "norm":
        return a[0].norm()
    if k == "exponent":
        if x == "mod":
            return pow(a[0], 2, 3)
        if x == "rpow":
            return 2 ** a[0]
        return a[0] ** {"sym": a[1], "none": None, "str": "2", "huge": 10 ** 400, "neghuge": -10 ** 400}[x]
    if k == "kw":
        return getattr(sy, x)(wrong=a[0])
    if k == "iter":
        return {"float": lambda: float(a[0]), "int": lambda: int(a[0]), "lt": lambda: a[0] < a[0], "call": lambda: a[0](), "attr": lambda: a[0].nothing,
                "index": lambda: [1, 2][a[0]], "hashnew": lambda: hash(type(a[0]).__new__(type(a[0])))}[x]()
    if k == "number":
        return sy.Number({"none": None, "str": "3", "list": [3], "none2": sy}[x])
    raise KeyError(k)


def gen_maybe(r, md, ids):
    """a step that may be refused; if it is not, its value is the one Python's conventions give it"""
    mats = [i for i in ids if md.nodes[i].kind == "m" and md.nodes[i].sh[0] > 1]
    scs = [i for i in ids if md.nodes[i].kind == "s"]
    if not mats or not scs:
        return None
    k = r.choice(["neg", "neg", "beyond", "step", "num", "num", "reverse"])
    p = r.choice(mats)
    n = md.nodes[p].sh
    if k == "neg":
        i, j = r.randrange(n[0]), r.randrange(n[1])
        return {"op": "maybe", "k": "index", "a": [p], "x": [i - n[0] if r.random() < 0.7 else i, j - n[1] if r.random() < 0.7 else j]}
    if k in ("beyond", "step", "reverse"):
        lo = r.randrange(n[0])
        sl = {"beyond": [lo, n[0] + r.randint(1, 5), None], "step": [None, None, r.choice([1, 2])], "reverse": [None, None, -1]}[k]
        return {"op": "maybe", "k": "slice", "a": [p], "x": sl}
    return {"op": "maybe", "k": "num", "a": [r.choice(scs)],
            "x": [r.choice(["+", "*", "r+", "r*"]), r.choice(["np.int64(3)", "np.float64(2.5)", "np.float32(0.5)", "True", "False", "Fraction(1, 4)", "np.int32(-2)", "2**62", "Decimal('0.5')",
                                                               "np.array(2.0)"])]}


def run_maybe(real, st):
    """(object, reference node) of the accepted operation"""
    import numpy as np
    from fractions import Fraction
    from decimal import Decimal
    o, node = real.obj[st["a"][0]], real.md.nodes[st["a"][0]]
    x = st["x"]
    if st["k"] == "index":
        i, j = x
        v = o[i] if node.sh[1] == 1 else o[i, j]
        return v, ref.N("elem", [node], (i % node.sh[0], j % node.sh[1]), (1, 1), "s")
    if st["k"] == "slice":
        rows = list(range(node.sh[0]))[slice(*x)]
        v = o[slice(*x)] if node.sh[1] == 1 else o[slice(*x), 0]
        el = [ref.N("elem", [node], (q, 0), (1, 1), "s") for q in rows]
        return v, ref.N("mat", el, None, (len(el), 1), "m")
    w = eval(x[1], {"np": np, "Fraction": Fraction, "Decimal": Decimal})
    c = ref.const(float(w))
    f = x[0]
    v = {"+": lambda: o + w, "*": lambda: o * w, "r+": lambda: w + o, "r*": lambda: w * o}[f]()
    return v, ref.mk("add" if f[-1] == "+" else "mul", [node, c])
