"""Execution of the generated Fortran (gfortran), C (gcc), Matlab and Modelica (interpreters below) programs"""
import ctypes
import os
import re
import subprocess
import numpy as np


class Refused(Exception):
    """the generator said that it cannot express the model in this language"""


def errtext(t):
    """the error lines of a compiler first, then the start of its message"""
    return " ".join(x for x in t.splitlines() if "rror" in x)[:300] + " | " + t[:400]


class Broken(Exception):
    """the generated program is not a valid program"""


PARTS = ("der_state", "sensors", "visual")


def _files(d, name, ext):
    out = {}
    for p in PARTS:
        f = os.path.join(d, "%s_%s.%s" % (name, p, ext))
        if os.path.exists(f):
            out[p] = open(f, encoding="latin-1").read()
            if "Error:" in out[p]:
                raise Refused(re.search(r"Error:[^\n]*", out[p]).group(0)[:120])
    return out


def _col(v, sh):
    """value of a declared shape as 2-d array"""
    a = np.asarray(v, dtype=float)
    return a.reshape(sh if len(sh) == 2 else (-1, 1)) if sh else a.reshape(1, 1)


# ------------------------------------------------------------------ Fortran
class F90:
    ext = "f90"

    def __init__(self, d, name, decl):
        self.files = _files(d, name, "f90")
        self.decl, self.name = decl, name
        src = [os.path.join(d, "functionmodule.f90")] + [os.path.join(d, "%s_%s.f90" % (name, p)) for p in self.files]
        so = os.path.join(d, "f.so")
        p = subprocess.run(["gfortran", "-O0", "-w", "-fcheck=bounds", "-ffree-line-length-none", "-shared", "-fPIC", "-J", d, "-o", so] + src,
                           capture_output=True, text=True)
        if p.returncode:
            raise Broken(errtext(p.stderr))
        self.lib = ctypes.CDLL(so)
        self.sig = {}
        for part, text in self.files.items():
            t = re.sub(r"&\s*\n\s*", " ", text)
            m = re.search(r"subroutine\s+\w+\(([^)]*)\)", t)
            args = [a.strip() for a in m.group(1).split(",") if a.strip()]
            dims = {}
            for l in t.splitlines():
                k = re.match(r"\s*double precision(.*?)::\s*(\w+)", l)
                if k and k.group(2) in args:
                    s = re.search(r"dimension\((\d+),(\d+)\)", k.group(1))
                    dims[k.group(2)] = (tuple(int(x) for x in s.groups()) if s else None, "out" in k.group(1))
            self.sig[part] = (args, dims)

    def _call(self, part, t, y, u):
        args, dims = self.sig[part]
        arrs = {}
        for a in args:
            sh, out = dims[a]
            v = np.zeros(sh or (1, 1), dtype=float, order="F")
            if a == "time":
                v[:] = t
            elif a == "y":
                v[:] = np.array(y).reshape(sh)
            elif not out:
                v[:] = _col(u[a] if self.decl[a]["sh"] else u[a][0], self.decl[a]["sh"])
            arrs[a] = v
        f = getattr(self.lib, "%s_%s_" % (self.name, part))
        f(*[arrs[a].ctypes.data_as(ctypes.c_void_p) for a in args])
        return {a: arrs[a] for a in args if dims[a][1]}

    def der_state(self, t, y, u):
        return self._call("der_state", t, y, u)["yd"].reshape(-1)

    def sensors(self, t, y, u):
        return self._call("sensors", t, y, u)

    def visual(self, t, y, u):
        return self._call("visual", t, y, u)


# ------------------------------------------------------------------ C
class C:
    ext = "c"

    def __init__(self, d, name, decl):
        self.files = _files(d, name, "c")
        self.decl, self.name, self.lib, self.sig = decl, name, {}, {}
        for part in self.files:
            so = os.path.join(d, "c_%s.so" % part)
            p = subprocess.run(["gcc", "-std=c99", "-O0", "-w", "-fwrapv", "-D__declspec(x)=", "-shared", "-fPIC", "-o", so,
                                os.path.join(d, "%s_%s.c" % (name, part)), "-lm"], capture_output=True, text=True, cwd=d)
            if p.returncode:
                raise Broken(errtext(p.stderr))
            self.lib[part] = ctypes.CDLL(so)
            m = re.search(r"int\s+%s_%s\((.*?)\)\s*\{" % (name, part), self.files[part], re.S)
            out = []
            for a in m.group(1).split(","):
                a = a.strip()
                k = re.match(r"double\s*(\*?)\s*(\w+)((?:\[\d+\])*)$", a)
                if not k:
                    raise Broken("parameter %r" % a)
                dims = tuple(int(x) for x in re.findall(r"\[(\d+)\]", k.group(3)))
                out.append((k.group(2), bool(k.group(1)), dims))
            self.sig[part] = out

    def _call(self, part, t, y, u):
        args, res, keep = [], {}, []
        for n, ptr, dims in self.sig[part]:
            if n == "time":
                args.append(ctypes.c_double(t))
            elif n == "y":
                v = np.array(y, dtype=float)
                keep.append(v)
                args.append(v.ctypes.data_as(ctypes.c_void_p))
            elif n == "yd":
                v = np.zeros(len(y))
                res[n] = v
                args.append(v.ctypes.data_as(ctypes.c_void_p))
            elif n in u and self.decl[n]["k"] == "input":
                if dims:
                    v = np.array(u[n], dtype=float)
                    keep.append(v)
                    args.append(v.ctypes.data_as(ctypes.c_void_p))
                else:
                    args.append(ctypes.c_double(u[n][0]))
            else:
                base = n[:-4] if n.endswith("_out") and n[:-4] in self.decl else n
                v = np.full(dims or (1,), np.nan)
                res[base] = v
                if not dims and not ptr:    # passed by value: nothing can come back
                    args.append(ctypes.c_double(np.nan))
                else:
                    args.append(v.ctypes.data_as(ctypes.c_void_p))
        getattr(self.lib[part], "%s_%s" % (self.name, part))(*args)
        return res

    def der_state(self, t, y, u):
        return self._call("der_state", t, y, u)["yd"]

    def _shaped(self, r):
        return {n: _col(v, self.decl[n]["sh"]) for n, v in r.items()}

    def sensors(self, t, y, u):
        return self._shaped(self._call("sensors", t, y, u))

    def visual(self, t, y, u):
        return self._shaped(self._call("visual", t, y, u))


# ------------------------------------------------------------------ Matlab and Modelica
TOK = re.compile(r"\s*(?:(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_][\w.]*)|(?P<op>==|[-+*/\\^()\[\]{},;:'<>=]))")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Broken("cannot read %r" % s[i:i + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Parser:
    """expressions of the two languages; values are scalars (float) or 2-d arrays"""

    def __init__(self, lang, env):
        self.lang, self.env = lang, env

    def eval(self, s):
        self.t, self.i = tokens(s), 0
        v = self.sum()
        if self.i != len(self.t):
            raise Broken("left over %r in %r" % (self.t[self.i:self.i + 4], s[:200]))
        return v

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) and self.t[self.i][0] == "op" else None

    def eat(self, op):
        if self.peek() != op:
            raise Broken("expected %r at %r" % (op, self.t[self.i:self.i + 4]))
        self.i += 1

    # --- values
    def sc(self, v):
        return not isinstance(v, (np.ndarray, _Vec))

    def add(self, a, b, sg):
        if isinstance(a, _Vec) or isinstance(b, _Vec):
            if not (isinstance(a, _Vec) and isinstance(b, _Vec) and len(a) == len(b)):
                raise Broken("sum of a vector and something else")
            return _Vec([x + sg * y for x, y in zip(a, b)])
        if self.sc(a) != self.sc(b):
            if self.lang == "mo":
                raise Broken("sum of a scalar and an array")
        elif not self.sc(a) and a.shape != b.shape:
            raise Broken("sum of shapes %r %r" % (a.shape, b.shape))
        return self.norm(a + sg * b)

    def norm(self, v):
        """Matlab: a 1x1 matrix is a scalar"""
        if self.lang == "m" and isinstance(v, np.ndarray) and v.shape == (1, 1):
            return float(v[0, 0])
        return v if isinstance(v, np.ndarray) else float(v)

    def mul(self, a, b):
        if isinstance(a, _Vec) or isinstance(b, _Vec):
            if self.sc(a):
                return _Vec([a * x for x in b])
            if self.sc(b):
                return _Vec([b * x for x in a])
            if isinstance(a, _Vec) and isinstance(b, _Vec) and len(a) == len(b):
                return float(np.dot(a, b))
            if isinstance(b, _Vec) and a.shape[1] == len(b):
                return _Vec((a @ np.array(b)).tolist())
            raise Broken("product with a vector")
        if self.sc(a) or self.sc(b):
            return self.norm(a * b)
        if a.shape[1] != b.shape[0]:
            raise Broken("product of shapes %r %r" % (a.shape, b.shape))
        return self.norm(a @ b)

    def sum(self):
        v = self.prod()
        while self.peek() in ("+", "-"):
            sg = 1 if self.peek() == "+" else -1
            self.i += 1
            v = self.add(v, self.prod(), sg)
        return v

    def prod(self):
        v = self.unary()
        while self.peek() in ("*", "/", "\\"):
            op = self.peek()
            self.i += 1
            w = self.unary()
            if op == "*":
                v = self.mul(v, w)
            elif op == "/":
                if not self.sc(w):
                    raise Broken("division by a matrix")
                v = _Vec([x / w for x in v]) if isinstance(v, _Vec) else self.norm(v / w)
            elif self.sc(v):
                v = self.norm(w / v)
            else:
                v = self.norm(np.linalg.solve(v, w))
        return v

    def unary(self):
        if self.peek() == "-":
            self.i += 1
            v = self.unary()
            return _Vec([-x for x in v]) if isinstance(v, _Vec) else -v    # Matlab and Modelica: -a^b is -(a^b)
        if self.peek() == "+":
            self.i += 1
            return self.unary()
        return self.power()

    def power(self):
        v = self.post()
        while self.peek() == "^":
            self.i += 1
            e = self.unary() if self.peek() == "-" else self.post()
            if not self.sc(e):
                raise Broken("matrix exponent")
            if self.sc(v):
                v = float(v) ** e if not (v == 0 and e < 0) else np.inf
                if isinstance(v, complex):
                    raise Broken("complex")
            else:
                v = np.linalg.matrix_power(v, int(e)) if e == int(e) and v.shape[0] == v.shape[1] else None
                if v is None:
                    raise Broken("power of a matrix")
        return v

    def args(self, close):
        out = []
        if self.peek() != close:
            out.append(self.sum())
            while self.peek() == ",":
                self.i += 1
                out.append(self.sum())
        self.eat(close)
        return out

    def post(self):
        v = self.prim()
        while self.peek() == "'" and self.lang == "m":
            self.i += 1
            v = v if self.sc(v) else v.T
        return v

    def prim(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == "num":
            return float(x)
        if k == "id":
            nxt = self.peek()
            if nxt == "(" and (self.lang == "mo" or x not in self.env):
                self.i += 1
                a = self.args(")")
                return self.call(x, a)
            if x not in self.env:
                raise Broken("unknown name %r" % x)
            v = self.env[x]
            if nxt == ("(" if self.lang == "m" else "["):
                self.i += 1
                a = self.args(")" if self.lang == "m" else "]")
                ix = [int(q) for q in a]
                if self.sc(v):
                    if self.lang == "m" and all(q == 1 for q in ix):
                        return v
                    raise Broken("element of a scalar")
                if len(ix) == 1:
                    if min(v.shape) != 1:
                        raise Broken("linear index of a matrix")
                    return float(v.reshape(-1)[ix[0] - 1])
                if not (1 <= ix[0] <= v.shape[0] and 1 <= ix[1] <= v.shape[1]):
                    raise Broken("index %r out of %r" % (ix, v.shape))
                return float(v[ix[0] - 1, ix[1] - 1])
            return v
        if x == "(":
            v = self.sum()
            self.eat(")")
            return v
        if x == "[" and self.lang == "m":
            rows, row = [], []
            if self.peek() == "]":
                raise Broken("empty matrix")
            while True:
                row.append(self.sum())
                c = self.peek()
                self.i += 1
                if c == ",":
                    continue
                if c in (";", "]"):
                    rows.append(row)
                    row = []
                    if c == "]":
                        break
                    continue
                raise Broken("bad matrix literal")
            try:
                m = np.block([[np.atleast_2d(e) for e in r] for r in rows])
            except ValueError as e:
                raise Broken("matrix literal: %s" % e)
            return self.norm(m)
        if x == "{" and self.lang == "mo":
            el = self.args("}")
            if all(self.sc(e) for e in el):
                return _Vec(el)
            if not all(isinstance(e, _Vec) for e in el):
                raise Broken("array literal")
            return np.array([list(e) for e in el], dtype=float)
        raise Broken("unexpected %r" % x)

    def call(self, f, a):
        f = f.split(".")[-1]
        if f in ("sin", "cos", "tan", "asin", "acos", "atan", "abs", "sqrt", "sign") and len(a) == 1 and self.sc(a[0]):
            g = {"asin": np.arcsin, "acos": np.arccos, "atan": np.arctan}.get(f) or getattr(np, f)
            return float(g(a[0]))
        if f == "atan2" and len(a) == 2:
            return float(np.arctan2(a[0], a[1]))
        if f == "zeros":
            return self.norm(np.zeros((int(a[0]), int(a[1]))))
        if f in ("eye", "identity"):
            return self.norm(np.eye(int(a[0])))
        if f == "transpose":
            return a[0] if self.sc(a[0]) and self.lang == "m" else a[0].T
        if f == "inv":
            return np.linalg.inv(a[0])
        if self.lang == "mo":
            if f == "solve2":
                return np.linalg.solve(a[0], a[1])
            if f == "vector":
                if self.sc(a[0]) or min(a[0].shape) != 1:
                    raise Broken("vector() of %r" % (a[0],))
                return _Vec(list(a[0].reshape(-1)))
            if f == "skew":
                if not isinstance(a[0], _Vec) or len(a[0]) != 3:
                    raise Broken("skew of something else than Real[3]")
                x, y, z = a[0]
                return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0.0]])
            if f == "scalar":
                if self.sc(a[0]) or a[0].size != 1:
                    raise Broken("scalar() of %r" % (a[0],))
                return float(a[0].reshape(-1)[0])
        raise Broken("call of %s with %d arguments" % (f, len(a)))


class _Vec(list):
    """Modelica Real[n]"""


class Matlab:
    ext = "m"
    graphics = False    # PyMbs writes no graphics for Matlab

    def __init__(self, d, name, decl):
        self.files = _files(d, name, "m")
        self.decl, self.name = decl, name
        f = os.path.join(d, name + "_inputs.m")
        self.inputs = {}
        if os.path.exists(f):
            env = {}
            for l, r in self.stmts(open(f, encoding="latin-1").read()):
                if (l, r) == ("I", "[]"):
                    continue
                if l.startswith("I."):
                    self.inputs[l[2:]] = Parser("m", env).eval(r)
                else:
                    env[l] = Parser("m", env).eval(r)

    def stmts(self, text):
        text = re.sub(r"%[^\n]*", "", text)
        text = re.sub(r"\bfunction\b[^\n]*", "", text)
        text = re.sub(r"(?m)^\s*end\s*$", "", text)
        out, depth, cur = [], 0, ""
        for ch in text:
            depth += ch in "[(" 
            depth -= ch in "])"
            if ch == ";" and depth == 0 or (ch == "\n" and depth == 0 and cur.strip()):
                if cur.strip():
                    out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        res = []
        for s in out:
            l, eq, r = s.partition("=")
            if not eq:
                raise Broken("statement %r" % s[:80])
            res.append((l.strip(), r.strip()))
        return res

    def _run(self, part, t, y, u):
        env = {"time": float(t), "y": np.array(y, dtype=float).reshape(-1, 1)}
        res = {}
        inp = dict(self.inputs)
        for n, v in u.items():
            if n in inp:
                inp[n] = Parser("m", {}).norm(_col(v if self.decl[n]["sh"] else v[0], self.decl[n]["sh"]))
        for l, r in self.stmts(self.files[part]):
            if r == self.name + "_inputs()":
                continue
            if r.startswith("I."):
                env[l] = inp[r[2:]]
                continue
            m = re.match(r"y\((\d+):(\d+)\)$", r)
            if m:
                env[l] = Parser("m", {}).norm(env["y"][int(m.group(1)) - 1:int(m.group(2))])
                continue
            m = re.match(r"y\((\d+)\)$", r)
            if m:
                env[l] = float(env["y"][int(m.group(1)) - 1, 0])
                continue
            if r == "y(:)":
                continue
            v = Parser("m", env).eval(r)
            if l.startswith("S."):
                res[l[2:]] = v
            else:
                env[l] = v
        return res if part != "der_state" else env

    def der_state(self, t, y, u):
        return np.asarray(self._run("der_state", t, y, u)["yd"], dtype=float).reshape(-1)

    def sensors(self, t, y, u):
        return {n: np.atleast_2d(v) for n, v in self._run("sensors", t, y, u).items()}

    visual = sensors


class Modelica:
    ext = "mo"

    def __init__(self, d, name, decl):
        text = open(os.path.join(d, name + ".mo"), encoding="latin-1").read()
        if "Error:" in text:
            raise Refused(re.search(r"Error:[^\n]*", text).group(0)[:120])
        self.decl, self.name = decl, name
        head, _, body = text.partition("\nequation\n")
        body = body.rsplit("end " + name, 1)[0]
        self.eqs = []
        for s in body.split(";"):
            if s.strip():
                l, _, r = s.partition("=")
                self.eqs.append((l.strip(), r.strip()))
        self.states, self.pars, self.vars, self.inputs = [], [], {}, {}
        sect = None
        self.sensor, self.graphic = [], []
        for l in re.sub(r"\n\s{4,}\{", "{", head).splitlines():
            l = l.strip()
            if l.startswith("//"):
                sect = l[2:]
                continue
            m = re.match(r"(?:(parameter|constant|input|output)\s+)?Real(\[\d+,\d+\])?\s+(\w+)\s*(\(.*?stateSelect=[\w.]*\))?\s*(?:=\s*(.*?))?\s*(?:\"[^\"]*\")?\s*;$", l)
            if not m:
                if l.startswith(("model", "import", "protected")) or not l:
                    continue
                raise Broken("declaration %r" % l)
            kind, dim, n, st, val = m.groups()
            sh = tuple(int(x) for x in dim[1:-1].split(",")) if dim else None
            self.vars[n] = sh
            if st:
                self.states.append(n)
            elif kind == "input":
                self.inputs[n] = sh
            elif val is not None:
                self.pars.append((n, val))
            if sect == "Sensors":
                self.sensor.append(n)
            elif sect == "Sensors - Visualisation":
                self.graphic.append(n)
        self.files = {"der_state": text}
        if self.sensor:
            self.files["sensors"] = text
        if self.graphic:
            self.files["visual"] = text

    def _solve(self, t, y, u):
        env = {"time": float(t)}
        k = 0
        for n in sorted(self.states, key=lambda s: (0 if not self.decl[s]["sh"] else 1, s)):
            sh = self.vars[n]
            w = sh[0] * sh[1] if sh else 1
            env[n] = np.array(y[k:k + w], dtype=float).reshape(sh) if sh else float(y[k])
            k += w
        for n in self.inputs:
            env[n] = _col(u[n], self.decl[n]["sh"]) if self.decl[n]["sh"] else float(u[n][0])
        todo = list(self.pars) + list(self.eqs)
        while todo:
            rest = []
            for l, r in todo:
                try:
                    v = Parser("mo", env).eval(r)
                except Broken as e:
                    if "unknown name" in str(e):
                        rest.append((l, r, e))
                        continue
                    raise
                m = re.match(r"der\((\w+)\)$", l)
                name = m.group(1) if m else l
                several = re.match(r"\{(\{\w+\}(,\{\w+\})*)\}$", re.sub(r"\s", "", l))
                if several:
                    names = re.findall(r"\w+", several.group(1))
                    if not isinstance(v, np.ndarray) or v.shape != (len(names), 1):
                        raise Broken("%s = value of shape %r" % (l, getattr(v, "shape", "scalar")))
                    for k, nm in enumerate(names):
                        if nm not in self.vars or self.vars[nm] is not None or nm in env:
                            raise Broken("unknown or doubly defined %r" % nm)
                        env[nm] = float(v[k, 0])
                    continue
                if not re.match(r"\w+$", name):
                    raise Broken("left hand side %r" % l)
                sh = self.vars.get(name)
                if name not in self.vars:
                    raise Broken("undeclared %r" % name)
                if (sh is None) != (not isinstance(v, np.ndarray)) or (sh and v.shape != sh):
                    raise Broken("%s declared %r, assigned %r" % (name, sh, getattr(v, "shape", "scalar")))
                key = "der(%s)" % name if m else name
                if key in env:
                    raise Broken("two equations for %s" % key)
                env[key] = v
            if len(rest) == len(todo):
                raise Broken("no equation for %s" % rest[0][2])
            todo = [(l, r) for l, r, _ in rest]
        return env

    def der_state(self, t, y, u):
        env = self._solve(t, y, u)
        return np.concatenate([np.asarray(env["der(%s)" % n], dtype=float).reshape(-1)
                               for n in sorted(self.states, key=lambda s: (0 if not self.decl[s]["sh"] else 1, s))])

    def sensors(self, t, y, u):
        env = self._solve(t, y, u)
        return {n: np.atleast_2d(env[n]) for n in self.sensor}

    def visual(self, t, y, u):
        env = self._solve(t, y, u)
        return {n: np.atleast_2d(env[n]) for n in self.graphic}


LANG = {"f90": F90, "c": C, "m": Matlab, "mo": Modelica}
