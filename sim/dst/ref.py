"""Executable reference model of PyMbs expressions: truncated Taylor series of matrices.

A node is (op, args, extra, shape); shape is (r, c), scalars are (1, 1) with kind 's'. Nothing here comes from PyMbs.
"""
import math
import numpy as np


class Dom(Exception):
    """the reference value is undefined, or too close to a kink/singularity to compare"""


class N:
    __slots__ = ("op", "a", "x", "sh", "size", "kind")

    def __init__(self, op, a=(), x=None, sh=None, kind="s"):
        self.op, self.a, self.x, self.sh, self.kind = op, tuple(a), x, sh, kind
        self.size = 1 + sum(n.size for n in self.a)


BIG = 3e3


def shape_of(op, a, x):
    s = [n.sh for n in a]
    k = [n.kind for n in a]
    if op in ("add", "sub"):
        if k[0] == "s":
            return s[1], k[1]
        return s[0], k[0]
    if op == "mul":
        if k[0] == "s":
            return s[1], k[1]
        if k[1] == "s":
            return s[0], k[0]
        sh = (s[0][0], s[1][1])
        return sh, ("s" if sh == (1, 1) else "m")
    if op in ("div", "pow", "neg", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "sign", "der"):
        return s[0], k[0]
    if op == "atan2":
        return (1, 1), "s"
    if op in ("iflt", "ifgt", "ifeq"):
        return s[2], k[2]
    if op == "tr":
        return (s[0][1], s[0][0]), "m"
    if op == "skew":
        return (3, 3), "m"
    if op == "outer":
        return (s[0][0], s[1][0]), "m"
    if op in ("elem", "scalar"):
        return (1, 1), "s"
    if op == "slice":
        r0, r1, c0, c1 = x
        return (r1 - r0, c1 - c0), "m"
    if op == "mat":
        return tuple(x), "m"
    if op in ("inv",):
        return s[0], "m"
    if op == "solve":
        return s[1], "m"
    if op == "jac":
        return (s[0][0], len(x)), "m"
    raise KeyError(op)


def mk(op, a=(), x=None):
    sh, kind = shape_of(op, a, x)
    return N(op, a, x, sh, kind)


def sym(name, sh, kind):
    return N("sym", (), name, sh, kind)


def const(v):
    return N("const", (), v, (1, 1), "s")


def cmul(A, B, K, mat):
    out = None
    for k in range(K + 1):
        t = 0
        for i in range(k + 1):
            t = t + (A[i] @ B[k - i] if mat else A[i] * B[k - i])
        if out is None:
            out = np.zeros((K + 1,) + np.shape(t))
        out[k] = t
    return out


def recip(B, K):
    if abs(B[0]).min() < 2e-2:
        raise Dom("division")
    out = np.zeros_like(B)
    out[0] = 1.0 / B[0]
    for k in range(1, K + 1):
        t = 0
        for i in range(1, k + 1):
            t = t + B[i] * out[k - i]
        out[k] = -t * out[0]
    return out


def tder(A, K):
    out = np.zeros_like(A)
    for k in range(K):
        out[k] = (k + 1) * A[k + 1]
    return out


def tint(D, a0, K):
    out = np.zeros_like(D)
    out[0] = a0
    for k in range(1, K + 1):
        out[k] = D[k - 1] / k
    return out


def powr(A, p, K):
    if p == int(p) and p >= 0:
        out = np.zeros_like(A)
        out[0] = 1.0
        for _ in range(int(p)):
            out = cmul(out, A, K, False)
        return out
    if p == int(p):
        return powr(recip(A, K), -p, K)
    if A[0].min() < 2e-2:
        raise Dom("power")
    out = np.zeros_like(A)
    out[0] = A[0] ** p
    for k in range(1, K + 1):
        t = 0
        for i in range(1, k + 1):
            t = t + (p * i - (k - i)) * A[i] * out[k - i]
        out[k] = t / (k * A[0])
    return out


def numbers(n):
    """both (first) arguments are numbers: nothing can move them over a discontinuity"""
    return all(b.op == "const" for b in n.a[:2])


def matsolve(A, R, K):
    """Taylor coefficients of inv(A) @ R"""
    if np.linalg.cond(A[0]) > 1e3:
        raise Dom("cond")
    X0 = np.linalg.inv(A[0])
    out = np.zeros_like(R)
    for k in range(K + 1):
        t = R[k].copy()
        for i in range(1, k + 1):
            t = t - A[i] @ out[k - i]
        out[k] = X0 @ t
    return out


def matinv(A, K):
    R = np.zeros_like(A)
    R[0] = np.eye(A.shape[1])
    return matsolve(A, R, K)


def sincos(A, K):
    s, c = np.zeros_like(A), np.zeros_like(A)
    s[0], c[0] = np.sin(A[0]), np.cos(A[0])
    for k in range(1, K + 1):
        for i in range(1, k + 1):
            s[k] = s[k] + i * A[i] * c[k - i] / k
            c[k] = c[k] - i * A[i] * s[k - i] / k
    return s, c


class Env:
    """values: symbol name -> array (K+1, r, c)"""

    def __init__(self, values, K, check=True):
        self.v, self.K, self.memo, self.check = values, K, {}, check
        self.pmemo, self.keep = {}, []

    def __call__(self, n):
        """returns (series, magnitude of the largest intermediate value)"""
        r = self.memo.get(id(n))
        if r is None:
            S = self.calc(n)
            if not np.all(np.isfinite(S)):
                raise Dom("not finite")
            m = float(np.abs(S).max())
            for b in n.a:
                m = max(m, self.memo[id(b)][1])
            if self.check and m > BIG and (self.poly(n) is None or m > 1e280):
                raise Dom("too big")
            r = (S, m, n)
            self.memo[id(n)] = r
        return r[0], r[1]

    def poly(self, n):
        """for polynomials: the value with every term and factor replaced by its absolute value, which bounds the rounding
        error of any way of calculating it (up to the machine precision); None for anything else"""
        r = self.pmemo.get(id(n), 0)
        if isinstance(r, int):
            r = None
            if n.op in ("sym", "const", "zeros", "eye"):
                r = np.abs(self.calc(n)[0])
            elif n.op in ("add", "sub", "mul", "neg", "mat", "elem", "slice", "tr", "scalar"):
                A = [self.poly(b) for b in n.a]
                if all(a is not None for a in A):
                    if n.op in ("add", "sub"):
                        r = A[0] + A[1]
                    elif n.op == "mul":
                        r = A[0] @ A[1] if n.a[0].kind != "s" and n.a[1].kind != "s" else A[0] * A[1]
                    elif n.op == "neg" or n.op == "scalar":
                        r = A[0]
                    elif n.op == "tr":
                        r = A[0].T
                    elif n.op == "elem":
                        r = A[0][n.x[0]:n.x[0] + 1, n.x[1]:n.x[1] + 1]
                    elif n.op == "slice":
                        r = A[0][n.x[0]:n.x[1], n.x[2]:n.x[3]]
                    else:
                        r = np.array([float(a[0, 0]) for a in A]).reshape(n.sh)
            self.pmemo[id(n)] = r
            self.keep.append(n)
        return r

    def calc(self, n):
        K, op = self.K, n.op
        if op == "sym":
            return self.v[n.x]
        if op == "const":
            S = np.zeros((K + 1, 1, 1))
            S[0] = n.x
            return S
        if op in ("zeros", "eye"):
            S = np.zeros((K + 1,) + n.sh)
            if op == "eye":
                S[0] = np.eye(n.sh[0])
            return S
        A = [self(b)[0] for b in n.a]
        if op == "add":
            return A[0] + A[1]
        if op == "sub":
            return A[0] - A[1]
        if op == "mul":
            mat = n.a[0].kind != "s" and n.a[1].kind != "s"
            return cmul(A[0], A[1], K, mat)
        if op == "div":
            return cmul(A[0], recip(A[1], K), K, False)
        if op == "pow":
            if n.a[0].kind == "m":
                out = np.zeros_like(A[0])
                out[0] = np.eye(n.sh[0])
                B = A[0]
                if n.x < 0:
                    B = matinv(A[0], K)
                for _ in range(abs(int(n.x))):
                    out = cmul(out, B, K, True)
                return out
            return powr(A[0], n.x, K)
        if op == "neg":
            return -A[0]
        if op == "abs":
            if abs(A[0][0]).min() < 1e-2:
                raise Dom("abs kink")
            return A[0] * np.sign(A[0][0])
        if op == "sign":
            if abs(A[0][0]).min() < 1e-2 and not numbers(n):
                raise Dom("sign kink")
            out = np.zeros_like(A[0])
            out[0] = np.sign(A[0][0])
            return out
        if op in ("sin", "cos"):
            s, c = sincos(A[0], K)
            return s if op == "sin" else c
        if op == "tan":
            s, c = sincos(A[0], K)
            if abs(c[0]).min() < 0.1:
                raise Dom("tan pole")
            return cmul(s, recip(c, K), K, False)
        if op in ("asin", "acos"):
            if abs(A[0][0]).max() > 0.97:
                raise Dom("asin domain")
            one = np.zeros_like(A[0])
            one[0] = 1
            d = cmul(tder(A[0], K), powr(one - cmul(A[0], A[0], K, False), -0.5, K), K, False)
            if op == "asin":
                return tint(d, np.arcsin(A[0][0]), K)
            return tint(-d, np.arccos(A[0][0]), K)
        if op == "atan":
            one = np.zeros_like(A[0])
            one[0] = 1
            d = cmul(tder(A[0], K), recip(one + cmul(A[0], A[0], K, False), K), K, False)
            return tint(d, np.arctan(A[0][0]), K)
        if op == "atan2":
            y, x = A
            r2 = cmul(x, x, K, False) + cmul(y, y, K, False)
            if r2[0].min() < 0.05 or (x[0] < 0 and abs(y[0]) < 1e-2 and not numbers(n)):
                raise Dom("atan2")
            num = cmul(tder(y, K), x, K, False) - cmul(tder(x, K), y, K, False)
            return tint(cmul(num, recip(r2, K), K, False), np.arctan2(y[0], x[0]), K)
        if op in ("iflt", "ifgt", "ifeq"):
            d = float((A[0][0] - A[1][0])[0, 0])
            if numbers(n):
                return A[2] if {"iflt": d < 0, "ifgt": d > 0, "ifeq": d == 0}[op] else A[3]
            if op == "ifeq":
                same = n.a[0] is n.a[1]
                if not same and abs(d) < 1e-2:
                    raise Dom("tie")
                return A[2] if same else A[3]
            if abs(d) < 1e-2:
                raise Dom("tie")
            return A[2] if ((d < 0) == (op == "iflt")) else A[3]
        if op == "tr":
            return np.transpose(A[0], (0, 2, 1))
        if op == "skew":
            v = A[0][:, :, 0]
            out = np.zeros((K + 1, 3, 3))
            out[:, 0, 1], out[:, 0, 2], out[:, 1, 0] = -v[:, 2], v[:, 1], v[:, 2]
            out[:, 1, 2], out[:, 2, 0], out[:, 2, 1] = -v[:, 0], -v[:, 1], v[:, 0]
            return out
        if op == "outer":
            return cmul(A[0], np.transpose(A[1], (0, 2, 1)), K, True)
        if op == "elem":
            return A[0][:, n.x[0]:n.x[0] + 1, n.x[1]:n.x[1] + 1]
        if op == "scalar":
            return A[0]
        if op == "slice":
            r0, r1, c0, c1 = n.x
            return A[0][:, r0:r1, c0:c1]
        if op == "mat":
            r, c = n.sh
            return np.concatenate([np.concatenate([A[i * c + j] for j in range(c)], axis=2) for i in range(r)], axis=1)
        if op == "inv":
            return matinv(A[0], K)
        if op == "solve":
            return matsolve(A[0], A[1], K)
        if op == "der":
            return tder(A[0], K)
        if op == "jac":
            # partial derivatives, one direction at a time; every symbol is an independent variable
            cols = []
            for name in n.x:
                vals = {}
                for s, S in self.v.items():
                    T = np.zeros((2,) + S.shape[1:])
                    T[0] = S[0]
                    if s == name:
                        T[1] = 1.0
                    vals[s] = T
                e = Env(vals, 1, self.check)
                cols.append(e(n.a[0])[0][1])
            out = np.zeros((K + 1,) + n.sh)
            out[0] = np.concatenate(cols, axis=1)
            return out
        raise KeyError(op)
