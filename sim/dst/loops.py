"""Mechanisms with closed loops: their generator and their geometry.

A planar loop lives in the plane of a host body; points of the plane are complex numbers in the right-handed basis of the axis, so a
rotation by q multiplies by exp(iq). `solve` finds the dependent coordinates from intersections of circles and lines, independently of
the closed-form expressions of the library."""
import cmath
import math
import numpy as np

from dst.mbs import cross

PLANE = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}
TYPES = ["FourBar", "FourBar", "FourBar", "ThreeBarTrans", "ThreeBarTrans", "FourBarTrans", "FourBarTrans", "CrankSlider", "CrankSlider", "Transmission", "Hexapod"]


def gen(r, bodies, frames, lp, scalar, num, inertia, vec, fnames, kind=None):
    kind = r.choice(TYPES)
    n0 = len(bodies)

    def body(parent, dofs):
        i = len(bodies)
        bodies.append({"name": "b%d" % i, "mass": scalar(0.3, 4, positive=True, nz=True), "cg": vec(-0.6, 0.6), "I": inertia(), "parent": parent, "joint": "J%d" % i, "dofs": dofs,
                       "q0": [0.0] * len(dofs), "qd0": [0.0] * len(dofs)})
        return i

    def frame(b, p, under=None):
        own = len([f for f in frames if f["body"] == b])
        frames.append({"name": "f%d" % len(frames) if fnames == "distinct" else "cs%d" % own, "body": b, "under": under, "p": p, "R": None})
        return len(frames) - 1

    def at(b, p):
        """a frame at p, or the body itself"""
        if p == [0, 0, 0] and r.random() < 0.6:
            return ["b", b]
        return ["f", frame(b, p)]

    def child(b):
        """where the joint sits on the child body: frames of the loop are given relative to it"""
        if r.random() < 0.7:
            return ["b", b], None
        f = frame(b, [round(r.uniform(-0.5, 0.5), 2) for _ in range(3)])
        return ["f", f], f

    def on(b, base, p):
        if p == [0, 0, 0]:
            return ["b", b] if base is None else ["f", base]
        return ["f", frame(b, p, base)]

    def planar(a, lo=0.3, hi=1.6, off=0.0):
        v = [0, 0, 0]
        l, phi = r.uniform(lo, hi), r.choice([0, 0, math.pi / 2, r.uniform(-3, 3)])
        i, j = PLANE[a]
        v[i], v[j] = round(l * math.cos(phi), 3), round(l * math.sin(phi), 3)
        v = [int(x) if x == int(x) else x for x in v]
        if off:
            v["xyz".index(a)] = off
        return v

    # the formulas measure from the joint of the host
    host = r.choice([-1] + [i for i in range(n0) if bodies[i]["dofs"] and bodies[i].get("to") in (None, ["b", i])])
    if host >= 0:
        bodies[host]["to"] = ["b", host]
    a = r.choice("xyz")
    k = "xyz".index(a)
    name = r.choice(["loop%d" % len(lp), "L%d" % len(lp)])
    if kind == "Transmission":
        used = {tuple(x) for l in lp for x in l["v"]} | {tuple(x) for l in lp for x in l["u"]}
        ok = [(i, d) for i, b in enumerate(bodies) for d in range(len(b["dofs"])) if (i, d) not in used]
        if len(ok) < 2:
            return
        u, v = r.sample(ok, 2)
        lp.append({"type": kind, "name": name, "joints": [list(u), list(v)], "ratio": r.choice([1, 2, -1, 0.5, -1.7, 0, 1.0]), "u": [list(u)], "v": [list(v)], "cs": []})
        return
    if kind == "Hexapod":
        if sum(l["type"] == "Hexapod" for l in lp):
            return
        i = body(host, ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"])
        bodies[i]["at"], bodies[i]["to"] = ["b", host], ["b", i]
        for leg in range(r.choice([1, 1, 2])):
            c = body(host, ["Ry", "Rz"])
            bodies[c]["at"], bodies[c]["to"] = ["f", frame(host, [scalar(-1, 1) for _ in range(3)])], ["b", c]
            s = body(c, ["Tx"])
            bodies[s]["at"], bodies[s]["to"] = ["b", c], ["b", s]
            ends = [["f", frame(i, [scalar(-1, 1) for _ in range(3)])], ["f", frame(s, [0, 0, 0])] if r.random() < 0.5 else ["b", s]]
            lp.append({"type": kind, "name": name + "_%d" % leg, "cs": ends, "host": host, "u": [[i, d] for d in range(6)], "v": [[s, 0], [c, 0], [c, 1]]})
        return
    R = "R" + a
    A = vec()
    if kind == "CrankSlider":
        d = r.choice([x for x in "xyz" if x != a])
        A = [0, 0, 0]
        l2 = round(r.uniform(0.8, 2), 2)
        l1 = round(r.uniform(0.2, 0.7) * l2, 2)
        b1, b3 = body(host, [R]), body(host, ["T" + d])
        for b in (b1, b3):
            bodies[b]["at"] = at(host, A)
        bodies[b1]["to"], base1 = child(b1)
        bodies[b3]["to"], base3 = child(b3)
        b2 = body(b3, [R])
        bodies[b2]["at"] = on(b3, base3, [0, 0, 0])
        bodies[b2]["to"], base2 = child(b2)
        e = ["xyz".index(d)]
        p1, p2 = [0, 0, 0], [0, 0, 0]
        p1[e[0]], p2[e[0]] = l1, l2
        ends = [on(b1, base1, p1), on(b2, base2, p2)]
        lp.append({"type": kind, "name": name, "axis": a, "cs": ends, "host": host, "u": [[b1, 0]], "v": [[b3, 0], [b2, 0]]})
    else:
        off = round(r.uniform(-0.5, 0.5), 2) if r.random() < 0.25 and kind == "FourBar" else 0.0
        D = [x if isinstance(x, list) else x for x in A]
        g = planar(a)
        if any(isinstance(x, list) for x in A):
            A = [x if not isinstance(x, list) else num(-1, 1) for x in A]
        D = [round(x + y, 3) if y else x for x, y in zip(A, g)]
        b1 = body(host, [R])
        bodies[b1]["at"] = at(host, A)
        bodies[b1]["to"], base1 = child(b1)
        p2 = planar(a)
        if kind == "FourBar":
            if r.random() < 0.3:      # lengths as parameters
                p2[PLANE[a][0]] = scalar(0.3, 1.5, nz=True, positive=True)
            b2 = body(b1, [R])
            bodies[b2]["at"] = on(b1, base1, p2)
            bodies[b2]["to"], base2 = child(b2)
            if off:
                D[k] = round(D[k] + off, 3)
            b3 = body(host, [R])
            bodies[b3]["at"] = at(host, D)
            bodies[b3]["to"], base3 = child(b3)
            ends = [on(b2, base2, planar(a)), on(b3, base3, planar(a))]
            lp.append({"type": kind, "name": name, "axis": a, "cs": ends, "args": [r.choice([1, -1])], "host": host, "u": [[b1, 0]], "v": [[b2, 0], [b3, 0]]})
        elif kind == "ThreeBarTrans":
            b2 = body(host, [R])
            bodies[b2]["at"] = at(host, D)
            bodies[b2]["to"], base2 = child(b2)
            b3 = body(b2, ["T" + r.choice([x for x in "xyz" if x != a])])
            bodies[b3]["at"] = on(b2, base2, [0, 0, 0])
            bodies[b3]["to"], base3 = child(b3)
            ends = [on(b1, base1, p2), on(b3, base3, [0, 0, 0])]
            lp.append({"type": kind, "name": name, "axis": a, "cs": ends, "host": host, "u": [[b1, 0]], "v": [[b3, 0], [b2, 0]]})
        else:
            b2 = body(b1, [R])
            bodies[b2]["at"] = on(b1, base1, p2)
            bodies[b2]["to"], base2 = child(b2)
            b3 = body(host, [R])
            bodies[b3]["at"] = at(host, D)
            bodies[b3]["to"], base3 = child(b3)
            b4 = body(b3, ["T" + r.choice([x for x in "xyz" if x != a])])
            bodies[b4]["at"] = on(b3, base3, [0, 0, 0])
            bodies[b4]["to"], base4 = child(b4)
            ends = [on(b2, base2, planar(a)), on(b4, base4, [0, 0, 0])]
            lp.append({"type": kind, "name": name, "axis": a, "cs": ends, "host": host, "u": [[b1, 0], [b2, 0]], "v": [[b4, 0], [b3, 0]]})
    if r.random() < 0.3 and host < 0:
        lp[-1]["cs"].reverse()


def coord(plan, x):
    b = plan["bodies"][x[0]]
    return "q_%s_%s" % (b["joint"], b["dofs"][x[1]])


class Loops:
    """the loops of a model: coordinates, geometry, constraints"""

    def __init__(self, ref):
        self.r = ref
        self.plan = ref.plan
        self.loops = self.plan["loops"]
        self.dep = [coord(self.plan, x) for l in self.loops for x in l["v"]]
        self.ind = [n for n in ref.dofs if n not in self.dep]

    def rel(self, K, host, A, B):
        """position, velocity and acceleration of A relative to B as seen from the host body"""
        R, p, om, v, al, a = K[host]
        _, pa, _, va, _, aa = self.r.point(K, A)
        _, pb, _, vb, _, ab = self.r.point(K, B)
        d = pa - pb
        dv = va - vb - cross(om, d)
        da = aa - ab - cross(al, d) - cross(om, cross(om, d)) - 2 * cross(om, dv)
        return R.T @ d, R.T @ dv, R.T @ da

    def gaps(self, K, q, qd, qdd):
        """violation of all closure conditions: position, velocity, acceleration"""
        g, gd, gdd = [], [], []
        for l in self.loops:
            if l["type"] == "Transmission":
                a, b = [coord(self.plan, x) for x in l["joints"]]
                for out, z in ((g, q), (gd, qd), (gdd, qdd)):
                    out.append(z[b] - l["ratio"] * z[a])
                continue
            x = self.rel(K, l["host"], *l["cs"])
            pick = PLANE[l["axis"]] if "axis" in l else (0, 1, 2)
            for out, z in zip((g, gd, gdd), x):
                out += [z[i] for i in pick]
        return np.array(g), np.array(gd), np.array(gdd)

    # ---------------------------------------------------------------- geometry
    def solve(self, q):
        """dependent coordinates for the independent ones (added to q); None where the mechanism cannot be assembled or nearly so"""
        q = dict(q)
        z = {n: 0.0 for n in self.r.dofs}
        left = list(self.loops)
        while left:
            l = next((l for l in left if all(coord(self.plan, x) in q for x in l["u"])), None)
            if l is None:
                return None
            left.remove(l)
            u = [q[coord(self.plan, x)] for x in l["u"]]
            v = self.one(l, u)
            if v is None:
                return None
            for x, y in zip(l["v"], v):
                q[coord(self.plan, x)] = y
        return q

    def off(self, ref, to):
        """position of a frame relative to the frame `to` of the same body, the latter's orientation"""
        _, p, R = self.r.pose(ref)
        _, p0, R0 = self.r.pose(to)
        return R0.T @ (p - p0)

    def one(self, l, u):
        B = self.plan["bodies"]
        t = l["type"]
        if t == "Transmission":
            return [l["ratio"] * u[0]]
        if t == "Hexapod":
            P = next(c for c in l["cs"] if self.r.pose(c)[0] == l["u"][0][0])
            R = np.eye(3)
            from dst.mbs import rotm, AX
            for ax, x in zip("xyz", u[3:]):
                R = R @ rotm(x, ax).T
            c = l["v"][1][0]
            d = np.array(u[:3]) + R @ self.r.pose(P)[1] - self.r.pose(B[c]["at"])[1]
            n = np.linalg.norm(d)
            if n < 0.2 or math.hypot(d[0], d[2]) < 0.2 * n:
                return None
            return [n, math.atan2(-d[2], d[0]), math.asin(d[1] / n)]
        i, j = PLANE[l["axis"]]

        def c2(v):
            return complex(v[i], v[j])

        def joint(b):
            return c2(self.r.pose(B[b]["at"])[1])

        def seg(b, ref):
            return c2(self.off(ref, B[b]["to"]))

        def end(b):
            return next(c for c in l["cs"] if self.r.pose(c)[0] == b)
        if t == "CrankSlider":
            b1, b3, b2 = l["u"][0][0], l["v"][0][0], l["v"][1][0]
            e = [0, 0, 0]
            e["xyz".index(B[b3]["dofs"][0][1])] = 1
            d = c2(e)
            l1, l2 = seg(b1, end(b1)) / d, seg(b2, end(b2)) / d
            if abs(l1.imag) > 1e-12 or abs(l2.imag) > 1e-12:
                return None
            s = l1.real * math.sin(u[0]) / l2.real
            if abs(s) > 0.95:
                return None
            return [l1.real * math.cos(u[0]) - l2.real * math.sqrt(1 - s * s), math.asin(s)]
        b1 = l["u"][0][0]
        A = joint(b1)
        if t == "ThreeBarTrans":
            b3, b2 = l["v"][0][0], l["v"][1][0]
            e = [0, 0, 0]
            e["xyz".index(B[b3]["dofs"][0][1])] = 1
            x = A + seg(b1, end(b1)) * cmath.exp(1j * u[0]) - joint(b2)
            if abs(x) < 0.15:
                return None
            return [abs(x), cmath.phase(x / c2(e))]
        if t == "FourBarTrans":
            b2, b4, b3 = l["u"][1][0], l["v"][0][0], l["v"][1][0]
            e = [0, 0, 0]
            e["xyz".index(B[b4]["dofs"][0][1])] = 1
            x = A + c2(self.off(B[b2]["at"], B[b1]["to"])) * cmath.exp(1j * u[0]) + seg(b2, end(b2)) * cmath.exp(1j * (u[0] + u[1])) - joint(b3)
            if abs(x) < 0.15:
                return None
            return [abs(x), cmath.phase(x / c2(e))]
        if t == "FourBar":
            b2, b3 = l["v"][0][0], l["v"][1][0]
            P = A + c2(self.off(B[b2]["at"], B[b1]["to"])) * cmath.exp(1j * u[0])
            D = joint(b3)
            s2, s3 = seg(b2, end(b2)), seg(b3, end(b3))
            x = D - P
            n, r2, r3 = abs(x), abs(s2), abs(s3)
            if n < 0.15 or n > 0.97 * (r2 + r3) or n < 1.05 * abs(r2 - r3) + 0.02:
                return None
            al = math.acos((n * n + r2 * r2 - r3 * r3) / (2 * n * r2))
            C = P + x / n * r2 * cmath.exp(1j * al * l["args"][0])
            return [cmath.phase((C - P) / s2) - u[0], cmath.phase((C - D) / s3)]
        return None

    def state(self, t, qu, qdu, u):
        return State(self, t, qu, qdu, u)


def State(L, t, qu, qdu, u):
    from dst import mbs
    r = L.r
    q = L.solve(dict(zip(L.ind, qu)))
    if q is None:
        raise mbs.Undefined("cannot be assembled")
    zero = {n: 0.0 for n in r.dofs}
    cols = []
    for n in r.dofs:
        e = {m: float(m == n) for m in r.dofs}
        cols.append(L.gaps(r.kin(q, e, zero), q, e, zero)[1])
    J = np.array(cols).T
    iv = [r.dofs.index(n) for n in L.dep]
    iu = [r.dofs.index(n) for n in L.ind]
    if L.dep and np.linalg.cond(J[:, iv]) > 300:
        raise mbs.Undefined("close to a dead point")
    qd = dict(zip(L.ind, qdu))
    qd.update(zip(L.dep, -np.linalg.solve(J[:, iv], J[:, iu] @ np.array([qd[n] for n in L.ind]))))
    if max(map(abs, qd.values())) > 30:
        raise mbs.Undefined("fast")

    class Closed(mbs.State):
        def solve(self):
            d = r.dofs
            gam = L.gaps(self.Kv, self.q, self.qd, self.zero)[2]
            n, m = len(d), len(gam)
            A = np.block([[self.M, J.T], [J, np.zeros((m, m))]])
            x = np.linalg.solve(A, np.concatenate([self.Q - self.h, -gam]))
            return x[:n]
    S = Closed(r, t, [q[n] for n in r.dofs], [qd[n] for n in r.dofs], u)
    S.cond = max(S.cond, np.linalg.cond(J[:, iv]) ** 2 if L.dep else 1)
    g = L.gaps(S.K, S.q, S.qd, S.qdd)
    assert max(np.abs(x).max() for x in g) < 1e-7 * (1 + max(map(abs, S.qdd.values()))) if L.dep else True, ("reference does not close", L.loops, g)
    return S
