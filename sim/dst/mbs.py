"""Random multibody systems: the plan, the PyMbs model built from it, and an independent numeric reference.

The reference works on world-frame vectors with the Newton-Euler equations of every body: forward kinematics of a tree
of single-axis joints, columns of the Jacobians by unit velocities, M and h by unit accelerations. It shares neither code
nor method with the generators."""
import math
import numpy as np

AX = {"x": np.array([1.0, 0, 0]), "y": np.array([0, 1.0, 0]), "z": np.array([0, 0, 1.0])}


def cross(a, b):
    a0, a1, a2 = a.tolist()
    b0, b1, b2 = b.tolist()
    return np.array((a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0))


class Undefined(Exception):
    """the reference is not defined at this state (singular mass matrix, coinciding points)"""


# ------------------------------------------------------------------ scalars and rotations of a plan
def val(s, par):
    if isinstance(s, list):
        return s[1] * par[s[2]]
    return float(s)


def sym(s, P):
    if isinstance(s, list):
        return P[s[2]] if s[1] == 1 else s[1] * P[s[2]]
    return s


def rotm(a, axis):
    """rot_mat of pymbs.common.functions: maps parent coordinates to rotated coordinates"""
    c, s = math.cos(a), math.sin(a)
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    if axis == "y":
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def rotv(spec, par):
    R = np.eye(3)
    for axis, a, tr in spec["rot"]:
        m = rotm(val(a, par), axis)
        R = R @ (m.T if tr else m)
    return np.round(R) if spec["kind"] == "exact" else R


def rots(spec, P, par):
    from pymbs.common.functions import rot_mat, transpose
    from pymbs.symbolics import Matrix
    if spec["kind"] == "sym":
        R = None
        for axis, a, tr in spec["rot"]:
            m = rot_mat(sym(a, P), axis)
            m = transpose(m) if tr else m
            R = m if R is None else R * m
        return R
    R = rotv(spec, par)
    return [[int(x) for x in row] if spec["kind"] == "exact" else [float(x) for x in row] for row in R]


# ------------------------------------------------------------------ generator
def gen(r, big=False, loops=False):
    params, inputs = {}, []

    def num(lo, hi, nz=False):
        v = round(r.uniform(lo, hi), r.choice([0, 1, 2, 3]))
        if nz and abs(v) < 0.2:
            v = 0.7
        return v

    def scalar(lo, hi, nz=False, positive=False):
        v = num(lo, hi, nz)
        if positive:
            v = abs(v)
        k = r.random()
        if k < 0.25:
            n = "p%d" % len(params)
            params[n] = v
            return ["p", 1, n]
        if k < 0.32 and not positive:
            n = "p%d" % len(params)
            params[n] = num(0.3, 2)
            return ["p", r.choice([-1, 2, 0.5]), n]
        return v

    def vec(lo=-1.0, hi=1.0):
        k = r.random()
        if k < 0.2:
            return [0, 0, 0]
        if k < 0.55:
            v = [0, 0, 0]
            v[r.randrange(3)] = scalar(lo, hi)
            return v
        return [scalar(lo, hi) for _ in range(3)]

    def rot():
        k = r.random()
        if k < 0.45:
            return None
        if k < 0.7:
            return {"kind": "exact", "rot": [[r.choice("xyz"), r.choice([1, 2, 3]) * math.pi / 2, r.random() < 0.5] for _ in range(r.choice([1, 1, 2]))]}
        if k < 0.88:
            return {"kind": "num", "rot": [[r.choice("xyz"), num(-3, 3), r.random() < 0.5] for _ in range(r.choice([1, 2]))]}
        return {"kind": "sym", "rot": [[r.choice("xyz"), scalar(-2, 2), r.random() < 0.5] for _ in range(r.choice([1, 1, 2]))]}

    def inertia():
        d = [abs(num(0.05, 2)) + 0.05 for _ in range(3)]
        k = r.random()
        if k < 0.45:
            I = [[d[0], 0, d[1], 0, 0, d[2]]]
            if r.random() < 0.4:
                I[0][r.choice([0, 2, 5])] = scalar(0.1, 2, positive=True, nz=True)
            return I[0]
        A = rotv({"kind": "num", "rot": [[a, num(-2, 2), False] for a in "xyz"]}, {})
        M = A @ np.diag(d) @ A.T
        M = (M + M.T) / 2
        return [round(float(M[i, j]), 4) for i, j in ((0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2))]

    n = r.choice([1, 1, 2, 2, 3, 3, 4]) if not big else r.choice([2, 3, 4, 5, 6])
    bodies, frames = [], []
    budget = r.choice([2, 3, 4, 5, 6]) if not big else 8
    fnames = r.choice(["distinct", "same"])

    def frame(b):
        own = [i for i, f in enumerate(frames) if f["body"] == b]
        frames.append({"name": "f%d" % len(frames) if fnames == "distinct" else "cs%d" % len([f for f in frames if f["body"] == b]),
                       "body": b, "under": r.choice(own) if own and r.random() < 0.3 else None, "p": vec(), "R": rot()})
        return len(frames) - 1

    def ref(b, p=0.5):
        """a frame on body b: the body itself, or one of its frames"""
        own = [i for i, f in enumerate(frames) if f["body"] == b]
        if r.random() < p:
            return ["b", b]
        if own and r.random() < 0.6:
            return ["f", r.choice(own)]
        return ["f", frame(b)]

    ndof = 0
    for i in range(n):
        parent = -1 if i == 0 else r.choice([-1, i - 1, i - 1, i - 1, r.randrange(i)])
        left = budget - ndof
        if left <= 0 and i:
            dofs = [] if r.random() < 0.5 else [r.choice(["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"])]
        else:
            k = r.choice([0, 1, 1, 1, 1, 2, 2, 3]) if i else r.choice([1, 1, 1, 2, 3])
            k = min(k, max(1, left))
            dofs = r.sample(["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"], k)
            if k > 3:
                dofs = dofs[:3]
        if big and i == 0 and r.random() < 0.3:
            dofs = r.sample(["Tx", "Ty", "Tz"], 3) + r.sample(["Rx", "Ry", "Rz"], 3)
        ndof += len(dofs)
        bodies.append({"name": "b%d" % i, "mass": scalar(0.3, 4, positive=True, nz=True), "cg": vec(-0.6, 0.6), "I": inertia(), "parent": parent, "joint": "J%d" % i,
                       "dofs": dofs, "q0": [round(r.uniform(-1.2, 1.2), 2) for _ in dofs], "qd0": [round(r.uniform(-1.5, 1.5), 2) for _ in dofs]})
    lp = []
    if loops:
        from dst import loops as L
        for _ in range(r.choice([1, 1, 1, 2])):
            L.gen(r, bodies, frames, lp, scalar, num, inertia, vec, fnames)
        for _ in range(r.choice([0, 0, 1])):
            i = len(bodies)
            bodies.append({"name": "b%d" % i, "mass": scalar(0.3, 4, positive=True, nz=True), "cg": vec(-0.6, 0.6), "I": inertia(), "parent": r.randrange(i), "joint": "J%d" % i,
                           "dofs": r.choice([[], [r.choice(["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"])]])})
            bodies[i].update(q0=[0.2] * len(bodies[i]["dofs"]), qd0=[0.1] * len(bodies[i]["dofs"]))
        n = len(bodies)
    for i, b in enumerate(bodies):
        if "at" not in b:
            b["at"] = ref(b["parent"], 0.4)
            b.setdefault("to", None)
            b["to"] = b["to"] or ref(i, 0.65)
    for _ in range(r.choice([0, 0, 1, 2])):
        frame(r.randrange(-1, n))

    plan = {"gravity": r.choice([[0, 0, -1], [0, 0, -1], [0, -1, 0], [1, 0, 0], [0, 0, 0], [0.6, 0, -0.8]]), "bodies": bodies, "frames": frames}

    # sensors
    sensors = []
    bl = list(range(-1, n))
    for k in range(r.choice([0, 1, 2, 3, 4]) if not big else r.choice([2, 4, 8])):
        ty = r.choice(["Distance", "Position", "Velocity", "Acceleration", "Orientation", "AngularVelocity", "AngularAcceleration", "Energy", "Joint"])
        s = {"name": "s%d" % k, "type": ty}
        if ty == "Energy":
            ok = [i for i, b in enumerate(bodies) if b["dofs"]]     # the sensor refuses bodies that have no joint of their own
            if not ok:
                continue
            s["body"] = r.choice(ok)
        elif ty == "Joint":
            js = [(i, d) for i, b in enumerate(bodies) for d in range(len(b["dofs"])) if not any(x.get("joint") == [i, d] for x in sensors)]
            if not js:
                continue
            s["joint"] = list(r.choice(js))
        else:
            a, b = r.choice(bl), r.choice(bl)
            s["cs"] = [ref(a), ref(b)]
            s["ref"] = ref(r.choice(bl)) if r.random() < 0.4 and ty not in ("Distance", "Orientation") else None
        sensors.append(s)
    # loads
    loads = []

    def value():
        out = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            c = num(-3, 3)
            if k < 0.3:
                out.append([c, ["one"]])
            elif k < 0.45:
                out.append([c, ["sint"]])
            elif k < 0.65:
                if not inputs or r.random() < 0.6:
                    inputs.append(["u%d" % len(inputs), 0])
                sc = [x for x in inputs if not x[1]]
                if not sc:
                    inputs.append(["u%d" % len(inputs), 0])
                    sc = inputs[-1:]
                out.append([c, ["in", r.choice(sc)[0]]])
            elif k < 0.8:
                m = "p%d" % len(params)
                params[m] = num(-2, 2)
                out.append([c, ["par", m]])
            else:
                ok = [(i, s) for i, s in enumerate(sensors) if s["type"] in ("Distance", "Position", "Velocity", "AngularVelocity", "Joint")]
                if not ok:
                    out.append([c, ["one"]])
                else:
                    i, s = r.choice(ok)
                    out.append([c, ["sen", i, r.randrange(2 if s["type"] in ("Distance", "Joint") else 3)]])
        return out
    jl = set()
    for k in range(r.choice([0, 0, 1, 1, 2, 3]) if not big else r.choice([1, 3, 5])):
        ty = r.choice(["PtPForce", "CmpForce", "CmpForce", "CmpTorque", "CmpTorque", "Joint"])
        ld = {"name": "L%d" % k, "type": ty}
        if ty == "Joint":
            js = [(i, d) for i, b in enumerate(bodies) for d in range(len(b["dofs"])) if (i, d) not in jl]
            if not js:
                continue
            ld["joint"] = list(r.choice(js))
            jl.add(tuple(ld["joint"]))
            ld["v"] = [value()]
            ld["how"] = r.choice(["exp", "raw"])
        else:
            a = r.choice(bl)
            b = r.choice([x for x in bl if x != a])
            ld["cs"] = [ref(a), ref(b)]
            ld["ref"] = ref(r.choice(bl)) if r.random() < 0.4 and ty != "PtPForce" else None
            if ty != "PtPForce" and r.random() < 0.2:
                inputs.append(["u%d" % len(inputs), 3])
                ld["v"] = ["vecin", inputs[-1][0]]
                ld["how"] = "in"
            else:
                ld["v"] = [value() for _ in range(1 if ty == "PtPForce" else 3)]
                ld["how"] = r.choice(["exp", "list"]) if ty != "PtPForce" else "exp"
        loads.append(ld)
    plan.update(params=params, inputs=inputs, sensors=sensors, loads=loads)
    if not loops and r.random() < 0.25:        # vectors given as one parameter
        plan["vparams"] = [[k, i, e] for k, l, e in (("b", plan["bodies"], "cg"), ("b", plan["bodies"], "I"), ("f", plan["frames"], "p")) for i, o in enumerate(l)
                           if all(not isinstance(x, list) for x in o[e]) and r.random() < 0.4]
    if loops:
        plan["loops"] = lp
    return plan


# ------------------------------------------------------------------ the PyMbs model
class World:
    def __init__(self, plan, skip=(), wrap=None):
        wrap = self.wrap = wrap or (lambda x: x)
        from pymbs.input import MbsSystem
        from pymbs.symbolics import Matrix
        import pymbs.symbolics as sy
        self.plan = plan
        w = self.w = wrap(MbsSystem(list(plan["gravity"])))
        self.P = P = {}
        par = plan["params"]
        for n in sorted(par):
            P[n] = w.addParam(n, par[n])
        self.U = {n: w.addInput(n, shape=(k,) if k else None) for n, k in plan["inputs"]}
        V = {}
        for k, i, e in plan.get("vparams", []):
            o = plan["bodies" if k == "b" else "frames"]
            if i < len(o) and not any(isinstance(x, list) for x in o[i][e]):
                V[k, i, e] = w.addParam("v%s%d%s" % (k, i, e), list(o[i][e]))
        self.B = [w.addBody(sym(b["mass"], P), cg=V.get(("b", i, "cg"), [sym(x, P) for x in b["cg"]]), inertia=V[("b", i, "I")] if ("b", i, "I") in V else (Matrix([sym(x, P) for x in b["I"]])
                            if b.get("Im") else [sym(x, P) for x in b["I"]]), name=b["name"]) for i, b in enumerate(plan["bodies"])]
        self.F = {}
        for i, f in enumerate(plan["frames"]):
            host = self.body(f["body"]) if f["under"] is None else self.F[f["under"]]
            kw = {}
            if f["R"] is not None:
                kw["R"] = rots(f["R"], P, par)
            self.F[i] = wrap(host).addFrame(f["name"], p=V.get(("f", i, "p"), [sym(x, P) for x in f["p"]]), **kw)
        self.J = []
        dofs = {}          # a user passes the same list for several joints
        for b, o in zip(plan["bodies"], self.B):
            j = w.addJoint(self.cs(b["at"]), self.cs(b["to"]), dofs.setdefault(tuple(b["dofs"]), list(b["dofs"])), startVals=list(b["q0"]), startVals_d=list(b["qd0"]),
                           name=b["joint"])
            self.J.append(j if isinstance(j, list) else [j])
        for l in plan.get("loops", []):
            f = getattr(w.addLoop, l["type"])
            if l["type"] == "Transmission":
                f(*[self.J[i][k] for i, k in l["joints"]], l["ratio"], name=l["name"])
            else:
                f(*[self.cs(c) for c in l["cs"]], *l.get("args", []), name=l["name"])
        self.S = []
        for s in plan["sensors"]:
            t = s["type"]
            if t in skip:
                self.S.append(None)
                continue
            f = getattr(w.addSensor, t)
            if t == "Energy":
                v = f(s["name"], self.B[s["body"]])
            elif t in ("Joint", "ConstraintForce", "ConstraintTorque"):
                v = f(s["name"], self.J[s["joint"][0]][s["joint"][1]])
            elif t in ("Distance", "Orientation"):
                v = f(s["name"], *map(self.cs, s["cs"]))
            else:
                v = f(s["name"], *map(self.cs, s["cs"]), CSref=self.cs(s["ref"]) if s["ref"] else None)
            self.S.append(v)
        for v in plan.get("visuals", []):
            f = getattr(w.addVisualisation, v["type"])
            f(self.cs(v["cs"]), *v["args"], name=v["name"])
        for ld in plan["loads"]:
            if ld["v"][0] == "vecin":
                v = self.U[ld["v"][1]]
            else:
                e = [self.value(x) for x in ld["v"]]
                if ld["type"] == "Joint":
                    if ld["how"] == "raw" and not isinstance(e[0], (int, float)):
                        v = e[0]
                    else:
                        v = w.addExpression("e_" + ld["name"], e[0])
                elif ld["type"] == "PtPForce":
                    v = w.addExpression("e_" + ld["name"], e[0])
                elif ld["how"] == "list":
                    v = e
                else:
                    v = w.addExpression("e_" + ld["name"], Matrix(e))
            f = getattr(w.addLoad, ld["type"])
            if ld["type"] == "Joint":
                f(v, self.J[ld["joint"][0]][ld["joint"][1]], name=ld["name"])
            elif ld["type"] == "PtPForce":
                f(v, *map(self.cs, ld["cs"]), name=ld["name"])
            else:
                f(v, *map(self.cs, ld["cs"]), CSref=self.cs(ld["ref"]) if ld["ref"] else None, name=ld["name"])

    def body(self, i):
        return self.w if i < 0 else self.B[i]

    def cs(self, ref):
        return self.body(ref[1]) if ref[0] == "b" else self.F[ref[1]]

    def value(self, terms):
        import pymbs.symbolics as sy
        e = 0
        for c, src in terms:
            if src[0] == "one":
                e = e + c
            elif src[0] == "sint":
                e = e + c * sy.sin(self.w.time)
            elif src[0] == "in":
                e = e + c * self.U[src[1]]
            elif src[0] == "par":
                e = e + c * self.P[src[1]]
            else:
                e = e + c * self.S[src[1]][src[2]]
        return e

    def generate(self, job):
        f = getattr(self.w.genEquations, job["mode"])
        kw = {"simplify": job.get("simplify", True), "graphOptimizations": job.get("opt", False)}
        if job.get("kin"):
            kw["kinematicsOnly"] = True
        f(**kw)
        return [str(x) for x in self.w.state.q]


# ------------------------------------------------------------------ reference
class Ref:
    def __init__(self, plan):
        self.plan = plan
        par = self.par = plan["params"]
        self.g = np.array(plan["gravity"], dtype=float) * 9.81
        self.dofs = ["q_%s_%s" % (b["joint"], d) for b in plan["bodies"] for d in b["dofs"]]
        self.mass = [val(b["mass"], par) for b in plan["bodies"]]
        self.cg = [np.array([val(x, par) for x in b["cg"]]) for b in plan["bodies"]]
        self.I = []
        for b in plan["bodies"]:
            i = [val(x, par) for x in b["I"]]
            self.I.append(np.array([[i[0], i[1], i[3]], [i[1], i[2], i[4]], [i[3], i[4], i[5]]]))
        self.fr = []          # (body, p, R) of every frame with respect to its body
        for f in plan["frames"]:
            p = np.array([val(x, par) for x in f["p"]])
            R = rotv(f["R"], par) if f["R"] is not None else np.eye(3)
            if f["under"] is not None:
                _, p0, R0 = self.fr[f["under"]]
                p, R = p0 + R0 @ p, R0 @ R
            self.fr.append((f["body"], p, R))

    def pose(self, ref):
        return (ref[1], np.zeros(3), np.eye(3)) if ref[0] == "b" else self.fr[ref[1]]

    def group(self, b):
        """b and the bodies rigidly attached to it: they are one body to the library"""
        out = [b]
        for i, x in enumerate(self.plan["bodies"]):
            if not x["dofs"] and x["parent"] in out:
                out.append(i)
        return out

    def valid(self):
        return all(m > 0 for m in self.mass) and all(np.linalg.eigvalsh(I).min() > 1e-3 for I in self.I)

    def kin(self, q, qd, qdd):
        """motion (R, p, om, v, al, a) of every body; q.. are dicts over dof names"""
        z = np.zeros(3)
        out = {-1: (np.eye(3), z, z, z, z, z)}
        for i, b in enumerate(self.plan["bodies"]):
            R, p, om, v, al, a = self.point(out, b["at"])
            for d in b["dofs"]:
                n = "q_%s_%s" % (b["joint"], d)
                w = R @ AX[d[1]]
                if d[0] == "R":
                    R = R @ rotm(q[n], d[1]).T
                    al = al + w * qdd[n] + cross(om, w) * qd[n]
                    om = om + w * qd[n]
                else:
                    x = w * q[n]
                    a = a + cross(al, x) + cross(om, cross(om, x)) + 2 * cross(om, w) * qd[n] + w * qdd[n]
                    v = v + cross(om, x) + w * qd[n]
                    p = p + x
            _, cp, cR = self.pose(b["to"])
            R = R @ cR.T
            x = -(R @ cp)
            a = a + cross(al, x) + cross(om, cross(om, x))
            v = v + cross(om, x)
            p = p + x
            out[i] = (R, p, om, v, al, a)
        return out

    def point(self, K, ref, off=None):
        b, p0, R0 = self.pose(ref) if off is None else (ref, off, np.eye(3))
        R, p, om, v, al, a = K[b]
        x = R @ p0
        return (R @ R0, p + x, om, v + cross(om, x), al, a + cross(al, x) + cross(om, cross(om, x)))

    def force(self, K, qdd_jac, grav=True):
        """generalised inertia (minus gravity) forces for motion K, projected with the unit-velocity motions"""
        out = []
        for Ki in qdd_jac:
            s = 0.0
            for b in range(len(self.mass)):
                _, _, om, _, al, a = self.point(K, b, self.cg[b])
                Iw = K[b][0] @ self.I[b] @ K[b][0].T
                Ji = self.point(Ki, b, self.cg[b])
                s += Ji[3] @ (self.mass[b] * (a - (self.g if grav else 0))) + Ji[2] @ (Iw @ al + cross(om, Iw @ om))
            out.append(s)
        return np.array(out)

    def state(self, t, q, qd, u):
        return State(self, t, q, qd, u)


class State:
    """everything the reference says about one state of motion"""

    def __init__(self, ref, t, q, qd, u):
        self.r, self.t, self.u = ref, t, u
        d = ref.dofs
        self.q, self.qd = dict(zip(d, q)), dict(zip(d, qd))
        self.zero = {n: 0.0 for n in d}
        self.Kv = ref.kin(self.q, self.qd, self.zero)
        self.units = [ref.kin(self.q, {m: float(m == n) for m in d}, self.zero) for n in d]
        still = [ref.kin(self.q, self.zero, {m: float(m == n) for m in d}) for n in d]
        self.M = np.array([ref.force(k, self.units, False) for k in still]).T
        self.cond = np.linalg.cond(self.M)
        if not self.cond < 1e5:
            raise Undefined("cond %g" % self.cond)
        self.h = ref.force(self.Kv, self.units)
        self.Q = self.loads()
        x = self.solve()
        self.qdd = dict(zip(d, x))
        self.K = ref.kin(self.q, self.qd, self.qdd)

    def solve(self):
        return np.linalg.solve(self.M, self.Q - self.h)

    def value(self, terms):
        s = 0.0
        for c, src in terms:
            k = src[0]
            s += c * (1.0 if k == "one" else math.sin(self.t) if k == "sint" else self.u[src[1]][0] if k == "in" else self.r.par[src[1]] if k == "par"
                      else float(self.sensor(self.r.plan["sensors"][src[1]], self.Kv).reshape(-1)[src[2]]))
        return s

    def loads(self):
        r = self.r
        Q = np.zeros(len(r.dofs))
        self.applied = []      # (body, point, force, torque), all in the inertial frame
        for ld in r.plan["loads"]:
            if ld["v"][0] == "vecin":
                v = np.array(self.u[ld["v"][1]])
            else:
                v = np.array([self.value(x) for x in ld["v"]])
            if ld["type"] == "Joint":
                b = r.plan["bodies"][ld["joint"][0]]
                Q[r.dofs.index("q_%s_%s" % (b["joint"], b["dofs"][ld["joint"][1]]))] += v[0]
                self.applied.append((ld["joint"], None, v[0], None))
                continue
            a, b = ld["cs"]
            pa, pb = r.point(self.Kv, a), r.point(self.Kv, b)
            if ld["type"] == "PtPForce":
                x = pa[1] - pb[1]
                L = np.linalg.norm(x)
                if L < 1e-2:
                    raise Undefined("length")
                f, col = x / L * v[0], 3
            else:
                f = (r.point(self.Kv, ld["ref"]) if ld["ref"] else pa)[0] @ v
                col = 3 if ld["type"] == "CmpForce" else 2
            z = np.zeros(3)
            for c, x, sg in ((a, pa, 1), (b, pb, -1)):
                self.applied.append((r.pose(c)[0], x[1], sg * f if col == 3 else z, sg * f if col == 2 else z))
            for i, k in enumerate(self.units):
                Q[i] += f @ (r.point(k, a)[col] - r.point(k, b)[col])
        return Q

    def sensor(self, s, K=None):
        r = self.r
        K = K or self.K
        t = s["type"]
        if t == "Energy":
            return np.array(sum(self.body_energy(K, b) for b in r.group(s["body"])))
        if t == "Joint":
            b = r.plan["bodies"][s["joint"][0]]
            n = "q_%s_%s" % (b["joint"], b["dofs"][s["joint"][1]])
            return np.array([self.q[n], self.qd[n]])
        if t in ("ConstraintForce", "ConstraintTorque"):
            return self.joint_load(*s["joint"])[t == "ConstraintTorque"]
        A, B = r.point(K, s["cs"][0]), r.point(K, s["cs"][1])
        if t == "Distance":
            x, v = B[1] - A[1], B[3] - A[3]
            L = np.linalg.norm(x)
            if L < 1e-2:
                raise Undefined("length")
            return np.array([L, x @ v / L])
        if t == "Orientation":
            return A[0].T @ B[0]
        R = (r.point(K, s["ref"]) if s.get("ref") else A)[0]
        i = {"Position": 1, "AngularVelocity": 2, "Velocity": 3, "AngularAcceleration": 4, "Acceleration": 5}[t]
        return R.T @ (B[i] - A[i])

    def joint_load(self, i, k):
        """what acts through joint k of body i on everything beyond: force and torque about the joint, in the inertial frame"""
        r = self.r
        b = r.plan["bodies"][i]
        R, p = r.point(self.K, b["at"])[:2]
        for d in b["dofs"][:k + 1]:
            n = "q_%s_%s" % (b["joint"], d)
            w = R @ AX[d[1]]
            if d[0] == "R":
                R = R @ rotm(self.q[n], d[1]).T
            else:
                p = p + w * self.q[n]
        beyond = [i]
        for j, x in enumerate(r.plan["bodies"]):
            if x["parent"] in beyond:
                beyond.append(j)
        F, L = np.zeros(3), np.zeros(3)
        for j in beyond:
            Rj, pj, om, v, al, a = r.point(self.K, j, r.cg[j])
            I = Rj @ r.I[j] @ Rj.T
            f = r.mass[j] * (a - r.g)
            F = F + f
            L = L + cross(pj - p, f) + I @ al + cross(om, I @ om)
        for j, x, f, tau in self.applied:
            if x is None:
                if j == [i, k]:      # the drive of this very joint; those further out are inner loads
                    w = R @ AX[b["dofs"][k][1]]
                    if b["dofs"][k][0] == "R":
                        L = L - w * f
                    else:
                        F = F - w * f
            elif j in beyond:
                F = F - f
                L = L - cross(x - p, f) - tau
        return F, L

    def pose_of(self, ref):
        return self.r.point(self.K, ref)

    def body_energy(self, K, b):
        r = self.r
        R, p, om, v, al, a = r.point(K, b, r.cg[b])
        return -r.mass[b] * r.g @ p + 0.5 * r.mass[b] * v @ v + 0.5 * om @ (R @ r.I[b] @ R.T) @ om

    def energy(self):
        return sum(float(self.body_energy(self.K, b)) for b in range(len(self.r.mass)))
