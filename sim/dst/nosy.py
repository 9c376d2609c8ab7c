"""a user who makes mistakes: a proxy between the model-building script and the real object that, at scheduled calls, first makes a wrong call"""

SUB = ("addSensor", "addLoad", "addLoop", "addVisualisation", "genEquations")
PLAIN = ("time", "state", "graph", "genCode", "buildGraph", "writeCode", "getVariable")
ONCE = ("addJoint", "addLoad.Joint", "addSensor.Joint")      # refused again even under another name


class Accepted(BaseException):
    """the call was not refused; the run says nothing"""


class Thing:
    def __repr__(self):
        return "<a thing>"


def junk(kind):
    if kind.startswith("alien"):
        from pymbs.symbolics.graph import Graph
        v = Graph().addVariable("alien", (3,) if kind == "alienvec" else None)
        return [v, 1, 2] if kind == "alienlist" else v * 2 if kind == "alienexp" else v
    return {"none": None, "thing": Thing(), "text": "nonsense text", "list2": [1, 2], "list7": [1] * 7, "dict": {}, "neg": -1, "float": 0.5, "empty": [],
            "tuple": (2, 2), "type": int, "listthing": [Thing(), 1, 2], "dofs": ["Rx", "Qz"], "starts": [0.1] * 5}[kind]


JUNK = ["none", "thing", "text", "list2", "list7", "dict", "neg", "float", "empty", "tuple", "type", "listthing", "dofs", "starts", "alien", "alien", "alienexp", "alienvec", "alienlist"]
NAMES = ["used", "used", "used", "bad"]


def typical(label, args, kw, nosy):
    """mistakes typical for a call: [(what, args, kw), ...]"""
    a = list(args)
    out = []

    def put(what, *new, **more):
        out.append((what, list(new), dict(kw, **more)))

    alien, alienexp, alienvec = junk("alien"), junk("alienexp"), junk("alienvec")
    T = Thing()
    used = nosy.names[-1] if nosy.names else ""
    first = nosy.names[0] if nosy.names else ""
    if label == "addParam":
        for n in (used, first, "I", "a.b", "1x"):
            put("name", n, *a[1:])
        for v in (None, T, [1, 2], [1, 2, T], [1, 2, 3, 4, 5, T], [1, alien, 3], [1, 2, 3, 4, 5, alienexp], alien, alienexp, "text"):
            put("value", a[0], v)
        put("sign", *a, positive=True, negative=True)
    elif label == "addInput":
        for n in (used, first, "a.b", "1x"):
            put("name", n)
        put("shape", a[0], shape=[3])
        put("shape", a[0], shape=(2, "x"))
        put("limits", a[0], limits=5)
        put("limits", a[0], limits=[1])
    elif label == "addBody":
        for key, v in (("cg", [0, 0]), ("cg", [0, 0, T]), ("cg", T), ("inertia", T), ("inertia", [1, 2]), ("name", used), ("name", 5)):
            put(key, *a, **{key: v})
        put("mass", T, *a[1:])
    elif label == "addFrame":
        for key, v in (("p", [1, 2]), ("p", [0, 0, T]), ("p", T), ("R", T), ("R", [1, 2]), ("R", alien)):
            put(key, *a, **{key: v})
        put("name", 5, *a[1:])
    elif label == "addJoint":
        d = list(a[2]) if len(a) > 2 and isinstance(a[2], list) else []
        more = next(x for x in ("Rx", "Ry", "Rz", "Tx", "Ty", "Tz") if x not in d)
        for l in (d + ["Qz"], d + [d[0]] if d else ["Q"], ["Rx", T]):
            put("dofs", *a[:2], l, startVals=[0] * len(l), startVals_d=[0] * len(l))
        d2 = d + [more]
        for sv in ([0] * len(d) + [T], [0] * len(d) + ["x"], [0] * len(d) + [[1]], [0] * (len(d) + 2)):
            put("start", *a[:2], d2, startVals=sv, startVals_d=[0] * len(d2))
            put("speed", *a[:2], d2, startVals=[0] * len(d2), startVals_d=sv)
        put("same body", a[1], a[1], *a[2:])
        put("no frame", a[0], None, *a[2:])
        put("name", *a[:2], d2, startVals=[0] * len(d2), startVals_d=[0] * len(d2), name=used)
    elif label == "addExpression":
        for l in (5, [1], [1, 2, 3]):
            put("limits", *a, limits=l)
        put("category", *a, category=T)
        put("sign", *a, positive=True, negative=True)
        for n in (used, first, "a.b", "1x"):
            put("name", n, *a[1:])
        for v in (T, "text", [1, T], alien, alienexp, [1, 2, alien], None):
            put("value", a[0], v)
    elif label.startswith("addSensor."):
        for key, v in (("category", T), ("category", "x"), ("name", used), ("name", first)):
            put(key, *a, **{key: v})
        for n in (used, first, "a.b", "1x"):
            put("symbol", n, *a[1:])
            put("symbol", n, *a[1:], name="other name")
        put("what", a[0], *([T] + a[2:]))
        put("what", *(a[:-1] + [None]))
        if "CSref" in kw:
            put("CSref", *a, CSref=T)
    elif label == "addLoad.Joint":
        for n in (used, first):
            put("name", *a, name=n)
        par = [v for v in nosy.values if hasattr(v, "shape") and callable(v.shape) and v.shape() == ()]
        for v in [x * 2 for x in par[:2]] + [alienexp, alien]:
            put("no joint", v, None, *a[2:])
            put("no joint", v, T, *a[2:])
            put("load", alienexp, *a[1:])
    elif label.startswith("addLoad."):
        for v in ([1, 2], [1, 2, T], [1, 2, alien], [1, 2, 3, 4], T, None, 5):
            put("load", v, *a[1:])
        put("list and frame", [1, 2, 3], None, *a[2:])
        put("list and frame", [1, 2, 3], *a[1:-1], T)
        put("list and ref", [1, 2, 3], *a[1:], CSref=T)
        put("name", *a, name=used)
    elif label.startswith("genEquations."):
        for key, v in (("diff", 7), ("diff", [0, 5]), ("diff", "x"), ("graphOptimizations", 5), ("graphOptimizations", "yes"), ("kinematicsOnly", "yes"), ("kinematicsOnly", [1])):
            put(key, *a, **{key: v})
    elif label == "addVariable" and len(a) >= 4:
        for v in ([1] * 5, T, alien, alienexp, alienvec, "x"):
            put("start", *a[:3], v, *a[4:])
        for v in ((2, "x"), T, 5, "x"):
            put("shape", a[0], v, *a[2:])
        for v in (T, "x", 99):
            put("kind", *a[:2], v, *a[3:])
        for n in (used, first, "a.b", "1x"):
            put("name", n, *a[1:])
        put("comment", *a[:4], T)
    elif label == "addEquation":
        from pymbs.symbolics import der
        syms = [v for v in nosy.values if type(v).__name__ == "CSymbol"]
        scal = [v for v in syms if v.shape() == ()]
        rhs = [alien, alienexp, T, "x", [1] * 7]
        for x in scal[:1] + scal[-2:]:
            rhs += [alien * x, x + alien]
            try:
                rhs += [der(x) + alien, alien * der(x), [der(x)] * 7]
                out.append(("left", [der(x), alien], dict(kw)))
                out.append(("left", [[x, alien], a[1]], dict(kw)))
                out.append(("left", [[der(x), a[0]], a[1]], dict(kw)))
            except Exception:
                pass
        for r in rhs:
            put("right", a[0], r, *a[2:])
        try:
            put("itself", a[0], a[0] * 2, *a[2:])
        except Exception:
            pass
        put("left", alien, *a[1:])
        put("left", [a[0], alien], *a[1:])
        put("left", [a[0], a[0]], *a[1:])
    return out


def gen(r, n, calls):
    """-> {call index: [mutation, ...]}"""
    out = []
    at = range(calls) if r.random() < 0.5 else range(calls // 2, calls)
    for i in sorted(r.sample(at, min(len(at), n))):
        k = r.random()
        if r.random() < 0.6:
            out.append([i, "typical", r.randrange(1000), 0])
        elif k < 0.12:
            out.append([i, "extra", r.randrange(12), r.choice(JUNK)])
        elif k < 0.4:
            out.append([i, "junk", r.randrange(6), r.choice(JUNK)])
        elif k < 0.6:
            out.append([i, "name", r.choice(NAMES), r.randrange(100)])
        elif k < 0.75:
            out.append([i, "again", r.random() < 0.5, 0])
        else:
            out.append([i, "swap", r.randrange(6), r.randrange(100)])
    return out


class Nosy:
    """shared by all proxies of one script"""

    def __init__(self, ctx, bad, skip=()):
        self.ctx = ctx
        self.bad = {}
        for b in bad:
            self.bad.setdefault(b[0], []).append(b[1:])
        self.n = 0
        self.names = []
        self.values = []
        self.refused = 0
        self.skip = set(skip)
        self.off = False

    def wrap(self, obj):
        return obj if isinstance(obj, Proxy) else Proxy(self, obj, "")

    def call(self, label, f, args, kw):
        i = self.n
        self.n += 1
        args = [bare(a) for a in args]
        kw = {k: bare(v) for k, v in kw.items()}
        muts = [] if self.off else self.bad.get(i, [])
        for m in muts:
            if m[0] != "again":
                self.attempt(label, f, args, kw, m)
        ret = f(*args, **kw)
        for m in muts:
            if m[0] == "again":
                self.attempt(label, f, args, kw, m)
        n = self.name(label, args, kw)
        if n:
            self.names.append(n[1])
        self.values += [a for a in list(args) + [ret] if a is not None and not isinstance(a, (str, bool, dict))]
        return ret

    def name(self, label, args, kw):
        for key in ("name", "symbol_str", "symbol"):
            if isinstance(kw.get(key), str):
                return key, kw[key]
        if args and isinstance(args[0], str):
            return 0, args[0]

    def attempt(self, label, f, args, kw, m):
        import contextlib, io
        args, kw = list(args), dict(kw)
        what = m[0]
        if m[0] == "name":
            n = self.name(label, args, kw)
            if not n:
                return
            if m[1] == "used":
                if not self.names:
                    return
                v = self.names[m[2] % len(self.names)]
            else:
                v = ["", "1x", "a b", None, 5][m[2] % 5]
            if n[0] == 0:
                args[0] = v
            else:
                kw[n[0]] = v
            what = "name " + m[1]
        elif m[0] == "typical":
            opts = typical(label, args, kw, self)
            if not opts:
                return
            what, args, kw = opts[m[1] % len(opts)]
            what = "typical, " + what
        elif m[0] == "extra":
            import inspect
            try:
                left = list(inspect.signature(f).parameters.values())[len(args):]
            except (TypeError, ValueError):
                return
            left = sorted(p.name for p in left if p.kind == p.POSITIONAL_OR_KEYWORD and p.name not in kw)
            if not left:
                return
            s = left[m[1] % len(left)]
            kw[s] = junk(m[2])
            what = "extra %s for %s" % (m[2], s)
        elif m[0] == "junk" or m[0] == "swap":
            if m[0] == "junk":
                v = junk(m[2])
            else:
                if not self.values:
                    return
                v = self.values[m[2] % len(self.values)]
            slots = list(range(len(args))) + sorted(kw)
            if not slots:
                return
            s = slots[m[1] % len(slots)]
            if isinstance(s, int):
                if v is args[s]:
                    return
                args[s] = v
            else:
                if v is kw[s]:
                    return
                kw[s] = v
            what = "%s %s" % (m[0], m[2] if m[0] == "junk" else type(v).__name__) + " for %s" % s
        elif m[0] == "again" and m[1] and label in ONCE:
            n = self.name(label, args, kw)
            if not n:
                return
            if n[0] == 0:
                args[0] = args[0] + "_2"
            else:
                kw[n[0]] = kw[n[0]] + "_2"
            par = [v for v in self.values if type(v).__name__ == "CSymbol" and v.shape() == ()]
            if label == "addLoad.Joint" and par:
                args[0] = par[-1] * 2
            what = "again, other name"
        if (label, what) in self.skip or label in self.skip:
            return
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                f(*args, **kw)
        except BaseException as ex:
            if not isinstance(ex, Exception) and not type(ex).__module__.startswith("pymbs"):      # PyMbs has errors of its own that are no Exception
                raise
            self.refused += 1
            self.ctx.log("refused", label, what, type(ex).__name__)
            self.ctx.count("refused " + label)
            self.ctx.count("refused: " + what.split(" ")[0].strip(","))
            return
        self.ctx.count("accepted " + label)
        raise Accepted("%s %s" % (label, what))


def bare(a):
    if isinstance(a, Proxy):
        return a._obj
    return a


class Proxy:
    def __init__(self, nosy, obj, prefix):
        self.__dict__.update(_nosy=nosy, _obj=obj, _prefix=prefix)

    def __getattr__(self, n):
        v = getattr(self._obj, n)
        if n in SUB:
            return Proxy(self._nosy, v, n + ".")
        if callable(v) and n not in PLAIN and not n.startswith("_"):
            label = self._prefix + n
            return lambda *a, **k: self._nosy.call(label, v, a, k)
        return v
