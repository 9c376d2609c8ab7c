"""One session with the window: build a model, call world.show() under the simulated desktop, let a scripted user act, and keep
what the user saw. Shared by the checks of the user interface."""
import contextlib
import io
import os
import sys

from dst import core, mbs, simsched, simui, scratch

NS = simsched.NS
MS = 1000000
WATCH = ("/pymbs/ui/gui.py", "/pymbs/ui/thread.py", "/pymbs/ui/integrator.py", "/pymbs/ui/pi_recorder.py", "/pymbs/ui/matlab_player.py")


def warm():
    simui.warm()
    import numpy, scipy.integrate, scipy.io
    from dst import eqprog, gen


VIS = [["Box", [1, 2, 3]], ["Line", [2]], ["Sphere", [0.5]], ["Cylinder", [1, 2]], ["Frame", [0.3]], ["Arrow", [1.5]]]


def gen_model(r, inputs=None, still=True):
    """a small system with visualisation; the user interface always starts from rest"""
    for _ in range(50):
        m = mbs.gen(r)
        n = sum(len(b["dofs"]) for b in m["bodies"])
        if len(m["bodies"]) <= 3 and 1 <= n <= 4:
            break
    m["inputs"] = [x for x in m["inputs"]]
    anywhere = [["b", i] for i in range(-1, len(m["bodies"]))] + [["f", i] for i in range(len(m["frames"]))]
    m["visuals"] = []
    for k in range(r.choice([1, 1, 2, 3])):
        ty, args = r.choice(VIS)
        m["visuals"].append({"name": "v%d" % k, "type": ty, "args": args, "cs": r.choice(anywhere) if k else ["b", r.randrange(len(m["bodies"]))]})
    return m


class Session:
    """prepared by the check: actions, then run(); afterwards frames, errors"""

    def __init__(self, ctx, preempts, order=(0,)):
        from dst.zygote import REPO
        self.ctx = ctx
        self.S = simsched.Sched(ctx, preempts, order, tuple(REPO + x for x in WATCH))
        self.D = simui.Desktop(ctx)
        self.out = io.StringIO()

    def show(self, world, name, options=None):
        """-> exception or None"""
        with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
            try:
                world.show(name, options or {})
            except (simsched.Deadlock, core.Stop, core.HarnessError):
                raise
            except Exception as ex:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                return type(ex).__name__, str(ex)[:300], ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb if "/pymbs/" in f.filename][-3:]
        return None


@contextlib.contextmanager
def workdir(name="gui"):
    import tempfile
    with scratch.Dir() as d:
        tmp = os.path.join(d, "tmp")
        cwd = os.path.join(d, "cwd")
        os.mkdir(tmp)
        os.mkdir(cwd)
        old, oldcwd, path = tempfile.tempdir, os.getcwd(), list(sys.path)
        tempfile.tempdir = tmp
        os.environ["TMPDIR"] = tmp
        os.chdir(cwd)
        try:
            yield d, tmp, cwd
        finally:
            tempfile.tempdir = old
            os.environ.pop("TMPDIR", None)
            os.chdir(oldcwd)
            sys.path[:] = path


def poses(ref, m, q):
    """[(p, R)] of every visualisation object at coordinates q (dict)"""
    z = {n: 0.0 for n in ref.dofs}
    K = ref.kin(q, z, z)
    out = []
    for v in m["visuals"]:
        R, p = ref.point(K, v["cs"])[:2]
        out.append((p, R))
    return out


def parse(frame, m):
    """[(p, R)] a frame shows"""
    import numpy as np
    out = []
    for mat, mapper, scale in frame:
        a = np.array(mat)
        R = a[:3, :3]
        n = np.linalg.norm(R, axis=0)
        out.append((a[:3, 3], R / np.where(n > 0, n, 1)))
    return out


def dist(a, b):
    import numpy as np
    if len(a) != len(b):
        return float("inf")
    return max((max(float(np.abs(x[0] - y[0]).max()), float(np.abs(x[1] - y[1]).max())) for x, y in zip(a, b)), default=0.0)
