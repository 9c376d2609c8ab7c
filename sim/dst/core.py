"""Run context, random streams, and the handle to the native seams."""
import ctypes, hashlib, os, random


class Stop(Exception):
    """ends a simulated run (after a violation was recorded)"""


class HarnessError(Exception):
    pass


def rng(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).digest())


class Shim:
    """the LD_PRELOAD seam, if it is loaded"""

    def __init__(self):
        lib = ctypes.CDLL(None)
        self.lib = lib
        self.ok = hasattr(lib, "shim_heap_init")
        if self.ok:
            lib.shim_heap_init.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_uint64]
            lib.shim_heap_failat.argtypes = [ctypes.c_long]
            for f in ("shim_heap_failed", "shim_heap_allocs", "shim_heap_live", "shim_disk_fired", "shim_disk_ops"):
                getattr(lib, f).restype = ctypes.c_long
            lib.shim_heap_hash.restype = ctypes.c_uint64
            lib.shim_heap_bad.restype = ctypes.c_long
            lib.shim_heap_bad.argtypes = [ctypes.c_char_p, ctypes.c_int]
            lib.shim_clock_set.argtypes = [ctypes.c_int64, ctypes.c_int64]
            lib.shim_clock_get.restype = ctypes.c_int64
            lib.shim_disk_init.argtypes = [ctypes.c_char_p, ctypes.c_int]
            lib.shim_disk_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
            lib.shim_disk_fault.restype = ctypes.c_int

    def heap(self, cfg):
        if not self.ok:
            raise HarnessError("the heap seam is not loaded")
        if self.lib.shim_heap_init(cfg["mode"], cfg["reuse"], cfg["fill"], cfg["seed"]) != 0:
            raise HarnessError("the arena could not be mapped")

    def heap_bad(self):
        b = ctypes.create_string_buffer(200)
        n = self.lib.shim_heap_bad(b, 200)
        return n, b.value.decode()


HEAP_MODES = {1: "ascending", 2: "descending", 3: "random", 4: "interleaved"}
HEAP_REUSE = {0: "lifo", 1: "fifo", 2: "never", 3: "random"}


def heap_cfg(r):
    return {"mode": r.choice([1, 2, 3, 3, 3, 4]), "reuse": r.choice([0, 0, 1, 2, 3, 3]),
            "fill": r.choice([-1, 0, 0xAA, 0xFF, 0x01]), "seed": r.getrandbits(48)}


class Ctx:
    def __init__(self, job):
        self.job = job
        self.viol = []
        self.stats = {}
        self.states = set()
        self.h = hashlib.sha256()
        self.step = -1
        self.nontrivial_flag = False
        self.plan = None
        self.simtime = 0.0
        self.lines = []
        self.keep = bool(job.get("verbose"))
        self._shim = None

    @property
    def shim(self):
        if self._shim is None:
            self._shim = Shim()
        return self._shim

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode("utf-8", "replace") + b"\n")
        if self.keep:
            self.lines.append(s)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def nontrivial(self):
        self.nontrivial_flag = True

    def violate(self, sig, msg, stop=True):
        self.log("VIOLATION", sig)
        self.viol.append({"sig": sig, "msg": msg[:1500], "step": self.step})
        if stop:
            raise Stop()

    def heap(self):
        c = self.plan.get("heap")
        if c:
            self.shim.heap(c)
            self.count("heap layout " + HEAP_MODES[c["mode"]] + "/" + HEAP_REUSE[c["reuse"]])

    def result(self):
        return {"viol": self.viol, "hash": self.h.hexdigest(), "stats": self.stats, "states": sorted(self.states),
                "nontrivial": self.nontrivial_flag, "simtime": self.simtime,
                "lines": self.lines if self.keep else None}
