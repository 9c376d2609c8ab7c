"""Code generation of one model in forked copies of the simulated process, with and without disk faults.

Every child starts from exactly the same process state (same heap, same clock, same model), so the only difference
between two generations is what the disk did.
"""
import json, os, signal, struct, time

NAMES = {0: "open", 1: "write", 2: "close", 3: "mkdir", 4: "allocation"}
ALLOC = 4
ERR, SHORT, EINTR, CRASH, TORN = 1, 2, 3, 4, 5
KINDS = {1: "error", 2: "short write", 3: "interrupted", 4: "crash before", 5: "torn write and crash"}
ERRNO = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "ENOENT": 2, "EROFS": 30, "EDQUOT": 122, "ENOTDIR": 20, "ENOMEM": 12}
TARGETS = {"py": ("Python", [{}]), "m": ("Matlab", [{}, {"symbolic_mode": True}]), "mo": ("Modelica", [{}, {"inputsAsInputs": False}]),
           "c": ("C", [{}, {"pymbs_wrapper": True}, {"include_visual": True}, {"sfunction": True}, {"pymbs_wrapper": True, "include_visual": True}]),
           "f90": ("Fortran90", [{}, {"pymbs_wrapper": True}]), "cs": ("CSharp", [{}, {"include_visual": True}])}


def fork(fn, limit=20):
    """runs fn() in a forked copy; returns ('result', value) | ('exit', code) | ('signal', n) | ('hang', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            data = struct.pack(">I", len(data)) + data
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(code)
    os.close(w)
    import select
    end = time.monotonic() + limit
    buf = b""
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hang:
        return "hang", None
    if os.WIFSIGNALED(st):
        return "signal", os.WTERMSIG(st)
    if os.WEXITSTATUS(st):
        return "exit", os.WEXITSTATUS(st)
    return "result", json.loads(buf[4:])


def monotonic():
    return time.monotonic()


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = None
    return out


def generate(shim, world, jobs, root, faults, again=False, progress=-1):
    """one process life: writes all jobs; -> {'ok', 'error', 'done', 'fired', 'ops'}"""
    lib = shim.lib

    def run():
        import sys
        devnull = os.open("/dev/null", os.O_WRONLY)
        os.dup2(devnull, 1)
        lib.shim_clock_set(1700000000 * 10**9, 0)
        lib.shim_disk_init(os.fsencode(root), -1)
        disk = [f for f in faults if f["op"] != ALLOC]
        heap = [f for f in faults if f["op"] == ALLOC]
        for f in disk:
            lib.shim_disk_fault(f["at"], f["op"], f["kind"], f["err"], f["arg"], f["sticky"])
        res = {"outcome": [], "ops": None}
        def once():
            out = []
            for j in jobs:
                fn = getattr(world.genCode, TARGETS[j["lang"]][0])
                try:
                    fn(j["name"], os.path.join(root, j["dir"]) if j["dir"] else root, **j["kw"])
                    out.append(["ok", "", ""])
                    if progress >= 0:
                        os.write(progress, b".")
                except Exception as ex:
                    out.append(["error", type(ex).__name__, str(ex).replace(root, "OUT")[:300]])
            return out
        n = lib.shim_heap_allocs()
        lib.shim_heap_failat(heap[0]["at"] if heap else 0)
        res["outcome"] = once()
        failed = lib.shim_heap_failed()
        lib.shim_heap_failat(0)
        res["fired"] = [lib.shim_disk_fired(disk.index(f)) if f["op"] != ALLOC else int(failed and f is heap[0]) for f in faults]
        res["ops"] = [lib.shim_disk_ops(k) for k in range(4)] + [lib.shim_heap_allocs() - n]
        if again:
            # the same process tries again, the disk works now
            lib.shim_disk_clear()
            res["again"] = once()
        lib.shim_disk_on(0)
        return res
    return fork(run)
