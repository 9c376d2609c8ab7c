"""Zygote: a warm process that forks one child per simulated run.

stdin : one JSON job per line  {"i":..., "seed":..., "tier":...} or {"plan":...}
stdout: one JSON result per line
"""
import sys, os, json, importlib, importlib.abc, importlib.machinery, importlib.util, signal, time, traceback, resource, select

REPO = os.environ.get("DST_REPO", "/repo")
SO = os.environ["DST_SO"]


class Finder(importlib.abc.MetaPathFinder):
    """pymbs comes from /repo, its native half from the fresh build."""

    def find_spec(self, name, path=None, target=None):
        if name == "pymbs.symbolics.symbolics":
            loader = importlib.machinery.ExtensionFileLoader(name, SO)
            return importlib.util.spec_from_file_location(name, SO, loader=loader)
        return None


def install():
    sys.meta_path.insert(0, Finder())
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)


def child(mod, job, wfd, errfd):
    from . import core
    cpu = getattr(mod, "CPU_LIMIT", 60)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mem = getattr(mod, "MEM_LIMIT", 16 << 30)
    if not os.environ.get("DST_NOASLIMIT"):
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    if errfd >= 0:
        os.dup2(errfd, 2)
        os.dup2(errfd, 1)
    ctx = core.Ctx(job)
    try:
        plan = job.get("plan")
        if plan is None:
            plan = mod.make_plan(job["seed"], job.get("tier", "quick"))
        ctx.plan = plan
        # announce the plan first: if the child dies, the parent still knows what it ran
        data = json.dumps({"plan": plan}).encode() + b"\n"
        os.write(wfd, b"P%010d" % len(data)) and writeall(wfd, data)
        try:
            mod.execute(plan, ctx)
        except core.Stop:
            pass
        except core.HarnessError:
            raise
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "?"
            for fr in reversed(tb):
                if fr.filename.startswith(REPO) or "/dst-" in fr.filename:
                    where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
                    break
            ctx.viol.append({"sig": "exception:%s@%s" % (type(e).__name__, where),
                             "msg": "%s: %s" % (type(e).__name__, str(e)[:400]),
                             "trace": traceback.format_exc()[-3000:], "step": ctx.step})
        res = ctx.result()
    except BaseException as e:
        res = {"harness": traceback.format_exc()[-4000:]}
    data = json.dumps(res).encode() + b"\n"
    writeall(wfd, b"R%010d" % len(data))
    writeall(wfd, data)


def writeall(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def run_job(mod, job, timeout):
    rfd, wfd = os.pipe()
    errp = None
    import tempfile
    err = tempfile.TemporaryFile()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            child(mod, job, wfd, err.fileno())
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    t0 = time.monotonic()
    timed_out = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            d = os.read(rfd, 1 << 16)
            if not d:
                break
            buf += d
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    plan, res = None, None
    k = 0
    while k + 11 <= len(buf):
        tag, n = buf[k:k + 1], int(buf[k + 1:k + 11])
        body = buf[k + 11:k + 11 + n]
        if len(body) < n:
            break
        if tag == b"P":
            plan = json.loads(body)["plan"]
        else:
            res = json.loads(body)
        k += 11 + n
    err.seek(0)
    etxt = err.read()[-3000:].decode("utf-8", "replace")
    err.close()
    if res is None:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if timed_out:
            v = {"sig": "hang", "msg": "the run did not end within %ds of wall-clock time" % timeout, "step": -1}
        elif sig == signal.SIGXCPU or sig == signal.SIGKILL:
            v = {"sig": "hang", "msg": "the run did not end within its CPU limit (signal %d)" % sig, "step": -1}
        elif sig:
            v = {"sig": "crash", "msg": "the process died from signal %d (%s)" % (sig, signal.Signals(sig).name), "step": -1, "trace": etxt}
        else:
            v = {"sig": "exit", "msg": "the process ended with status %d without finishing the run" % os.WEXITSTATUS(st), "step": -1, "trace": etxt}
        res = {"viol": [v], "hash": "dead:%s" % v["sig"], "stats": {}, "states": [], "nontrivial": True}
    res["plan"] = plan if (res.get("viol") or res.get("harness") or job.get("want_plan")) else None
    if res.get("viol") or res.get("harness"):
        res["stderr"] = etxt
    return res


def main():
    name = sys.argv[1]
    install()
    mod = importlib.import_module("dst.checks." + name)
    if hasattr(mod, "warm"):
        mod.warm()
    import gc
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        job = json.loads(line)
        t0 = time.monotonic()
        res = run_job(mod, job, getattr(mod, "TIMEOUT", 120))
        res["wall"] = time.monotonic() - t0
        res["i"] = job.get("i", -1)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
