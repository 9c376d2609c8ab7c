"""Orchestrator: builds, runs many seeded simulations in parallel, gates and minimises violations, writes evidence."""
import argparse, hashlib, importlib, json, os, subprocess, sys, threading, time, queue, shutil

from . import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
NZ = 8


def setarch():
    try:
        if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


class Zygote:
    def __init__(self, modname, so, shim, hashseed, arch, extra_env=None):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"),
               "LANG": "C.UTF-8", "QT_QPA_PLATFORM": "offscreen", "MPLBACKEND": "agg", "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONWARNINGS": "ignore", "PYTHONHASHSEED": str(hashseed), "DST_SO": so, "DST_REPO": B.REPO,
               "PYTHONPATH": os.path.join(VERIF, "sim"), "LD_PRELOAD": shim, "OMP_NUM_THREADS": "1",
               "OPENBLAS_NUM_THREADS": "1", "DST_BUILD": B.BUILD, "DST_SHIM": shim}
        env.update(extra_env or {})
        self.hashseed = hashseed
        self.p = subprocess.Popen(arch + [B.PY, "-m", "dst.zygote", modname], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd="/")
        self.err = []
        threading.Thread(target=lambda: self.err.extend(self.p.stderr), daemon=True).start()
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            time.sleep(0.2)
            self.dead = "".join(self.err)[-4000:]
        else:
            self.dead = None

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"harness": "the zygote died: " + "".join(self.err)[-3000:], "viol": [], "i": job.get("i", -1)}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def hashseeds(seed):
    return [0] + [int(hashlib.sha256(b"hs%d/%d" % (seed, k)).hexdigest()[:7], 16) for k in range(1, NZ)]


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", []) if e["property"] == pid and e.get("status") == "open"]


def ddmin(items, test, budget):
    """smallest sublist (by chunk removal) for which test(sublist) stays true"""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        done = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                done = True
            else:
                i += size
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, zy, plan, sig, limit_s):
    t0 = time.time()
    budget = [400]

    def bad(p):
        if time.time() - t0 > limit_s:
            budget[0] = 0
            return False
        r = zy.run({"plan": p})
        return any(v["sig"] == sig for v in r.get("viol", []))
    for field in getattr(mod, "SHRINK", ["steps"]):
        if isinstance(plan.get(field), list) and plan[field]:
            def test(c, field=field):
                q = dict(plan)
                q[field] = c
                return bad(q)
            plan = dict(plan)
            plan[field] = ddmin(plan[field], test, budget)
    if hasattr(mod, "simplify_plan"):
        budget[0] = max(budget[0], 1) + 2000
        again = True
        while again and budget[0] > 0:
            again = False
            for q in mod.simplify_plan(plan):
                if budget[0] <= 0:
                    break
                budget[0] -= 1
                if bad(q):
                    plan, again = q, True
                    break
    return plan


def do_replay(pid, path, quiet=False):
    rec = json.load(open(path))
    modname = rec["module"]
    mod = importlib.import_module("dst.checks." + modname)
    so, shim = B.build(getattr(mod, "VARIANT", "plain"))
    z = Zygote(modname, so, shim, rec["hashseed"], setarch(), getattr(mod, "ENV", None))
    if z.dead is not None:
        print("HARNESS ERROR: zygote did not start: " + z.dead)
        return 2
    r = z.run({"plan": rec["plan"], "verbose": True})
    z.close()
    if r.get("harness"):
        print("HARNESS ERROR: " + r["harness"])
        return 2
    for v in r.get("viol", []):
        if not quiet:
            print("step %s: [%s] %s" % (v.get("step"), v["sig"], v["msg"]))
            if v.get("trace"):
                print(v["trace"])
    if any(v["sig"] == rec["sig"] for v in r.get("viol", [])):
        if r["hash"] != rec.get("hash"):
            print("note: same violation, different run log (%s, recorded %s)" % (r["hash"][:16], str(rec.get("hash"))[:16]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the recorded violation did not occur")
    return 0


def check(modname, tier, seed, runs=None, wall=None):
    t_start = time.time()
    mod = importlib.import_module("dst.checks." + modname)
    pid = mod.PROPERTY
    so, shim = B.build(getattr(mod, "VARIANT", "plain"))
    t_built = time.time()
    arch = setarch()
    total = runs or (mod.QUICK_RUNS if tier == "quick" else mod.THOROUGH_RUNS)
    cap = wall or (getattr(mod, "QUICK_WALL", 150) if tier == "quick" else getattr(mod, "THOROUGH_WALL", 3600))
    hs = hashseeds(seed)
    zys = [None] * NZ
    known = load_known(pid)
    lock = threading.Lock()
    agg = {"runs": 0, "nontrivial": set(), "states": set(), "stats": {}, "simtime": 0.0, "audits": 0, "wallsum": 0.0}
    violations, harness, samples = [], [], []
    deadline = t_built + cap
    stopflag = threading.Event()

    def worker(k):
        z = Zygote(modname, so, shim, hs[k], arch, getattr(mod, "ENV", None))
        if z.dead is not None:
            # the code under test cannot even be imported
            with lock:
                harness.append("zygote did not start: " + z.dead)
            return
        zys[k] = z
        i = k
        n = 0
        while i < total and time.time() < deadline and not stopflag.is_set():
            s = int(hashlib.sha256(("%s/%d/%d" % (modname, seed, i)).encode()).hexdigest()[:12], 16)
            job = {"i": i, "seed": s, "tier": tier, "want_plan": i < 3}
            r = z.run(job)
            if n < 2 and not r.get("harness") and not r.get("viol"):
                r2 = z.run(dict(job, want_plan=True))
                if r2.get("hash") != r.get("hash"):
                    # one more time, to tell load-dependent behaviour from a wrong audit
                    with lock:
                        harness.append("seed %d: two runs of the same seed differ: %s / %s" % (s, r.get("hash"), r2.get("hash")))
                with lock:
                    agg["audits"] += 1
            n += 1
            with lock:
                if r.get("harness"):
                    harness.append("seed %d: %s" % (s, r["harness"]))
                    if len(harness) > 3:
                        stopflag.set()
                else:
                    agg["runs"] += 1
                    agg["wallsum"] += r.get("wall", 0)
                    for key, v in r["stats"].items():
                        agg["stats"][key] = agg["stats"].get(key, 0) + v
                    agg["states"].update(r["states"])
                    agg["simtime"] += r.get("simtime", 0)
                    if r.get("nontrivial"):
                        agg["nontrivial"].add(r["hash"])
                    if i < 3:
                        samples.append({"run": i, "seed": s, "hashseed": hs[k], "plan": trim(r.get("plan"))})
                    for v in r["viol"]:
                        if any(e["sig"] == v["sig"] for e in known):
                            continue
                        violations.append((i, s, k, v, r["plan"], r["hash"]))
                        if len(violations) >= 3:
                            stopflag.set()
            i += NZ
    ths = [threading.Thread(target=worker, args=(k,)) for k in range(min(NZ, total))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    t_done = time.time()
    rc = 0
    out = []
    # known findings: re-run each recorded input; a finding that no longer fails is not reported
    for e in known:
        z = next((z for z in zys if z), None)
        if z is None:
            break
        p = json.load(open(os.path.join(VERIF, e["replay"]))) if e.get("replay") else None
        if p is None:
            continue
        r = z.run({"plan": p["plan"]})
        if any(v["sig"] == e["sig"] for v in r.get("viol", [])):
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    confirmed = None
    if violations:
        violations.sort(key=lambda x: x[0])
        for (i, s, k, v, plan, h) in violations[:3]:
            z = zys[k]
            if z is None or plan is None:
                continue
            r1 = z.run({"plan": plan})
            if not any(x["sig"] == v["sig"] for x in r1.get("viol", [])):
                harness.append("seed %d: violation %s did not repeat" % (s, v["sig"]))
                continue
            small = minimise(mod, z, plan, v["sig"], 45 if tier == "quick" else 240)
            r2 = z.run({"plan": small, "verbose": True})
            vv = [x for x in r2.get("viol", []) if x["sig"] == v["sig"]]
            if not vv:
                small, r2, vv = plan, z.run({"plan": plan, "verbose": True}), [v]
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%d.json" % (pid, s))
            json.dump({"property": pid, "module": modname, "seed": s, "verif_seed": seed, "run": i, "hashseed": hs[k],
                       "sig": v["sig"], "msg": vv[0]["msg"], "hash": r2.get("hash"), "plan": small,
                       "log": (r2.get("lines") or [])[-400:]}, open(path, "w"), indent=1)
            p = subprocess.run([sys.executable, "-m", "dst.orch", modname, "--replay", path], cwd=os.path.join(VERIF, "sim"),
                               capture_output=True, text=True)
            if p.returncode == 1:
                confirmed = (path, v, vv[0])
                break
            harness.append("seed %d: violation %s did not replay in a fresh process: %s" % (s, v["sig"], p.stdout[-500:]))
    for z in zys:
        if z:
            z.close()
    wall = time.time() - t_start
    if not samples:
        samples = [{"note": "no run finished"}]
    samples.sort(key=lambda x: x.get("run", 0))
    faults = {k: v for k, v in sorted(agg["stats"].items())}
    loop = max(1e-6, t_done - t_built)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
          "violations": 1 if confirmed else 0,
          "coverage": {
              "evaluations": agg["runs"], "distinct_nontrivial": len(agg["nontrivial"]), "rule": mod.RULE,
              "samples": samples,
              "simulated_runs_per_hour": int(agg["runs"] * 3600 / loop), "seeds_per_hour": int(agg["runs"] * 3600 / loop),
              "simulated_time_s": round(agg["simtime"], 3),
              "faults_and_choices_injected": faults,
              "distinct_states": len(agg["states"]), "state_measure": getattr(mod, "STATES", "none"),
              "hash_seeds": hs, "determinism_audits": agg["audits"],
              "real_components": mod.REAL, "stubbed_components": mod.STUB,
              "build_s": round(t_built - t_start, 2)},
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial, %d states) in %.1fs, build %.1fs, %d audits" % (
        pid, tier, agg["runs"], len(agg["nontrivial"]), len(agg["states"]), t_done - t_built, t_built - t_start, agg["audits"]))
    for k, v in faults.items():
        print("   %-48s %d" % (k, v))
    if confirmed:
        path, v, vv = confirmed
        print("violation (%s): %s" % (v["sig"], vv["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if harness:
        for h in harness[:4]:
            print("HARNESS ERROR: " + h)
        return 2
    return 0


def trim(p, n=4000):
    s = json.dumps(p)
    return p if len(s) <= n else {"truncated": s[:n]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    a = ap.parse_args()
    if a.replay:
        mod = importlib.import_module("dst.checks." + a.module)
        return do_replay(mod.PROPERTY, a.replay)
    return check(a.module, a.tier, a.seed, a.runs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
