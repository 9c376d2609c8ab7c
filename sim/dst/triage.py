"""developer tool: run many seeds, minimise and print every violation class found"""
import os, sys, importlib, hashlib, json, threading
from . import build as B, orch as O


def main():
    name, runs, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    maxshow = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    mod = importlib.import_module("dst.checks." + name)
    so, shim = B.build(getattr(mod, "VARIANT", "plain"))
    hs = O.hashseeds(seed)
    found, lock = [], threading.Lock()
    tot = [0]
    stop = os.environ.get("STOP")       # the first violation is enough

    def work(k):
        z = O.Zygote(name, so, shim, hs[k], O.setarch(), getattr(mod, "ENV", None))
        if z.dead:
            print(z.dead)
            return
        for i in range(k, runs, O.NZ):
            s = int(hashlib.sha256(("%s/%d/%d" % (name, seed, i)).encode()).hexdigest()[:12], 16)
            r = z.run({"i": i, "seed": s, "tier": "quick"})
            with lock:
                tot[0] += 1
            if r.get("harness"):
                print("HARNESS", s, r["harness"][-1500:])
            if stop and r.get("viol"):
                tot[0] = runs
                found.append((r["viol"][0]["sig"], r["viol"][0], None, s))
            if stop and found:
                break
            for v in r.get("viol", []):
                small = r["plan"]
                with lock:
                    n = sum(1 for f in found if f[0] == v["sig"])
                    if n >= maxshow:
                        found.append((v["sig"], None, None, s))
                        continue
                small = O.minimise(mod, z, r["plan"], v["sig"], int(os.environ.get("MIN", "60")))
                r2 = z.run({"plan": small})
                m = [x for x in r2.get("viol", []) if x["sig"] == v["sig"]] or [v]
                with lock:
                    found.append((v["sig"], m[0], small, s))
        z.close()
    ths = [threading.Thread(target=work, args=(k,)) for k in range(O.NZ)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    print("runs", tot[0], "violations", len(found))
    cnt = {}
    for f in found:
        cnt[f[0]] = cnt.get(f[0], 0) + 1
    print(cnt)
    shown = {}
    for sig, v, plan, s in found:
        if plan is None:
            continue
        shown[sig] = shown.get(sig, 0) + 1
        if shown[sig] > maxshow:
            continue
        print("----", sig, s, v["msg"][:450])
        if hasattr(mod, "show"):
            print("    ", mod.show(plan)[:1500])
        for f in [] if hasattr(mod, "show") else getattr(mod, "SHRINK", ["steps"]):
            t = json.dumps(plan.get(f))
            print("    ", f, t[:2500])
        if v.get("trace"):
            print(v["trace"][-350:])


main()
