"""python3-vt -m pydv.run PROP --out FILE: prove every lemma of a property, one process per lemma."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(prop, name, root, timeout, budget, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    from . import verify
    try:
        e, rs = verify.verify_property(prop, root, timeout, budget, only=[name])
        r = rs[0]
        d = {"lemma": name, "paths": r.paths, "obligations": len(r.obligations), "unsupported": r.unsupported, "cover": r.cover,
             "time": r.time, "functions": sorted(r.functions), "assumed": sorted(e.assumed | e.assumptions | {"model of the library: " + x for x in e.lib_used}), "backends": {}, "names": {}, "failed": [],
             "solver_s": 0.0, "contracts": sorted(e.used_contracts), "note": getattr(r, "note", None)}
        for ob in r.obligations:
            b = getattr(ob, "backend", None) or "z3"
            d["backends"][b] = d["backends"].get(b, 0) + 1
            d["solver_s"] += getattr(ob, "time", 0) or 0
            d["names"][ob.name] = d["names"].get(ob.name, 0) + 1
        for ob in r.failed:
            d["failed"].append({"name": ob.name, "status": str(ob.status), "args": getattr(ob, "args", None),
                                "goal": str(ob.goal)[:1500], "hyps": [str(h)[:400] for h in ob.hyps[-20:]]})
    except BaseException as x:
        import traceback
        d = {"lemma": name, "unsupported": "verifier crashed: " + traceback.format_exc()[-1500:], "obligations": 0, "failed": [], "paths": 0, "cover": {},
             "time": 0, "functions": [], "assumed": [], "backends": {}, "names": {}, "solver_s": 0}
    conn.send(d)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--out"); ap.add_argument("--root", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--timeout", type=int, default=10000); ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--workers", type=int, default=5); ap.add_argument("--only")
    a = ap.parse_args()
    from . import verify
    path = os.path.join(VERIF, "specs", a.prop.lower() + ".py")
    todo = []
    if os.path.exists(path):
        todo = [n for n, p, t, kw in verify.load_types(path)[0] if p == a.prop and kw.get("prove") is not False]
        todo += ["contract_" + n for n, t, kw in verify.contracts_of(a.prop)]
        todo = [n for n in todo if not a.only or n == a.only]
    order = {n: i for i, n in enumerate(todo)}
    ctx = mp.get_context("fork")
    running, results = [], []
    t0 = time.time()
    pending = list(todo)
    while pending or running:
        while pending and len(running) < a.workers:
            n = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(a.prop, n, a.root, a.timeout, a.budget, wr)); p.start(); wr.close()
            running.append((n, p, rd, time.time()))
        nxt = []
        for n, p, rd, ts in running:
            if rd.poll(0.02):
                try: results.append(rd.recv())
                except EOFError: results.append(dead(n, "verifier process died (memory or crash)"))
                p.join(5)
                if p.is_alive(): p.kill()
            elif time.time() - ts > a.budget * 1.3 + 30:
                p.kill(); results.append(dead(n, "no answer within %d s" % (a.budget * 1.3 + 30)))
            else: nxt.append((n, p, rd, ts))
        running = nxt
        time.sleep(0.02)
    weak = {d["lemma"][len("contract_"):] for d in results if d["lemma"].startswith("contract_") and d["unsupported"]}
    for d in results:
        w = weak & set(d.get("contracts", ()))
        if w and not d["unsupported"]: d["unsupported"] = "relies on the contract of %s, which was not proved" % ", ".join(sorted(w))
    results.sort(key=lambda d: order[d["lemma"]])
    res = {"lemmas": results, "wall": time.time() - t0}
    if a.out: json.dump(res, open(a.out, "w"))
    else:
        for d in results:
            print("%-45s paths=%d obligations=%d failed=%d unsupported=%s cover=%s %.1fs" % (d["lemma"], d["paths"], d["obligations"], len(d["failed"]), d["unsupported"], d["cover"], d["time"]))
            for f in d["failed"]: print("     FAILED", f["name"], f["status"], f["args"])


def dead(n, why):
    return {"lemma": n, "unsupported": why, "obligations": 0, "failed": [], "paths": 0, "cover": {}, "time": 0, "functions": [], "assumed": [], "backends": {}, "names": {}, "solver_s": 0}


if __name__ == "__main__":
    main()
