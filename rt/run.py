"""python -m rt.run PROP --seed S --tier quick|thorough --out FILE [--replay FILE]"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [VERIF, REPO]
import tempfile


def worker(a):
    prop, seed, tier, w, ws, budget = a
    from rt import core
    try:
        return core.run_property(prop, seed, tier, w, ws, budget)
    except Exception as e:
        import traceback
        return {"crash": traceback.format_exc()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", default="1"); ap.add_argument("--tier", default="quick")
    ap.add_argument("--out"); ap.add_argument("--budget", type=float, default=None); ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--replay"); ap.add_argument("--only")
    a = ap.parse_args()
    from rt import core
    core.stub_heavy()
    sys.setrecursionlimit(3000)
    scratch = tempfile.mkdtemp(prefix="verif_rt_")
    os.environ["VERIF_SCRATCH"] = scratch
    os.chdir(scratch)
    try:
        if a.replay:
            rep = json.load(open(a.replay)) if os.path.exists(a.replay) else json.loads(a.replay)
            res = replay(core, a.prop, rep)
            print(json.dumps(res))
            if a.out: json.dump(res, open(a.out, "w"))
            return 1 if any(r["violated"] for r in res) else 0
        budget = a.budget or (60 if a.tier == "quick" else 600)
        ws = max(1, a.workers)
        args = [(a.prop, a.seed, a.tier, w, ws, budget) for w in range(ws)]
        try:
            core.load_checks(a.prop)       # import the code once, before forking
        except Exception:
            import traceback
            res = {"crash": traceback.format_exc()}
        else:
            if ws == 1: rs = [worker(args[0])]
            else:
                with mp.get_context("fork").Pool(ws) as p: rs = p.map(worker, args, chunksize=1)
            res = merge(rs)
        if a.out: json.dump(res, open(a.out, "w"))
        else:
            print(json.dumps({k: v for k, v in res.items() if k != "clauses"}, indent=1)[:6000])
            print("clauses:", len(res.get("clauses", {})))
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def merge(rs):
    for r in rs:
        if "crash" in r: return r
    out = {"stats": {}, "violations": [], "ensures": 0, "clauses": {}, "wall": max(r["wall"] for r in rs), "complete": all(r["complete"] for r in rs)}
    hs = set()
    out["samples"] = []
    for r in rs:
        hs |= set(r["hashes"])
        out["samples"] += r["samples"]
        for k, v in r["stats"].items():
            s = out["stats"].setdefault(k, {"evaluated": 0, "skipped": 0})
            for x in v: s[x] += v[x]
        out["violations"] += r["violations"]
        out["ensures"] += r["ensures"]
        for k, v in r["clauses"].items(): out["clauses"][k] = out["clauses"].get(k, 0) + v
    out["distinct"] = len(hs)
    return out


def replay(core, prop, reps):
    """reps: list of {"lemma": name, "args": {...}} (from the prover) or violations of a previous run"""
    import random
    checks = {c["name"]: c for c in core.load_checks(prop)}
    out = []
    for r in reps:
        if "lemma" in r:
            c = checks.get("lemma:" + r["lemma"])
            if c is None: out.append({"violated": False, "what": "lemma has no run-time form"}); continue
            try:
                args = {k: core.from_json(r["args"][k], t) for k, t in c["types"].items()}
            except Exception as e:
                out.append({"violated": False, "what": "counterexample is not constructible: %s: %s" % (type(e).__name__, e)}); continue
            w = core.call_check(c, args)
        else:
            c = checks.get(r["check"])
            if c is None: out.append({"violated": False, "what": "no such check"}); continue
            if r["kind"] == "fixed":
                case = next(x for i, x in enumerate(c["cases"]()) if i == r["index"])
            else:
                case = c["gen"](random.Random("%s/%s/%d" % (r["seed"], c["name"], r["index"])), r["index"])
            w = core.call_check(c, case)
        out.append({"violated": w is not None and w != "skip", "what": w})
    return out


if __name__ == "__main__":
    sys.exit(main())
