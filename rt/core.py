"""Run-time contract checker: evaluates the contracts of a property on concrete inputs against the
real code imported from the repository's working tree.  It replays counterexamples, provides the
bounded stand-in for functions outside the prover's subset, and cross-checks the prover."""
import ast
import glob
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import types as _types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

from pydv import types as TY
from pydv import speclib
from pydv.speclib import ContractViolation, Skip, ensure, assume

CHECKS = []


def check(prop, gen=None, n=300, cases=None, cost=1.0, note=None):
    """register a concrete contract: f(case) for generated cases; cases() enumerates fixed inputs first"""
    def deco(f):
        CHECKS.append({"prop": prop, "fn": f, "name": f.__name__, "gen": gen, "n": n, "cases": cases, "cost": cost})
        return f
    return deco


# ------------------------------------------------------------------ stubs for heavy third-party modules

class _Fake:
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return _Fake()
    def __call__(self, *a, **k): return _Fake()
    def __getitem__(self, k): return _Fake()
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return iter(())
    def __mro_entries__(self, bases): return (object,)


def stub_module(name):
    if name in sys.modules: return sys.modules[name]
    m = _types.ModuleType(name)
    m.__path__ = []
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else _Fake()
    sys.modules[name] = m
    if "." in name:
        parent = stub_module(name.rsplit(".", 1)[0])
        setattr(parent, name.rsplit(".", 1)[1], m)
    return m


def stub_heavy():
    for n in ("tensorflow", "tensorflow.contrib", "tensorflow.python", "tensorflow.keras", "tensorflow.contrib.crf"): stub_module(n)


# ------------------------------------------------------------------ literals of the current source

class Literals:
    def __init__(self):
        base = {}
        p = os.path.join(VERIF, "rt", "baseline_literals.json")
        if os.path.exists(p): base = json.load(open(p))
        cur = harvest(REPO)
        self.new_ints, self.new_strs = set(), set()
        self.ints, self.strs = set(), set()
        for f, (ints, strs) in cur.items():
            bi, bs = base.get(f, [[], []])
            self.ints |= set(ints); self.strs |= set(strs)
            self.new_ints |= {i for i in ints if i not in bi}
            self.new_strs |= {s for s in strs if s not in bs}
        self.new_ints = sorted(self.new_ints)[:40]
        self.new_strs = sorted(self.new_strs)[:40]
        self.ints = sorted(self.ints); self.strs = sorted(self.strs)


def harvest(root):
    out = {}
    for f in sorted(glob.glob(os.path.join(root, "babylondigger", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(f, root)
        if "/tests/" in rel: continue
        try: tree = ast.parse(open(f, encoding="utf-8").read())
        except SyntaxError: continue
        ints, strs = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, int) and not isinstance(n.value, bool) and 2 <= n.value <= 5000: ints.add(n.value)
                elif isinstance(n.value, str) and 1 <= len(n.value) <= 12 and "\n" not in n.value[:-1]: strs.add(n.value)
        out[rel] = (sorted(ints), sorted(strs))
    return out


_LIT = None


def lits():
    global _LIT
    if _LIT is None: _LIT = Literals()
    return _LIT


# ------------------------------------------------------------------ generators

ALPHABETS = ["ab", "abc", "aAbB", "абвАБВ", "aä éß", "İıſςΣσ", "-_.=|#", "01239", "xyz\u0301\u00ad", "日本語😀", "a'’`"]


def size(rng, small=6):
    """a length: mostly small, sometimes around a literal of the source"""
    r = rng.random()
    if r < 0.72: return rng.randint(0, small)
    if r < 0.9: return rng.randint(0, 3 * small)
    L = lits()
    pool = L.new_ints if L.new_ints and rng.random() < 0.7 else [x for x in L.ints if x <= 60] or [7]
    pool = [x for x in pool if x <= 300] or [10]
    return max(0, rng.choice(pool) + rng.randint(-1, 2))


def gen_str(rng, nonempty=False, alphabet=None, spaces=False, small=5):
    L = lits()
    r = rng.random()
    if alphabet is None:
        if r < 0.06 and L.new_strs:
            s = rng.choice(L.new_strs)
            if rng.random() < 0.5: s = s + gen_str(rng, alphabet="ab")
            if spaces or not any(c.isspace() for c in s):
                if s or not nonempty: return s
        if r < 0.10:
            s = rng.choice(L.strs)
            if spaces or not any(c.isspace() for c in s):
                if s or not nonempty: return s
        alphabet = rng.choice(ALPHABETS)
    n = size(rng, small)
    if nonempty: n = max(1, n)
    al = alphabet if spaces else alphabet.replace(" ", "")
    return "".join(rng.choice(al) for _ in range(n))


def gen_int(rng):
    L = lits()
    r = rng.random()
    if r < 0.75: return rng.randint(-2, 8)
    if r < 0.85 and L.new_ints: return rng.choice(L.new_ints) + rng.randint(-1, 1)
    if r < 0.95: return rng.choice(L.ints) + rng.randint(-1, 1)
    return rng.randint(-100, 1000)


def gen_type(rng, t, env=None):
    if isinstance(t, TY.IntT): return gen_int(rng)
    if isinstance(t, TY.BoolT): return rng.random() < 0.5
    if isinstance(t, TY.StrT): return gen_str(rng)
    if isinstance(t, TY.RealT): return rng.choice([0.0, 1.0, 0.5, rng.random(), rng.uniform(-3, 3)])
    if isinstance(t, TY.NoneT): return None
    if isinstance(t, TY.OptT): return None if rng.random() < 0.35 else gen_type(rng, t.t)
    if isinstance(t, TY.TupT): return tuple(gen_type(rng, x) for x in t.ts)
    if isinstance(t, TY.ListT): return [gen_type(rng, t.t) for _ in range(size(rng, 4))]
    if isinstance(t, TY.DictT): return {gen_type(rng, t.k): gen_type(rng, t.v) for _ in range(rng.randint(0, 4))}
    if isinstance(t, TY.AnyT): return "%s%d" % (t.name, rng.randint(0, 3))
    if isinstance(t, TY.FnT):
        memo, seed = {}, rng.random()
        def f(*a):
            k = repr(a)
            if k not in memo: memo[k] = gen_type(random.Random("%s/%s" % (seed, k)), t.ret)
            return memo[k]
        return f
    if isinstance(t, TY.RecT):
        for _ in range(50):
            args = {k: gen_type(rng, x) for k, x in t.fields.items()}
            try: return resolve(t.ref)(**args)
            except (AssertionError, ValueError): continue
        raise Skip()
    raise Skip()


def resolve(ref):
    mod, _, path = ref.partition(":")
    v = importlib.import_module(mod)
    for p in path.split("."): v = getattr(v, p)
    return v


def from_json(v, t):
    if isinstance(t, TY.OptT): return None if v is None else from_json(v, t.t)
    if isinstance(v, dict) and "$t" in v: return tuple(from_json(x, y) for x, y in zip(v["$t"], t.ts))
    if isinstance(v, dict) and "$d" in v: return {from_json(k, t.k): from_json(x, t.v) for k, x in v["$d"]}
    if isinstance(v, dict) and "$r" in v: return resolve(t.ref)(**{n: from_json(v["args"][n], x) for n, x in t.fields.items()})
    if isinstance(t, TY.ListT): return [from_json(x, t.t) for x in v]
    return v


# ------------------------------------------------------------------ running

class Timeout(Exception):
    pass


def _alarm(*a): raise Timeout()


def run_case(fn, args, kw, limit=30):
    """None if the contract holds (or the precondition does not), otherwise a description"""
    out = io.StringIO()
    old = sys.stdout
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sys.stdout = out
    try:
        fn(*args, **kw)
        return None
    except Skip:
        return "skip"
    except ContractViolation as e:
        return "contract violated: %s" % e
    except Timeout:
        return "no result within %d s" % limit
    except RecursionError as e:
        return "unexpected RecursionError"
    except Exception as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old


def small_values(t):
    if isinstance(t, TY.IntT): return [0, 1, -1, 2, 3]
    if isinstance(t, TY.BoolT): return [False, True]
    if isinstance(t, TY.StrT): return ["", "a", "b", "ab", "ba", "aa", "A"]
    if isinstance(t, TY.OptT): return [None] + small_values(t.t)
    if isinstance(t, TY.ListT):
        xs = small_values(t.t)[:3]
        return [[]] + [[x] for x in xs] + [[x, y] for x in xs for y in xs]
    return []


_LOADED = {}


def load_checks(prop):
    """lemmas (shared with the prover) and concrete checks of a property"""
    if prop in _LOADED: return _LOADED[prop]
    out = []
    for m in ("specs." + prop.lower(), "specs." + prop.lower() + "_rt"):
        if not os.path.exists(os.path.join(VERIF, *m.split(".")) + ".py"): continue
        try: importlib.import_module(m)
        except (ImportError, AttributeError):
            # lemmas may name private functions; a tree that renamed one is still judged by the concrete checks
            if m.endswith("_rt") or not os.path.exists(os.path.join(VERIF, *m.split(".")) + "_rt.py"): raise
    lemmas = [l for l in speclib.LEMMAS if l["prop"] == prop and l["rt"] is not False]
    try: importlib.import_module("specs.contracts")
    except (ImportError, AttributeError): pass
    for c in speclib.CONTRACTS:
        if prop not in c["props"]: continue
        if any(x.startswith("_") for x in c["qual"].split(":")[1].split(".")) and not os.environ.get("VERIF_XCHECK"): continue    # internal: only cross-checked
        try:
            import inspect
            if [x for x in inspect.signature(speclib.function_of(c["qual"])).parameters][-len(c["types"]):] != list(c["types"]): continue
        except (ImportError, AttributeError, ValueError): continue
        try: lemmas.append(speclib.contract_lemma(c))
        except (ImportError, AttributeError): pass          # the function is not there any more: nothing to evaluate
    for l in lemmas:
        types = l["types"]
        if l["gen"] is not None:
            gen = (lambda g: lambda rng, i: g(rng))(l["gen"])
            cases = None
        else:
            gen = (lambda ts: lambda rng, i: {k: gen_type(rng, t) for k, t in ts.items()})(types)
            def cases(ts=types):
                import itertools
                vals = [small_values(t) for t in ts.values()]
                if not all(vals): return
                tot = 1
                for v in vals: tot *= len(v)
                it = itertools.product(*vals)
                step = max(1, tot // 1500)
                for j, c in enumerate(it):
                    if j % step == 0: yield dict(zip(ts, c))
        out.append({"name": "lemma:" + l["fn"].__name__, "fn": l["fn"], "gen": gen, "cases": cases, "n": l["n"] or 1000, "kw": True, "types": types})
    for c in CHECKS:
        if c["prop"] != prop: continue
        out.append(dict(c, kw=False, types=None))
    _LOADED[prop] = out
    return out


def call_check(c, case):
    return run_case(c["fn"], (), case) if c["kw"] else run_case(c["fn"], (case,), {})


def describe(x, lim=4000):
    try: s = repr(x)
    except Exception as e: s = "<unprintable: %s>" % e
    return s if len(s) <= lim else s[:lim] + "..."


def run_property(prop, seed, tier, worker, workers, budget):
    scale = 4 if tier == "quick" else 80
    t0 = time.time()
    checks = load_checks(prop)
    stats, violations = {}, []
    hashes, samples = set(), []
    iters = []
    for c in checks:
        def it(c=c):
            j = 0
            if c["cases"] is not None:
                for case in c["cases"]():
                    if j % workers == worker: yield ("fixed", j, case)
                    j += 1
            if c["gen"] is not None:
                for i in range(worker, int(c["n"] * scale), workers):
                    rng = random.Random("%s/%s/%d" % (seed, c["name"], i))
                    try:
                        case = c["gen"](rng, i)
                    except Skip:
                        continue
                    yield ("gen", i, case)
        iters.append((c, it()))
        stats[c["name"]] = {"evaluated": 0, "skipped": 0}
    live = list(iters)
    while live and len(violations) < 4 and time.time() - t0 < budget:
        nxt = []
        for c, it in live:
            done = False
            tb = time.time()
            for _ in range(50):
                try: kind, i, case = next(it)
                except StopIteration: done = True; break
                desc = describe(case)
                r = call_check(c, case)
                if r is None:
                    st = stats[c["name"]]
                    st["evaluated"] += 1
                    hashes.add(hash((c["name"], desc)) & 0xffffffffffff)
                    if worker == 0 and st["evaluated"] in (2, 40): samples.append({"check": c["name"], "input": desc[:600]})
                elif r == "skip": stats[c["name"]]["skipped"] += 1
                else:
                    stats[c["name"]]["evaluated"] += 1
                    violations.append({"check": c["name"], "kind": kind, "index": i, "seed": seed, "input": desc, "what": r})
                    done = True
                    break
                if time.time() - tb > 2 or time.time() - t0 > budget: break
            if not done: nxt.append((c, it))
        live = nxt
    return {"stats": stats, "violations": violations, "ensures": speclib.COUNT[0], "clauses": dict(speclib.COUNT[1]), "hashes": list(hashes), "samples": samples,
            "wall": time.time() - t0, "complete": not live}
