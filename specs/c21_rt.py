"""C21: grid expansion enumerates the full product on independent copies."""
import copy
import itertools
import json
import os
import shutil
import sys
import tempfile
from pydv.speclib import *
from rt.core import check, stub_heavy
stub_heavy()
from babylondigger.evaluation import evaluation as evl
from babylondigger.evaluation import grid_eval

KEYS = ["a", "b", "c", "epochs", "lr", "nn", "x y", "0"]
_SCRATCH = []


def scratch():
    if not _SCRATCH:
        import atexit
        _SCRATCH.append(tempfile.mkdtemp(prefix="c21-"))
        atexit.register(lambda: shutil.rmtree(_SCRATCH[0], ignore_errors=True))
    return _SCRATCH[0]


def expand(base, grid, method="m", settings=None):
    """the list of configurations handed to the evaluation by the command-line entry point"""
    d, got = scratch(), []
    names = {}
    for k, v in (("settings", settings or {"s": 1}), ("hyperparams", base), ("grid", grid)):
        names[k] = os.path.join(d, k + ".json")
        with open(names[k], "w") as f: json.dump(v, f)
    argv, old = sys.argv, evl.main
    sys.argv = ["grid_eval", "--settings", names["settings"], "--method", method, "--hyperparams", names["hyperparams"], "--grid", names["grid"]]
    evl.main = got.append
    try: grid_eval.main()
    finally: sys.argv, evl.main = argv, old
    ensure(len(got) == 1, "one evaluation is started")
    ensure(got[0].settings == (settings or {"s": 1}) and got[0].method == method, "settings and method are passed on")
    return got[0].hyperparams


def gen_value(rng, depth=0):
    r = rng.random()
    if r < 0.15: return [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
    if r < 0.25: return rng.choice([None, True, False, "s", 0.5])
    return rng.randint(0, 5)


def gen_dict(rng, depth):
    out = {}
    for k in rng.sample(KEYS, rng.randint(1, 5)):
        out[k] = gen_dict(rng, depth - 1) if depth and rng.random() < 0.5 else gen_value(rng)
    return out


def leaves(d, path=()):
    """paths that may be named by a grid: plain values, and whole sub-configurations replaced by a plain value"""
    out = []
    for k, v in d.items():
        if isinstance(v, dict): out += leaves(v, path + (k,))
        else: out.append(path + (k,))
    return out


def nest(path, v):
    for k in reversed(path): v = {k: v}
    return v


def put(d, path, v):
    d = copy.deepcopy(d)
    x = d
    for k in path[:-1]: x = x[k]
    x[path[-1]] = copy.deepcopy(v)
    return d


def gen1(rng, i):
    base = gen_dict(rng, rng.choice([0, 1, 2, 3]))
    ls = leaves(base)
    ps = rng.sample(ls, min(len(ls), rng.choice([1, 1, 2, 2, 3, 4])))
    vals = [[gen_value(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))] for _ in ps]
    names = rng.sample(["g%d" % k for k in range(9)] + KEYS, len(ps))
    return {"base": base, "paths": ps, "vals": vals, "names": names}


def poison(x):
    for k in list(x):
        if isinstance(x[k], dict): poison(x[k])
        elif isinstance(x[k], list): x[k].append("poison")
        x[k] = "poison"


@check("C21", gen=gen1, n=600)
def product(c):
    assume(bool(c["paths"]))
    grid = {n: [nest(p, v) for v in vs] for n, p, vs in zip(c["names"], c["paths"], c["vals"])}
    got = expand(c["base"], grid)
    want = []
    for combo in itertools.product(*c["vals"]):
        x = c["base"]
        for p, v in zip(c["paths"], combo): x = put(x, p, v)
        want.append(x)
    ensure(got == want, "one configuration per combination of grid values, in product order, each the base with exactly these values replaced")
    ensure(all(json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) for a, b in zip(got, want)), "the values keep their types")
    for i in range(len(got)):
        poison(got[i])
        ensure(got[i + 1:] == want[i + 1:], "the configurations share no mutable state")


def gen2(rng, i):
    base = gen_dict(rng, rng.choice([0, 1, 2]))
    ls = leaves(base)
    p = rng.choice(ls)
    good = {"g": [nest(p, gen_value(rng)) for _ in range(rng.choice([1, 2]))]}
    kind = rng.choice(["undefined", "undefined", "mixed", "overlap", "undefined_deep"])
    others = [q for q in ls if q != p]
    if kind == "undefined":
        bad = tuple(p[:-1]) + ("nowhere",)
        grid = {"g": [nest(bad, 1)]} if rng.random() < 0.5 else dict([("h", [nest(bad, 1)])] + list(good.items()))
        if p[:-1] and rng.random() < 0.3: grid = {"h": [nest(("nowhere",) + p, 1)]}
    elif kind == "undefined_deep":
        subs = [k for k, v in base.items() if isinstance(v, dict)]
        if not subs: return None
        grid = {"g": [{rng.choice(subs): {"nowhere": {"x": 1}}}]}
    elif kind == "mixed":
        if not others: return None
        grid = {"g": good["g"] + [nest(rng.choice(others), 1)]}
        rng.shuffle(grid["g"])
    else:
        grid = dict(good, h=[nest(p, gen_value(rng)) for _ in range(rng.choice([1, 2]))])
        if others and rng.random() < 0.5: grid["k"] = [nest(rng.choice(others), 2)]
    return {"base": base, "grid": grid, "kind": kind}


@check("C21", gen=gen2, n=400)
def refused(c):
    assume(c is not None)
    r = attempt(lambda: expand(c["base"], c["grid"]))
    ensure(r.refused(), "a grid with undefined, mixed or overlapping parameters is refused with ValueError (%s)" % c["kind"])
