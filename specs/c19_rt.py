"""C19: model selection keeps the best model and disposes of exactly the rest."""
import os
import itertools
from collections import namedtuple
from pydv.speclib import *
from rt.core import check, stub_heavy
stub_heavy()
from babylondigger.evaluation.evaluation import (SingleSeedEvaluator, AverageEvaluator, ParametersEstimator, score_comparator,
                                                 get_metrics_averager, get_metrics_printer)

S = namedtuple("S", "precision recall f1 aligned_accuracy")


def gen_better(rng, n):
    kind = rng.choice(["gt", "gt", "gt", "ge", "lt", "table", "never", "always"])
    return kind, {(i, j): rng.random() < 0.5 for i in range(n) for j in range(n)} if kind == "table" else {}


def better(spec):
    kind, table = spec
    f = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "never": lambda a, b: False, "always": lambda a, b: True,
         "table": lambda a, b: table[a, b]}[kind]
    return lambda a, b: f(a["v"], b["v"])


def select(vals, spec):
    """index of the first candidate no later candidate beats, among those that beat the best before them; disposed order"""
    f, best, gone = better(spec), None, []
    for i, v in enumerate(vals):
        if best is None: best = i
        elif f({"v": v}, {"v": vals[best]}):
            gone.append(best)
            best = i
        else: gone.append(i)
    return best, gone


def gen1(rng, i):
    n = rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
    vals = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
    return {"vals": vals, "better": gen_better(rng, 4), "seed": rng.choice([0, 1, 42]), "path": rng.choice(["", "params-3"]), "params": rng.choice([{}, {"epochs": 3}, {"a": 1, "b": [2]}])}


class Trainer(object):
    """yields one candidate per score, recording how it was called"""
    def __init__(self, vals, log): self.vals, self.log = vals, log
    def train(self, data, dev_tester=None, seed=None, model_dir=None, model_name_format="x-{}", **params):
        self.log.append(("train", data, seed, model_dir, model_name_format, params))
        for i, v in enumerate(self.vals):
            yield dev_tester(("tagger", seed, i, v)), ("tagger", seed, i, v)


class Tester(object):
    def __init__(self, log=None): self.calls = [] if log is None else log
    def test(self, tagger, name):
        self.calls.append((tagger, name))
        return {"v": tagger[3]}


@check("C19", gen=gen1, n=500, cases=lambda: [{"vals": list(v), "better": (k, {}), "seed": 0, "path": "p", "params": {}} for n in range(1, 6) for v in itertools.product((0, 1, 2), repeat=n) for k in ("gt", "ge")])
def single_seed(c):
    log, gone, dev = [], [], Tester()
    data = ["train"]
    ev = SingleSeedEvaluator("base", c["seed"], better(c["better"]), data, dev, lambda s: None, gone.append)
    func, got = ev.evaluate(Trainer(c["vals"], log), c["params"], c["path"])
    best, rest = select(c["vals"], c["better"])
    mp = os.path.join(c["path"], str(c["seed"]))
    ensure(got == {"v": c["vals"][best]}, "the scores of the best candidate are returned")
    ensure(sorted(gone) == sorted(os.path.join(mp, "epoch-%d" % i) for i in rest), "exactly the other candidates are disposed of, each once")
    final = Tester()
    ensure(func(final, "t.conll") == {"v": c["vals"][best]}, "the returned function tests the best model")
    ensure(len(final.calls) == 1 and final.calls[0][0] == ("tagger", c["seed"], best, c["vals"][best]), "the returned function tests the best model once")
    ensure([t for t, _ in dev.calls] == [("tagger", c["seed"], i, v) for i, v in enumerate(c["vals"])], "every candidate is tested once, in order")
    ensure(len(set(nm for _, nm in dev.calls)) == len(c["vals"]), "every candidate has its own result file")
    ensure(log == [("train", data, c["seed"], os.path.join("base", mp), "epoch-{}", c["params"])], "training gets the data, the seed, the model directory and the parameters")


class Ev(object):
    def __init__(self, vals): self.vals, self.calls = iter(vals), []
    def evaluate(self, trainer, params, model_path=""):
        self.calls.append((trainer, params, model_path))
        v = next(self.vals)
        return ("func", v, len(self.calls)), {"v": v}


@check("C19", gen=gen1, n=500, cases=lambda: [{"vals": list(v), "better": (k, {})} for n in range(0, 6) for v in itertools.product((0, 1, 2), repeat=n) for k in ("gt", "ge")])
def parameter_search(c):
    gone, ev = [], Ev(c["vals"])
    params = [{"id": i} for i in range(len(c["vals"]))]
    best = ParametersEstimator(ev, better(c["better"]), gone.append).params_search("trainer", iter(params))
    ensure([x[1] for x in ev.calls] == params and all(x[0] == "trainer" for x in ev.calls), "every candidate is evaluated once, in order")
    paths = [x[2] for x in ev.calls]
    ensure(len(set(paths)) == len(paths), "every candidate has its own path")
    b, rest = select(c["vals"], c["better"])
    if b is None:
        ensure(tuple(best) == (None,) * 4 and gone == [], "nothing is selected from nothing")
        return
    ensure(best.params == params[b] and best.scores == {"v": c["vals"][b]} and best.model == ("func", c["vals"][b], b + 1) and best.path == paths[b], "parameters, model, scores and path of the best candidate are returned")
    ensure(sorted(gone) == sorted(paths[i] for i in rest), "exactly the paths of all other candidates are disposed of, each once")


def gen_score(rng):
    f = lambda: rng.choice([0.0, 1.0, 0.5, rng.random()])
    return S(f(), f(), f(), rng.choice([None, 0.0, rng.random()]))


def gen2(rng, i):
    fields = rng.sample(["UPOS", "XPOS", "Lemmas", "Feats"], rng.choice([1, 2, 3]))
    n = rng.choice([1, 2, 3, 5])
    acc = {f: rng.random() < 0.7 for f in fields}
    rows = []
    for _ in range(n):
        row = {f: gen_score(rng) for f in fields + ["Other"]}
        for f in fields: row[f] = row[f]._replace(aligned_accuracy=rng.random() if acc[f] else None)
        rows.append(row)
    return {"fields": fields, "rows": rows, "metric": rng.choice(["precision", "recall", "f1"])}


@check("C19", gen=gen2, n=400)
def averages(c):
    before = [dict(r) for r in c["rows"]]
    avg = get_metrics_averager(c["fields"])(c["rows"])
    ensure(set(avg) == set(c["fields"]), "the chosen metrics are averaged")
    n = len(c["rows"])
    for f in c["fields"]:
        for k in ("precision", "recall", "f1", "aligned_accuracy"):
            xs = [getattr(r[f], k) for r in c["rows"]]
            want = None if xs[0] is None else sum(xs) / n
            got = getattr(avg[f], k)
            ensure((got is None) == (want is None) and (want is None or abs(got - want) < 1e-9), "the average of %s is the arithmetic mean" % k)
    ensure(c["rows"] == before, "scores are not modified")


@check("C19", gen=gen2, n=400)
def comparison(c):
    cmp = score_comparator(c["fields"], lambda s: getattr(s, c["metric"]))
    tot = [sum(getattr(r[f], c["metric"]) for f in c["fields"]) for r in c["rows"]]
    for a, x in zip(c["rows"], tot):
        for b, y in zip(c["rows"], tot):
            if a is not b and abs(x - y) < 1e-9: continue
            ensure(cmp(a, b) == (x > y and a is not b), "comparison is by the sum of the metric over the fields, strictly")


class Ev2(object):
    def __init__(self, rows, name): self.rows, self.name, self.calls = rows, name, []
    def evaluate(self, trainer, params, model_path=""):
        self.calls.append((trainer, params, model_path))
        return (lambda tester, name: tester(self.name, name)), self.rows


@check("C19", gen=gen2, n=300)
def average_evaluator(c):
    evs = [Ev2(r, i) for i, r in enumerate(c["rows"])]
    averager = get_metrics_averager(c["fields"])
    func, got = AverageEvaluator(evs, averager, get_metrics_printer(c["fields"])).evaluate("trainer", {"p": 1}, "path")
    ensure(got == averager(c["rows"]), "the scores are averaged over the seeds")
    ensure(all(e.calls == [("trainer", {"p": 1}, "path")] for e in evs), "every seed is evaluated once")
    seen = []
    ensure(func(lambda i, name: seen.append((i, name)) or c["rows"][i], "n") == averager(c["rows"]), "test scores are averaged over the best models of the seeds")
    ensure(seen == [(i, "n") for i in range(len(evs))], "every best model is tested once")


# ---------------------------------------------------------------- search over parameters and seeds together

@check("C19", gen=lambda rng, i: {"runs": [[[rng.choice([0, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3, 4]))] for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([1, 2, 3, 4]))]}, n=300)
def whole_search(c):
    nseeds = len(c["runs"][0])
    runs = [r[:nseeds] + [r[-1]] * (nseeds - len(r)) for r in c["runs"]]
    gone, f = [], better(("gt", {}))
    class T(object):
        def train(self, data, dev_tester=None, seed=None, model_dir=None, model_name_format=None, id=None):
            for i, v in enumerate(runs[id][seed]): yield dev_tester(("tagger", (id, seed), i, v)), ("tagger", (id, seed), i, v)
    avg = lambda ss: {"v": sum(s["v"] for s in ss) / len(ss)}
    evs = [SingleSeedEvaluator("base", k, f, [], Tester(), lambda s: None, gone.append) for k in range(nseeds)]
    best = ParametersEstimator(AverageEvaluator(evs, avg, lambda s: None), f, gone.append).params_search(T(), iter([{"id": i} for i in range(len(runs))]))
    means = [sum(max(v) for v in r) / nseeds for r in runs]
    b = means.index(max(means))
    ensure(best.params == {"id": b} and abs(best.scores["v"] - means[b]) < 1e-9, "the first best parameters are found")
    want = set()
    for i, r in enumerate(runs):
        for k, v in enumerate(r):
            top = v.index(max(v))
            want |= {os.path.join("params-%d" % i, str(k), "epoch-%d" % e) for e in range(len(v)) if e != top}
        if i != b: want.add("params-%d" % i)
    ensure(sorted(gone) == sorted(want), "exactly the paths of the models that lost are disposed of, each once")
