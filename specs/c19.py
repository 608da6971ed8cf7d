"""C19: model selection keeps the best model and disposes of exactly the rest."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.evaluation.evaluation import ParametersEstimator, SingleSeedEvaluator, AverageEvaluator, score_comparator


class Search(object):
    """an evaluator that answers with the given models and scores, in order"""
    def __init__(self, models, scores):
        self.models = models
        self.scores = scores
        self.paths = []

    def evaluate(self, trainer, params, path=''):
        self.paths.append(path)
        return self.models[params], self.scores[params]


class Disposal(object):
    def __init__(self):
        self.count = {}
        self.calls = 0

    def dispose(self, path):
        self.count[path] = self.count.get(path, 0) + 1
        self.calls += 1

    def times(self, path):
        return self.count.get(path, 0)


def best_of(scores, better):
    """index of the best among the first k candidates"""
    return primrec(-1, lambda k, b: k if b < 0 or better(scores[k], scores[b]) else b)


def gen_search(rng):
    num = rng.randint(1, 9)
    w = [rng.randint(0, 3) for _ in range(num)]
    kind = rng.randint(0, 2)
    return {"models": ["m%d" % i for i in range(num)], "scores": [(x, i) for i, x in enumerate(w)],
            "better": [lambda a, b: a[0] > b[0], lambda a, b: a[0] >= b[0], lambda a, b: (a[0] * 7 + b[0] * 3 + a[1]) % 3 == 0][kind]}


@lemma("C19", gen=gen_search, models=List(Any("model")), scores=List(Any("score")), better=Fn([Any("score"), Any("score")], Bool))
def search_keeps_the_best(models, scores, better):
    num = len(scores)
    assume(num > 0 and len(models) == num)
    ev = Search(models, scores)
    d = Disposal()
    best = best_of(scores, better)
    invariant(lambda k: -1 <= best(k) and best(k) < k and (best(k) >= 0 or k == 0))
    invariant(lambda k: forall(0, k, lambda j: ev.paths[j] == "params-{}".format(j)))
    invariant(lambda k, x: x.params == (best(k) if k > 0 else None))
    invariant(lambda k, x: x.scores == (scores[best(k)] if k > 0 else None))
    invariant(lambda k, x: x.model == (models[best(k)] if k > 0 else None))
    invariant(lambda k, x: x.path == (ev.paths[best(k)] if k > 0 else None))
    invariant(lambda k: d.calls == (k - 1 if k > 0 else 0))
    invariant(lambda k: forall(0, k, lambda j: d.times(ev.paths[j]) == (0 if j == best(k) else 1)))
    invariant(lambda k: forall(k, num, lambda j: d.times("params-{}".format(j)) == 0))
    r = ParametersEstimator(ev, better, d.dispose).params_search(None, range(num))
    b = best(num)
    ensure(r.params == b and r.model == models[b] and r.scores == scores[b], "the best candidate is returned")
    ensure(r.path == ev.paths[b], "the path of the best candidate is returned")
    ensure(d.times(ev.paths[b]) == 0, "the best path is never disposed of")
    ensure(forall(0, num, lambda j: implies(j != b, d.times(ev.paths[j]) == 1)), "every other path is disposed of exactly once")
    ensure(d.calls == num - 1, "nothing else is disposed of")


class Training(object):
    """a trainer that produces the given taggers and scores, in order"""
    def __init__(self, models, scores):
        self.models = models
        self.scores = scores

    def train(self, data, dev_tester=None, seed=None, model_dir=None, model_name_format=None, **params):
        return zip(self.scores, self.models)


class Tester(object):
    def test(self, tagger, name):
        return tagger


def ignore(scores):
    return None


@lemma("C19", gen=gen_search, models=List(Any("model")), scores=List(Any("score")), better=Fn([Any("score"), Any("score")], Bool))
def training_keeps_the_best_epoch(models, scores, better):
    num = len(scores)
    assume(num > 0 and len(models) == num)
    d = Disposal()
    best = best_of(scores, better)
    invariant(lambda k: -1 <= best(k) and best(k) < k and (best(k) >= 0 or k == 0))
    invariant(lambda k, x: x == (scores[best(k)] if k > 0 else None))
    invariant(lambda k, x: x == (models[best(k)] if k > 0 else None))
    invariant(lambda k, x: x == ("run/7/epoch-{}".format(best(k)) if k > 0 else None))
    invariant(lambda k: d.calls == (k - 1 if k > 0 else 0))
    invariant(lambda k: forall(0, k, lambda j: d.times("run/7/epoch-{}".format(j)) == (0 if j == best(k) else 1)))
    invariant(lambda k: forall(k, num, lambda j: d.times("run/7/epoch-{}".format(j)) == 0))
    ev = SingleSeedEvaluator("base", 7, better, None, None, ignore, d.dispose)
    tagger, r = ev.evaluate(Training(models, scores), {}, "run")
    b = best(num)
    ensure(r == scores[b], "the scores of the best epoch are returned")
    ensure(tagger(Tester(), "x") == models[b], "the model of the best epoch is returned")
    ensure(d.times("run/7/epoch-{}".format(b)) == 0, "the best path is never disposed of")
    ensure(forall(0, num, lambda j: implies(j != b, d.times("run/7/epoch-{}".format(j)) == 1)), "every other path is disposed of exactly once")
    ensure(d.calls == num - 1, "nothing else is disposed of")


@lemma("C19", gen=lambda rng: {"fields": [rng.choice("abc") for _ in range(rng.randint(0, 4))], "new": {x: rng.randint(0, 3) for x in "abc"}, "old": {x: rng.randint(0, 3) for x in "abc"}, "value": rng.choice([lambda x: x, lambda x: -x, lambda x: x * x])},
       fields=List(Str), new=Dict(Str, Any("sc")), old=Dict(Str, Any("sc")), value=Fn([Any("sc")], Real))
def comparison_is_by_the_sum_of_the_metric(fields, new, old, value):
    assume(forall(0, len(fields), lambda i: fields[i] in new and fields[i] in old))
    better = score_comparator(fields, value)
    a = sum([value(new[x]) for x in fields])
    b = sum([value(old[x]) for x in fields])
    ensure(better(new, old) == (a > b), "a result is better exactly when its sum is larger")


class SeedModel(object):
    def __init__(self, result):
        self.result = result

    def __call__(self, tester, name):
        return self.result


class Seed(object):
    """an evaluator with a fixed answer"""
    def __init__(self, score, result):
        self.score = score
        self.result = result

    def evaluate(self, trainer, params, path=''):
        return SeedModel(self.result), self.score


SeedModelR = Rec("specs.c19:SeedModel", result=Any("result"))
SeedR = Rec("specs.c19:Seed", score=Any("score"), result=Any("result"))


def gen_seeds(rng):
    return {"seeds": [Seed("s%d" % rng.randint(0, 3), "r%d" % rng.randint(0, 3)) for _ in range(rng.randint(0, 6))]}


@lemma("C19", gen=gen_seeds, seeds=List(SeedR))
def average_is_over_all_seeds(seeds):
    ev = AverageEvaluator(seeds, list, ignore)
    model, scores = ev.evaluate(None, {}, "run")
    ensure(scores == [s.score for s in seeds], "the scores of all seeds are averaged")
    ensure(model(None, "x") == [s.result for s in seeds], "the models of all seeds are tested and averaged")
