"""C13: sparsening only masks (padding mutates nested lists and is checked at run time)."""
from pydv.speclib import *
from pydv.types import *
from babylondigger.features.builder import _sparse_rate_sequence, SparseFeatureExtractor, OOV


class Fixed(object):
    def __init__(self, values):
        self.values = values

    def get_features(self, obj):
        return {"a": obj, "b": self.values}


def gen_rate(rng):
    return rng.choice([0, 0.0, 1, 1.0, 0.5, rng.random()])


def masked(new, old, rate):
    return (new == old or new == OOV) and (rate > 0 or new == old) and (rate < 1 or new == OOV)


@lemma("C13", gen=lambda rng: {"x": rng.randint(0, 9), "rate": gen_rate(rng)}, x=Int, rate=Real)
def sparse_value(x, rate):
    ensure(masked(_sparse_rate_sequence(x, rate), x, rate), "a value is kept or masked; rate 0 keeps, rate 1 masks")


@lemma("C13", gen=lambda rng: {"xs": [rng.randint(0, 9) for _ in range(rng.randint(0, 9))], "rate": gen_rate(rng)}, xs=List(Int), rate=Real)
def sparse_list(xs, rate):
    before = list(xs)
    r = _sparse_rate_sequence(xs, rate)
    ensure(len(r) == len(before), "the shape is kept")
    ensure(forall(0, len(r), lambda i: masked(r[i], before[i], rate)), "every value is kept or masked; rate 0 keeps, rate 1 masks")
    ensure(xs == before, "the input is not changed")


@lemma("C13", gen=lambda rng: {"xs": [[rng.randint(0, 9) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 5))], "rate": gen_rate(rng)}, xs=List(List(Int)), rate=Real)
def sparse_nested_list(xs, rate):
    r = _sparse_rate_sequence(xs, rate)
    ensure(len(r) == len(xs) and forall(0, len(r), lambda i: len(r[i]) == len(xs[i])), "the shape is kept")
    ensure(forall(0, len(r), lambda i: forall(0, len(r[i]), lambda j: masked(r[i][j], xs[i][j], rate))), "every value is kept or masked; rate 0 keeps, rate 1 masks")


@lemma("C13", gen=lambda rng: {"x": rng.randint(0, 9), "ys": [rng.randint(0, 9) for _ in range(rng.randint(0, 5))], "rate": gen_rate(rng)}, x=Int, ys=List(Int), rate=Real)
def sparse_features(x, ys, rate):
    before = list(ys)
    f = SparseFeatureExtractor(Fixed(ys)).get_features(x, sparse_rate=rate)
    ensure(sorted(f) == ["a", "b"], "the features keep their names")
    ensure(masked(f["a"], x, rate), "a single value is kept or masked")
    ensure(len(f["b"]) == len(before) and forall(0, len(before), lambda i: masked(f["b"][i], before[i], rate)), "every value of a list is kept or masked")
    g = SparseFeatureExtractor(Fixed(before)).get_features(x)
    ensure(g["a"] == x and g["b"] == before, "nothing is masked by default")
