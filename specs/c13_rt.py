import copy
import random
from pydv.speclib import *
from rt.core import check, size
import babylondigger.features.builder as B

OOV = 1


class Given(object):
    """an extractor that returns what it is told to"""
    def __init__(self, features): self.features = features
    def get_features(self, obj, **kwargs): return copy.deepcopy(self.features)


class GivenBuilder(B.FeatureExtractorBuilder):
    def __init__(self, features): self.features = features
    def build(self, dataset): return Given(self.features), B.DoNothingInterpreter(), B.EmptyFeatureInitializer()


def gen_nested(rng, depth, bad=0.0, bools=False):
    n = size(rng, 3) if rng.random() < 0.9 else 0
    if n > 40: n = 40
    if depth == 0: return rng.choice([0, 1, 2, 5, 77]) if not bools else rng.random() < 0.5
    out = []
    for _ in range(n):
        d = depth - 1
        if rng.random() < bad: d = rng.choice([x for x in range(0, depth + 1)])
        out.append(gen_nested(rng, d, bad, bools))
    return out


def lens(v, k=0, acc=None):
    """longest list per level; None when lists and scalars are mixed on a level"""
    acc = {}
    level = list(v)
    out = []
    while True:
        ls = [x for x in level if isinstance(x, list)]
        if not ls: return out
        if len(ls) != len(level): return None
        out.append(max(len(x) for x in ls))
        level = [y for x in ls for y in x]


def padded(v, ls):
    """the rectangular completion of v"""
    if not ls: return v
    def zero(k): return 0 if k == len(ls) else [zero(k + 1) for _ in range(ls[k])]
    def pad(x, k):
        if k == len(ls): return x
        return [pad(y, k + 1) for y in x] + [zero(k + 1) for _ in range(ls[k] - len(x))]
    return [pad(x, 0) for x in v]


def gen1(rng, i):
    return {n: gen_nested(rng, rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([0, 0, 0, 0.15])) for n in rng.sample(["a", "b", "c"], rng.randint(0, 3))}


@check("C13", gen=gen1, n=5000)
def padding(fs):
    exp = {n: lens(v) for n, v in fs.items()}
    for ext in (B.PaddingFeatureExtractor(Given(fs)), B.PaddingFeatureExtractorBuilder(GivenBuilder(fs)).build([])[0]):
        r = attempt(lambda: ext.get_features(None))
        if any(e is None for e in exp.values()): ensure(r.refused(), "values mixing lists and scalars are refused with ValueError")
        else:
            ensure(r.ok, "homogeneous values are padded")
            ensure(set(r.value) == set(fs), "padding keeps the features")
            for n in fs:
                ensure(r.value[n] == padded(fs[n], exp[n]), "padding is rectangular, keeps every value at its place and adds only what is needed")


@check("C13", gen=lambda rng, i: ({n: gen_nested(rng, rng.choice([0, 1, 2, 3]), 0.1) for n in ("a", "b")}, rng.choice([0, 0, 1, 1, 0.3, 0.9]), rng.randint(0, 10 ** 6)), n=3000)
def sparsening(c):
    fs, rate, seed = c
    for ext in (B.SparseFeatureExtractor(Given(fs)), B.SparseFeatureExtractorBuilder(GivenBuilder(fs)).build([])[0]):
        random.seed(seed)
        r = ext.get_features(None, sparse_rate=rate)
        ensure(set(r) == set(fs), "sparsening keeps the features")
        for n in fs: masked(fs[n], r[n], rate)
        plain = ext.get_features(None)
        ensure(plain == fs, "without a rate nothing changes")


def masked(a, b, rate):
    if isinstance(a, list):
        ensure(isinstance(b, list) and len(a) == len(b), "sparsening keeps the shape")
        for x, y in zip(a, b): masked(x, y, rate)
        return
    ensure(b == a or b == OOV, "an id is kept or replaced by the out-of-vocabulary id")
    ensure(not isinstance(b, list), "ids stay ids")
    if rate == 0: ensure(b == a, "rate 0 changes nothing")
    if rate == 1: ensure(b == OOV, "rate 1 masks everything")


@check("C13", cases=lambda: [(r, s) for r in (0.1, 0.25, 0.5, 0.75, 0.9) for s in (1, 2)])
def rate(c):
    r, seed = c
    random.seed(seed)
    out = B.SparseFeatureExtractor(Given({"a": [5] * 4000})).get_features(None, sparse_rate=r)["a"]
    f = sum(1 for x in out if x == OOV) / 4000.0
    ensure(abs(f - r) < 0.08, "ids are masked at the given rate")


class Edge(object):
    pass


@check("C13", cases=lambda: [0.0, 1.0])
def extreme_random_numbers(rate):
    """whatever the random source returns (also exactly 0.0), rate 0 masks nothing and rate 1 masks everything"""
    old = random.random
    try:
        for x in (0.0, 1 - 2 ** -53, 0.5):
            random.random = lambda: x
            out = B.SparseFeatureExtractor(Given({"a": [5, [7]]})).get_features(None, sparse_rate=rate)["a"]
            ensure(out == ([5, [7]] if rate == 0 else [OOV, [OOV]]), "rate 0 changes nothing and rate 1 masks everything, for every random number")
    finally: random.random = old
