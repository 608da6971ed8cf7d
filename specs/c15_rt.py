import random
import time
from pydv.speclib import *
from rt.core import check, size
from babylondigger.evaluation.dataset import ShuffledDataset


class Stream(object):
    """an iterable without length that can be iterated again and again"""
    def __init__(self, n): self.n = n
    def __iter__(self): return iter(range(self.n))


def gen1(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 10, 26, 27, 49, 50, 51, 52, 75, 76, 100, 101, 130, 257]) if rng.random() < 0.6 else size(rng, 20)
    return {"n": n, "seed": rng.choice([0, 1, 2, 7, 12345, -3, None, rng.randint(0, 10 ** 9)]), "batch": rng.choice([None, 1, 2, 3, 4, 5, 7, 10, 50, 51, 64, n or 1, n + 1, max(1, n - 1)]),
            "list": rng.random() < 0.5, "passes": rng.choice([1, 2, 3, 5])}


def make(c):
    kw = {} if c["batch"] is None else {"max_batch_size": c["batch"]}
    if c["seed"] is not None: kw["seed"] = c["seed"]
    return ShuffledDataset(list(range(c["n"])) if c["list"] else Stream(c["n"]), **kw)


@check("C15", gen=gen1, n=1500)
def shuffling(c):
    clock, old = [1000.0], time.time
    def fake():
        clock[0] += 1000.0
        return clock[0]
    time.time = fake
    try:
        a = make(c)
        random.seed(1)
        pa = [list(a) for _ in range(c["passes"])]
        limit = c["batch"] or 50
        for p in pa:
            ensure(sorted(p) == list(range(c["n"])), "every pass yields every element exactly once")
            ensure(all(abs(k - x) < limit for k, x in enumerate(p)), "no element moves further than the largest batch allows")
        if c["seed"] is not None:
            b = make(c)
            random.seed(2); random.random()
            pb = [list(b) for _ in range(c["passes"])]
            ensure(pa == pb, "the same seed gives the same orders, pass by pass")
        x, y = iter(a), iter(a)
        out = ([], [])
        for _ in range(c["n"]): out[0].append(next(x)); out[1].append(next(y))
        ensure(sorted(out[0]) == list(range(c["n"])) and sorted(out[1]) == list(range(c["n"])), "interleaved passes are permutations")
    finally: time.time = old


@check("C15", cases=lambda: [(n, b, s) for n in range(0, 31) for b in (1, 2, 3, 4, 5, 6, 9, 10, 30) for s in (0, 3)])
def all_small_sizes(c):
    n, b, s = c
    shuffling({"n": n, "seed": s, "batch": b, "list": True, "passes": 2})


@check("C15", cases=lambda: [5, 9])
def it_shuffles(seed):
    d = ShuffledDataset(list(range(200)), seed=seed)
    a, b = list(d), list(d)
    ensure(a != list(range(200)) and a != b, "different passes give different orders")
