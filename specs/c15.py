"""C15: shuffling a dataset is a permutation.

The elements of the dataset are represented by their positions (the code never looks into them)."""
from pydv.speclib import *
from pydv.types import *
from babylondigger.evaluation.dataset import ShuffledDataset


class Source(object):
    """the numbers from 0 to size - 1, one after another"""
    def __init__(self, size):
        self.size = size
        self.position = 0
        self.starts = []        # ghost: where each batch starts

    def __iter__(self):
        return self

    def __next__(self):
        if self.position >= self.size: raise StopIteration()
        self.position += 1
        return self.position - 1

    def take(self, k):
        start = self.position
        end = start + k if start + k <= self.size else self.size
        self.starts.append(start)
        self.position = end
        return range(start, end)


def gen_shuffle(rng):
    return {"size": rng.choice([0, 1, 2, 3, 5, 10, 37, 120]), "seed": rng.randint(0, 10 ** 6), "batch": rng.choice([1, 2, 3, 4, 5, 10, 50])}


@lemma("C15", gen=gen_shuffle, size=Int, seed=Int, batch=Int)
def every_element_exactly_once(size, seed, batch):
    assume(size >= 0 and batch >= 1)
    source = Source(size)
    starts = source.starts

    def current(k, now):
        return source.position == starts[k] + len(now) and len(now) <= batch and (len(now) > 0 or source.position == size)
    invariant(lambda k: len(starts) == k + 1 and starts[0] == 0 and source.position <= size and starts[k] >= 0)
    invariant(current, now="ListT(IntT")
    invariant(lambda k, now: forall(0, len(now), lambda i: now[i] == starts[k] + i), now="ListT(IntT")
    invariant(lambda k, out: len(out) == k, out="ListT(ListT")
    invariant(lambda k, out: forall(0, len(out), lambda x: len(out[x]) == starts[x + 1] - starts[x]), out="ListT(ListT")
    invariant(lambda k: forall(0, k, lambda x: starts[x] < starts[x + 1] and starts[x + 1] <= starts[x] + batch))
    invariant(lambda k, out: forall(0, len(out), lambda x: forall(0, len(out[x]), lambda i: starts[x] <= out[x][i] and out[x][i] < starts[x + 1])), out="ListT(ListT")
    invariant(lambda k, out: forall(0, len(out), lambda x: forall(0, len(out[x]), lambda i: forall(0, i, lambda j: out[x][i] != out[x][j]))), out="ListT(ListT")
    r = iter(ShuffledDataset(source, seed, batch))
    hint(lambda: induct(0, len(starts), lambda x: chunk_offset(r, x) == starts[x], "batches are laid out one after another"))
    r = list(r)
    ensure(len(r) == size, "as many elements as in the dataset")
    ensure(forall(0, len(r), lambda p: 0 <= r[p] and r[p] < size), "only elements of the dataset")
    ensure(forall(0, len(r), lambda p: forall(0, p, lambda q: r[p] != r[q])), "no element twice")
    ensure(forall(0, len(r), lambda p: r[p] - p < batch and p - r[p] < batch), "no element moves further than the largest batch")
