"""C22: training minibatches cover every sentence once, in order.

Sentences are represented by their position in the data set (the code never looks into them)."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.neural.tagger.neural_tagger import _get_minibatches, _train_epoch, _get_lr


class Position(object):
    """ghost: where the document being read starts"""
    def __init__(self):
        self.start = 0


class Sentences(object):
    def __init__(self, position, start, end):
        self.position = position
        self.start = start
        self.end = end

    @property
    def sentences(self):
        self.position.start = self.start
        return range(self.start, self.end)


class Features(object):
    def get_features(self, sentences, sparse_rate=0):
        return list(sentences), sparse_rate


def gen_batches(rng):
    offs = [0]
    for _ in range(rng.randint(0, 5)): offs.append(offs[-1] + rng.choice([0, 1, 1, 2, 3, 5]))
    return {"offsets": offs, "batch": rng.choice([1, 1, 2, 3, 4, max(1, offs[-1]), offs[-1] + 1]), "rate": rng.random()}


@lemma("C22", gen=gen_batches, offsets=List(Int), batch=Int, rate=Real)
def minibatches_cover_every_sentence_in_order(offsets, batch, rate):
    assume(len(offsets) >= 1 and offsets[0] == 0)
    num = len(offsets) - 1
    assume(forall(0, num, lambda i: offsets[i] <= offsets[i + 1]))
    assume(batch >= 1)
    position = Position()
    documents = (Sentences(position, offsets[i], offsets[i + 1]) for i in range(num))
    full = primrec(0, lambda m, total: total + batch)       # sentences in m full batches

    def filled(k, out, now):
        unfold(full, len(out) - 1)
        return position.start + k == full(len(out)) + len(now)
    invariant(lambda k, out, now: offsets[k] == full(len(out)) + len(now), out="ListT(TupT", now="ListT(IntT")
    invariant(filled, out="ListT(TupT", now="ListT(IntT")
    invariant(lambda k, now: len(now) < batch, now="ListT(IntT")
    invariant(lambda k, out, now: forall(0, len(now), lambda i: now[i] == full(len(out)) + i), out="ListT(TupT", now="ListT(IntT")
    invariant(lambda k, out: forall(0, len(out), lambda x: len(out[x][0][0]) == batch and len(out[x][1][0]) == batch and out[x][0][1] == rate and out[x][1][1] == 0), out="ListT(TupT")
    invariant(lambda k, out: forall(0, len(out), lambda x: forall(0, len(out[x][0][0]), lambda i: out[x][0][0][i] == full(x) + i)), out="ListT(TupT")
    invariant(lambda k, out: forall(0, len(out), lambda x: forall(0, len(out[x][1][0]), lambda i: out[x][1][0][i] == full(x) + i)), out="ListT(TupT")
    out = list(_get_minibatches(documents, Features(), Features(), batch, rate))
    ensure(forall(0, len(out), lambda x: forall(0, len(out[x][0][0]), lambda i: out[x][0][0][i] == full(x) + i)), "the sentences of the batches are consecutive and in order")
    ensure(forall(0, len(out), lambda x: out[x][0][0] == out[x][1][0]), "features and labels come from the same sentences")
    ensure(forall(0, len(out) - 1, lambda x: len(out[x][0][0]) == batch), "every batch but the last has the configured size")
    ensure(len(out) == 0 or (0 < len(out[len(out) - 1][0][0]) and len(out[len(out) - 1][0][0]) <= batch), "the last batch is not empty and not too large")
    if len(out) > 0: unfold(full, len(out) - 1)
    ensure(offsets[num] == (0 if len(out) == 0 else full(len(out) - 1) + len(out[len(out) - 1][0][0])), "every sentence is in a batch")
    ensure(forall(0, len(out), lambda x: out[x][0][1] == rate and out[x][1][1] == 0), "sparsening is applied to features only")


def close(a, b):
    return a - b < 0.000001 and b - a < 0.000001


class First(object):
    """an extractor whose answer is a dictionary of numbers"""
    def get_features(self, sentences, sparse_rate=0):
        return {"size": len(sentences) + 0.5}


class Trained(object):
    """a model that remembers how it was trained"""
    def __init__(self, losses):
        self.losses = losses
        self.calls = 0
        self.rates = []
        self.dropouts = []

    def train(self, features, labels):
        self.rates.append(labels["learning_rate"])
        self.dropouts.append(labels["dropout_probability"])
        self.calls += 1
        return self.losses(self.calls - 1)


def gen_epoch(rng):
    vals = [rng.choice([0.0, 0.5, 1.0, 2.25]) for _ in range(40)]
    return {"sizes": [rng.choice([0, 1, 1, 2, 5]) for _ in range(rng.randint(1, 6))], "batch": rng.choice([1, 1, 2, 3, 7]), "rate": 0.5, "lr": rng.choice([0.25, 0.5]), "dropout": rng.choice([0.0, 0.5]), "losses": vals.__getitem__}


@lemma("C22", gen=gen_epoch, sizes=List(Int), batch=Int, rate=Real, lr=Real, dropout=Real, losses=Fn([Int], Real))
def epoch_loss_is_the_mean_of_the_batch_losses(sizes, batch, rate, lr, dropout, losses):
    model = Trained(losses)
    total = primrec(0.0, lambda k, s: s + losses(k))
    position = Position()
    documents = (Sentences(position, 0, x) for x in sizes)
    assume(exists(0, len(sizes), lambda i: sizes[i] > 0) and batch > 0)
    invariant(lambda k: model.calls == k)
    invariant(lambda k: len(model.rates) == k and len(model.dropouts) == k)
    invariant(lambda k: forall(0, k, lambda j: model.rates[j] == lr and model.dropouts[j] == dropout))
    invariant(lambda k, loss: loss == total(k), loss="RealT")
    r = attempt(lambda: _train_epoch(documents, model, First(), First(), lr, dropout, batch, rate))
    if r.ok:
        ensure(model.calls > 0 and close(r.value, total(model.calls) / model.calls), "the loss of an epoch is the mean of the losses of its batches")
        ensure(forall(0, model.calls, lambda j: model.rates[j] == lr and model.dropouts[j] == dropout), "every batch is trained at the given learning rate and dropout")


@lemma("C22", gen=lambda rng: {"epoch": rng.randint(0, 20), "initial": rng.random(), "decay": rng.choice([0, 0.05, rng.random()])}, epoch=Int, initial=Real, decay=Real)
def learning_rate_decays(epoch, initial, decay):
    assume(epoch >= 0 and decay >= 0)
    r = _get_lr(epoch, initial, decay)
    ensure(r == initial / (1 + decay * epoch), "the learning rate of an epoch")
