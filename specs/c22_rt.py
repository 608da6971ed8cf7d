"""C22: training minibatches cover every sentence once, in order."""
import io
import os
import re
import shutil
import sys
import tempfile
from pydv.speclib import *
from rt.core import check, stub_heavy, size
from specs.gen import *
stub_heavy()
from babylondigger.neural.tagger import neural_tagger
from babylondigger.neural.tagger.neural_tagger import NeuralTaggerTrainer
from babylondigger.features import provider


class Sent(object):
    def __init__(self, i): self.i = i


class Doc(object):
    def __init__(self, ids): self.sentences = [Sent(i) for i in ids]


class Data(object):
    """re-iterable, without length"""
    def __init__(self, docs): self.docs, self.passes = docs, 0
    def __iter__(self):
        self.passes += 1
        return iter(self.docs)


class Extractor(object):
    def __init__(self, name, log): self.name, self.log = name, log
    def get_features(self, sentences, **kw):
        ids = [s.i for s in sentences]
        self.log.append((self.name, ids, dict(kw)))
        return {self.name: ids}
    def __getstate__(self): return {"name": self.name, "log": []}


class Initializer(object):
    def shapes(self): return {"shape": 1}
    def initial_values(self): return {"init": 2}


class FakeModel(object):
    def __init__(self, losses, log): self.losses, self.log, self.batches = losses, log, []
    def initialize(self, **kw): self.log.append(("initialize", kw))
    def train(self, features, labels):
        self.batches.append((dict(features), dict(labels)))
        return self.losses[(len(self.batches) - 1) % len(self.losses)]
    def save(self, path): self.log.append(("save", path, len(self.batches)))
    def close(self): self.log.append(("close",))
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def gen1(rng, i):
    docs, k = [], 0
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        n = rng.choice([0, 1, 1, 2, 3, 5, size(rng, 6)])
        docs.append(list(range(k, k + n)))
        k += n
    return {"docs": docs, "batch": rng.choice([1, 1, 2, 3, 4, 5, 7, 10, max(1, k), k + 1, max(1, k - 1)]), "epochs": rng.choice([1, 1, 2, 3, 4]), "dropout": rng.choice([0, 0.5, 0.3]),
            "lr": rng.choice([0.01, 0.1, 1.0]), "decay": rng.choice([0, 0.05, 0.5, 1]), "factor": rng.choice([2, 4, 10]), "sparse": rng.choice([None, 0, 0.25, 1]),
            "losses": [rng.choice([0.0, 0.5, 1.0, 2.25, rng.random()]) for _ in range(rng.choice([1, 3, 7]))], "accs": [rng.choice([0.1, 0.2, 0.5, 0.9]) for _ in range(4)]}


@check("C22", gen=gen1, n=700)
def epochs(c):
    total = sum(map(len, c["docs"]))
    assume(total > 0)
    log, calls = [], []
    data = Data([Doc(d) for d in c["docs"]])
    model = FakeModel(c["losses"], calls)

    class Builder(object):
        def feature_providers(self): return "providers"
        def build(self, shapes):
            ensure(shapes == {"shape": 1}, "the network is built from the shapes of the features")
            return "network", "graph"

    class Provider(object):
        def __init__(self, p): ensure(p == "providers", "the features are those the network needs")
        def build(self, documents): return Extractor("features", log), Extractor("labels", log), "interpreter", Initializer()

    class FakeModelClass(object):
        @staticmethod
        def new(network, graph):
            ensure((network, graph) == ("network", "graph"), "the model is made of the network")
            return model

    conf = {} if c["sparse"] is None else {"sparse_input_prob": c["sparse"]}
    nn = {"shared_part": {"config": conf}, "general": {"optimizer": {"initial_lr": c["lr"], "lr_decay": c["decay"], "lr_decrease_factor": c["factor"]}}, "task": {"t": 1}}
    scratch = tempfile.mkdtemp(prefix="c22-")
    saved = neural_tagger.get_nn_builder, neural_tagger.Model, neural_tagger.FeatureExtractorBuilderProvider
    neural_tagger.get_nn_builder = lambda shared, tasks, general, seed: Builder()
    neural_tagger.Model, neural_tagger.FeatureExtractorBuilderProvider = FakeModelClass, Provider
    tested = []

    class Score(object):
        def __init__(self, a): self.aligned_accuracy = a

    def dev(tagger):
        tested.append(len(model.batches))
        return {"A": Score(c["accs"][(len(tested) - 1) % 4]), "B": Score(None)}
    out = io.StringIO()
    old = sys.stdout
    sys.stdout = out
    try:
        got = list(NeuralTaggerTrainer().train(data, dev_tester=dev, seed=1, nn_config=nn, tasks=["task"], epochs=c["epochs"], dropout=c["dropout"], batch_size=c["batch"], model_dir=scratch))
    finally:
        sys.stdout = old
        neural_tagger.get_nn_builder, neural_tagger.Model, neural_tagger.FeatureExtractorBuilderProvider = saved
        shutil.rmtree(scratch)
    ids = [i for d in c["docs"] for i in d]
    want = [ids[k:k + c["batch"]] for k in range(0, total, c["batch"])]
    per = len(want)
    ensure(len(model.batches) == per * c["epochs"], "every epoch has exactly the batches that cover the sentences")
    ensure(len(got) == c["epochs"] and tested == [per * (e + 1) for e in range(c["epochs"])], "one model per epoch, tested after the epoch")
    ensure([x[2] for x in calls if x[0] == "save"] == [per * (e + 1) for e in range(c["epochs"])] and len({x[1] for x in calls if x[0] == "save"}) == c["epochs"], "every epoch's model is saved, to its own path")
    ensure(("initialize", {"init": 2}) in calls, "the model is initialized")
    for e in range(c["epochs"]):
        part = model.batches[per * e:per * (e + 1)]
        ensure([f["features"] for f, _ in part] == want, "the batches cover every sentence once, in order, with full batches before the last")
        ensure([l["labels"] for _, l in part] == want, "features and labels of a batch come from the same sentences")
        ensure(len({l["learning_rate"] for _, l in part}) == 1, "one learning rate per epoch")
        ensure(all(l["dropout_probability"] == c["dropout"] for _, l in part), "every batch is trained with the given dropout")
        ensure(all(set(l) == {"labels", "learning_rate", "dropout_probability"} and set(f) == {"features"} for f, l in part), "features and labels are passed on unmixed")
    for name, _, kw in log:
        if name == "features": ensure(kw.get("sparse_rate", 0) == (c["sparse"] or 0), "the features are sparsened with the configured rate")
        else: ensure(not kw.get("sparse_rate"), "labels are never sparsened")
    lr, prev = c["lr"], [0] * 5
    for e in range(c["epochs"]):
        lr = lr / (1 + c["decay"] * e)
        used = model.batches[per * e][1]["learning_rate"]
        ensure(abs(used - lr) <= 1e-12 + 1e-9 * abs(lr), "the learning rate decays from the initial one, and decreases when the accuracy does not improve")
        acc = c["accs"][e % 4]
        if acc <= prev[-1] and acc <= sum(prev) / 5: lr /= c["factor"]
        prev = prev[1:] + [acc]
    shown = re.findall(r"loss after epoch (\d+):\s*([-\d.]+)", out.getvalue())
    ensure([int(a) for a, _ in shown] == list(range(1, c["epochs"] + 1)), "the loss of every epoch is reported")
    for e, (_, x) in enumerate(shown):
        ls = [c["losses"][k % len(c["losses"])] for k in range(per * e, per * (e + 1))]
        ensure(abs(float(x) - sum(ls) / per) < 1e-4, "the epoch loss is the mean of the batch losses")
