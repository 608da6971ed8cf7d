from pydv.speclib import *
from rt.core import check, size
from specs.c13_rt import lens, padded
import babylondigger.features.builder as B
import babylondigger.features.provider as P
import babylondigger.features.extractors as X
from specs.gen import mk_doc
from specs.c10_rt import Data
from specs.c12_rt import gen_docs


def key_of(obj): return repr(obj)


def base(name, obj):
    return (sum(map(ord, name)) * 7 + sum(map(ord, repr(obj)))) % 1000 + 5


class Ext(B.FeatureExtractorInterface):
    def __init__(self, names, depth): self.names, self.depth = names, depth
    def get_features(self, obj, **kwargs): return {n: leaf_value(n, obj, self.depth) for n in self.names}


def leaf_value(n, obj, depth):
    v = base(n, obj)
    if depth == "list" or depth == 2: return [v % 3 + k for k in range(v % 4)]
    return v


class Int(B.InterpreterInterface):
    def __init__(self, names): self.names = names
    def interpret(self, obj, value):
        out = dict(obj) if isinstance(obj, dict) else {"obj": obj}
        for n in self.names: out[n] = value[n]
        return out


class Ini(B.FeatureInitializerInterface):
    def __init__(self, names): self.names = names
    def shapes(self): return {n: [len(n), base(n, 0)] for n in self.names}
    def initial_values(self): return {"init" + n: base(n, 1) for n in self.names}


class LeafA(B.FeatureExtractorBuilder):
    def __init__(self, names, depth=0): self.names, self.depth = names, depth
    def build(self, dataset):
        LOG.append(dataset)
        return Ext(self.names, self.depth), Int(self.names), Ini(self.names)


class LeafB(LeafA):
    pass


LOG = []
NAMES = ["f%d" % k for k in range(30)]


def gen_spec(rng, level, fresh, depth=3):
    """level 0: a token (number); level 1: a sentence (list of numbers); level 2: a batch"""
    r = rng.random()
    if depth == 0 or r < 0.3:
        names = sorted({fresh() for _ in range(rng.choice([1, 1, 1, 2]))})
        if level == 0 and rng.random() < 0.3: return (rng.choice(["A", "B"]), names, "list")
        return (rng.choice(["A", "B"]), names, level)
    if r < 0.42: return ("empty",)
    if r < 0.55: return ("comp", [gen_spec(rng, level, fresh, depth - 1) for _ in range(rng.randint(1, 3))])
    if level == 0: return ("sparse", gen_spec(rng, 0, fresh, depth - 1))
    if level == 2 and r < 0.8: return ("pad", gen_spec(rng, 2, fresh, depth - 1))
    return ("iter", gen_spec(rng, level - 1, fresh, depth))


def mk(s):
    k = s[0]
    if k == "A": return LeafA(s[1], s[2])
    if k == "B": return LeafB(s[1], s[2])
    if k == "empty": return B.EmptyFeatureExtractorBuilder()
    if k == "comp": return B.CompositeFeatureExtractorBuilder([mk(x) for x in s[1]])
    if k == "sparse": return B.SparseFeatureExtractorBuilder(mk(s[1]))
    if k == "pad": return B.PaddingFeatureExtractorBuilder(mk(s[1]))
    if k == "iter": return B.IterableFeatureExtractorBuilder(mk(s[1]))


class Dup(Exception):
    pass


def union(ds):
    out = {}
    for d in ds:
        if any(k in out for k in d): raise Dup()
        out.update(d)
    return out


def feats(s, obj):
    k = s[0]
    if k in "AB": return {n: leaf_value(n, obj, s[2]) for n in s[1]}
    if k == "empty": return {}
    if k == "comp": return union(feats(x, obj) for x in s[1])
    if k == "sparse": return feats(s[1], obj)
    if k == "iter":
        out = {}
        for el in obj:
            for n, v in feats(s[1], el).items(): out.setdefault(n, []).append(v)
        return out
    if k == "pad":
        return {n: padded(v, lens(v)) for n, v in feats(s[1], obj).items()}


def names(s):
    k = s[0]
    if k in "AB": return list(s[1])
    if k == "empty": return []
    if k == "comp": return [n for x in s[1] for n in names(x)]
    return names(s[1])


def gen1(rng, i):
    used, dup = [], rng.random() < 0.2
    def fresh():
        n = rng.choice(used) if used and dup and rng.random() < 0.4 else "f%d" % len(used)
        used.append(n)
        return n
    level = rng.choice([0, 1, 2, 2])
    specs = [gen_spec(rng, level, fresh) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
    obj = rng.randint(0, 50)
    if level >= 1: obj = [rng.randint(0, 50) for _ in range(size(rng, 4))]
    if level == 2: obj = [[rng.randint(0, 50) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
    return level, specs, obj


def behaves(ext, itp, ini, specs, obj, level, what):
    allnames = [n for s in specs for n in names(s)]
    try: exp = union(feats(s, obj) for s in specs)
    except Dup: exp = None
    r = attempt(lambda: ext.get_features(obj))
    if exp is None: ensure(r.refused(), what + ": two parts with the same feature are refused with ValueError")
    else: ensure(r.ok and r.value == exp, what + ": exactly the union of the features of the parts")
    clash = len(set(allnames)) < len(allnames)
    for f, g in ((lambda: ini.shapes(), lambda n: (n, [len(n), base(n, 0)])), (lambda: ini.initial_values(), lambda n: ("init" + n, base(n, 1)))):
        r = attempt(f)
        if clash: ensure(r.refused(), what + ": clashing initializers are refused")
        else: ensure(r.ok and r.value == dict(map(g, allnames)), what + ": exactly the union of the initial values")
    return exp


@check("C14", gen=gen1, n=5000)
def merging(c):
    level, specs, obj = c
    data = object()
    LOG[:] = []
    b = B.merge(iter([mk(s) for s in specs]))
    ext, itp, ini = b.build(data)
    ensure(all(x is data for x in LOG), "every part is built on the given data set")
    behaves(ext, itp, ini, specs, obj, level, "merge")
    ext, itp, ini = B.CompositeFeatureExtractorBuilder([mk(s) for s in specs]).build(data)
    behaves(ext, itp, ini, specs, obj, level, "composition")


def gen2(rng, i):
    used = []
    def fresh():
        used.append("f%d" % len(used)); return used[-1]
    specs = [("pad", ("iter", ("iter", (rng.choice(["A", "B"]), [fresh() for _ in range(rng.choice([1, 2]))], 0)))) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.4: specs.insert(rng.randrange(len(specs) + 1), ("empty",))
    if rng.random() < 0.3: specs = [("comp", specs)]
    obj = [["s%dt%d" % (a, b) for b in range(rng.randint(0, 4))] for a in range(rng.randint(1, 4))]
    pad = rng.randint(0, 2)
    m = max(len(s) for s in obj) + pad
    value = {n: [["%s/%d/%d" % (n, a, b) for b in range(m)] for a in range(len(obj))] for n in used}
    return specs, obj, value


@check("C14", gen=gen2, n=2000)
def interpretation(c):
    """each element gets exactly its own values, in order"""
    specs, obj, value = c
    ns = [n for s in specs for n in names(s)]
    for b in (B.merge([mk(s) for s in specs]), B.CompositeFeatureExtractorBuilder([mk(s) for s in specs])):
        itp = b.build([])[1]
        got = itp.interpret(obj, value)
        got = [list(x) for x in got]
        exp = [[dict({"obj": t}, **{n: value[n][a][j] for n in ns}) for j, t in enumerate(s)] for a, s in enumerate(obj)]
        ensure(got == exp, "per-element interpretation hands each element exactly its own values")


class Prov(P.AbstractExtractorBuilderProvider):
    def __init__(self, f, l): self.f, self.l = f, l
    def feature_extractor_builder(self): return mk(self.f) if self.f else P.AbstractExtractorBuilderProvider.feature_extractor_builder(self)
    def labels_extractor_builder(self): return mk(self.l) if self.l else P.AbstractExtractorBuilderProvider.labels_extractor_builder(self)


def gen3(rng, i):
    used = []
    def fresh():
        used.append("f%d" % len(used)); return used[-1]
    provs = []
    for _ in range(rng.randint(1, 4)):
        def word(): return ("pad", ("iter", ("iter", ("A", [fresh()], 0))))
        provs.append((word() if rng.random() < 0.7 else None, word() if rng.random() < 0.5 else None))
    obj = [[rng.randint(0, 50) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
    return provs, obj


@check("C14", gen=gen3, n=1000)
def provider(c):
    provs, obj = c
    data = object()
    LOG[:] = []
    f, l, itp, ini = P.FeatureExtractorBuilderProvider([Prov(*p) for p in provs]).build(data)
    ensure(all(x is data for x in LOG), "every part is built from the training set")
    fs, ls = [p[0] for p in provs if p[0]], [p[1] for p in provs if p[1]]
    ensure(f.get_features(obj) == union(feats(s, obj) for s in fs), "features are exactly those of the providers")
    ensure(l.get_features(obj) == union(feats(s, obj) for s in ls), "labels are exactly those of the providers")
    allnames = [n for s in fs + ls for n in names(s)]
    ensure(ini.shapes() == {n: [len(n), base(n, 0)] for n in allnames}, "shapes of features and labels")
    ensure(ini.initial_values() == {"init" + n: base(n, 1) for n in allnames}, "initial values of features and labels")


@check("C14", gen=lambda rng, i: ([rng.randint(0, 9) for _ in range(size(rng, 3))], [[rng.randint(0, 9) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(0, 4))], rng.choice([0, 1])), n=600)
def wrappers(c):
    _, batch, rate = c
    s = ("A", ["w"], 0)
    for b, masked in ((B.wrap_word_level(mk(s)), False), (B.wrap_word_level(mk(s), True), True)):
        e = b.build([])[0]
        want = feats(("pad", ("iter", ("iter", s))), batch)
        if masked:
            got = e.get_features(batch, sparse_rate=rate)
            if rate == 1: want = {n: padded([[1 for _ in t] for t in batch], lens(v)) for n, v in want.items()}
        else: got = e.get_features(batch)
        ensure(got == want, "word-level features of a batch")
    e = B.wrap_sentence_level(mk(("A", ["s"], 1))).build([])[0]
    ensure(e.get_features(batch) == feats(("pad", ("iter", ("A", ["s"], 1))), batch), "sentence-level features of a batch")


def gen4(rng, i):
    return {"train": gen_docs(rng) + gen_docs(rng), "test": gen_docs(rng), "min": [rng.choice([0, 1, 2, 3]) for _ in range(3)], "lower": rng.random() < 0.5,
            "rate": rng.choice([None, 0, 1]), "pick": [rng.random() < 0.7 for _ in range(4)], "len": rng.choice([2, 4, 9]), "split": rng.choice(["pos_joint", "pos_XF", "pos_UXF", "pos_gran"])}


def at_words(name, ext, batch, masked=False):
    """the features of the words of a batch, each computed alone"""
    out = {}
    for k, s in enumerate(batch):
        row = {}
        for t in s.tokens:
            for n, v in ext.get_features(t).items():
                if masked: v = [1] * len(v) if isinstance(v, list) else 1
                row.setdefault(n, []).append(v)
        for n, v in row.items(): out.setdefault(n, []).append(v)
    return {n: padded(v, lens(v)) for n, v in out.items()}


@check("C14", gen=gen4, n=400)
def library_providers(c):
    """the providers of the library compose the extractors of the library"""
    train = Data([mk_doc(d) for d in c["train"]])
    chars = {"min_frequency": c["min"][1], "segmenter": "char", "max_word_length": c["len"]}
    trie = {"min_frequency": c["min"][2], "segmenter": "char", "max_word_length": c["len"]}
    cands = [(P.TrainableWordEmbeddingExtractorProvider("w", {"min_frequency": c["min"][0], "lowercase": c["lower"]}), X.TrainableEmbeddingsExtractorBuilder("w", c["min"][0], c["lower"]), True),
             (P.SubwordsExtractorProvider("c", chars), X.TokenCharactersFeatureExtractorBuilder("c", chars), True),
             (P.LemmaDictExtractorProvider("l"), X.LemmaDictFeatureExtractorBuilder("l"), False),
             (P.LemmaCharExtractorProvider("lc", trie), X.LemmaCharFeatureExtractorBuilder("lc", trie), False)]
    picked = [x for x, b in zip(cands, c["pick"]) if b]
    batch = [s for d in list(train) + [mk_doc(d) for d in c["test"]] for s in d.sentences]
    assume(batch and any(d.tokens_count for d in train))
    f, l, itp, ini = P.FeatureExtractorBuilderProvider([x[0] for x in picked] + [P.SentenceLengthExtractorProvider("n")]).build(train)
    alone = [(b.build(train), feature) for _, b, feature in picked]
    masked = c["rate"] == 1
    want = union([at_words(None, b[0], batch, masked) for b, feature in alone if feature] + [{"n": [s.tokens_count for s in batch]}])
    ensure((f.get_features(batch) if c["rate"] is None else f.get_features(batch, sparse_rate=c["rate"])) == want, "features of a batch are those of the extractors alone")
    want = union(at_words(None, b[0], batch) for b, feature in alone if not feature)
    ensure(l.get_features(batch) == want, "labels of a batch are those of the extractors alone")
    ensure(ini.shapes() == union(b[2].shapes() for b, _ in alone), "the shapes are those of the initializers alone")
