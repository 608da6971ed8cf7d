import os
import tempfile
from collections import Counter
from pydv.speclib import *
from rt.core import check, gen_str, size
from specs.gen import *
import babylondigger.features.extractors as X
import babylondigger.features.builder as B
from specs.c10_rt import Data

PADDING, OOV, START, END = 0, 1, 2, 3


def gen_docs(rng):
    vocab = [gen_str(rng, nonempty=True, alphabet=rng.choice(["ab", "aAbB", "абАБ", "İıſßẞ", "日本"]), small=3) for _ in range(rng.choice([2, 4, 8]))]
    docs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        text, toks = "", []
        for _ in range(size(rng, 8)):
            w = rng.choice(vocab)
            t = {"start": len(text), "end": len(text) + len(w), "lemma": rng.choice(vocab)}
            if rng.random() < 0.15: t["text_replacement"] = rng.choice(vocab)
            text += w
            toks.append(t)
            if rng.random() < 0.7: text += " "
        docs.append({"text": text, "tokens": toks, "sentences": None})
    return docs


def probe(rng, docs):
    return gen_docs(rng) + docs


def vocabulary(ids, lower, n, units, reserved):
    """ids: unit -> id observed"""
    known = {u: i for u, i in ids.items() if u in units}
    ensure(all(reserved <= i < n for i in known.values()), "in-vocabulary units have ids outside of the reserved range and below the declared size")
    ensure(len(set(known.values())) == len(known), "in-vocabulary units have unique ids")
    ensure(all(i == OOV for u, i in ids.items() if u not in units), "everything else has the out-of-vocabulary id")


@check("C12", gen=lambda rng, i: {"train": gen_docs(rng), "test": gen_docs(rng), "threshold": rng.choice([0, 1, 1, 2, 3, 4]), "lower": rng.random() < 0.5}, n=2000)
def trainable_words(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, itp, ini = X.TrainableEmbeddingsExtractorBuilder("w", c["threshold"], c["lower"]).build(data)
    low = (lambda s: s.lower()) if c["lower"] else (lambda s: s)
    counts = Counter(low(t.text) for d in data for t in d.tokens)
    units = {w for w in counts if counts[w] >= c["threshold"]}
    n = ini.shapes()["w"][0]
    ensure(n == len(units) + 2, "the vocabulary consists of exactly the words reaching the threshold")
    ids = {}
    for d in list(data) + [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            f = ext.get_features(t)
            ensure(list(f) == ["w"], "one feature")
            ensure(ids.setdefault(low(t.text), f["w"]) == f["w"], "the id depends on the word alone")
            ensure(itp.interpret(t, {}) is t, "features are not interpreted")
    vocabulary(ids, low, n, units, 2)


def gen_emb(rng, i):
    docs = gen_docs(rng)
    ws = sorted({gen_str(rng, nonempty=True, alphabet="abAB", small=2) for _ in range(rng.randint(1, 8))} | {w for d in docs for w in d["text"].split() if rng.random() < 0.6})
    rng.shuffle(ws)
    dim = rng.choice([1, 2, 3, 5])
    if not ws: ws = ["a"]
    vecs = [[round(rng.uniform(-2, 2), 3) for _ in range(dim)] for _ in ws]
    return {"docs": docs, "words": ws, "vecs": vecs, "dim": dim, "header": dim == 1 or rng.random() < 0.5, "lower": rng.random() < 0.5, "sub": rng.random() < 0.4}


@check("C12", gen=gen_emb, n=800)
def pretrained(c):
    fd, p = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH"))
    with os.fdopen(fd, "w", encoding="utf8") as f:
        if c["header"]: f.write("%d %d\n" % (len(c["words"]), c["dim"]))
        for w, v in zip(c["words"], c["vecs"]): f.write(" ".join([w] + [repr(x) for x in v]) + "\n")
    docs = [mk_doc(d) for d in c["docs"]]
    try:
        if c["sub"]: ext, itp, ini = X.SubwordEmbeddingFeatureExtractorBuilder("w", "init", {"embedding_path": p, "segmenter": "char"}).build(Data(docs))
        else: ext, itp, ini = X.WordEmbeddingFeatureExtractorBuilder("w", "init", p, c["lower"]).build(Data(docs))
    finally: os.unlink(p)
    base = 4 if c["sub"] else 2
    n, dim = ini.shapes()["init"]
    ensure((n, dim) == (len(c["words"]) + base, c["dim"]), "declared shape")
    rows = {}
    for k, v in ini.initial_values()["init"]:
        ensure(k not in rows and 0 <= k < n and len(v) == dim, "initial values have unique valid rows")
        rows[k] = list(v)
    ensure(all(x == 0 for x in rows.pop(0)), "padding is the zero vector")
    ensure(sorted(rows) == list(range(base, n)), "one initial row per word, outside of the reserved range")
    ensure(sorted(rows.values()) == sorted(c["vecs"]), "every vector of the file is used once")
    vec = dict(zip(c["words"], c["vecs"]))
    for d in docs:
        for t in d.tokens:
            f = ext.get_features(t)["w"]
            if c["sub"]:
                ensure(f[0] == START and f[-1] == END and len(f) == len(t.text) + 2, "framed, one id per segment")
                pairs = list(zip(t.text, f[1:-1]))
            else: pairs = [(t.text.lower() if c["lower"] else t.text, f)]
            for w, k in pairs:
                if w in vec: ensure(base <= k < n and rows[k] == vec[w], "a known word has the id of its own vector")
                else: ensure(k == OOV, "an unknown word has the out-of-vocabulary id")


@check("C12", gen=lambda rng, i: {"train": gen_docs(rng), "test": gen_docs(rng), "min": rng.choice([0, 1, 2, 3, 5])}, n=1500)
def characters(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, _, ini = X.TokenCharactersFeatureExtractorBuilder("c", {"min_frequency": c["min"], "segmenter": "char"}).build(data)
    counts = Counter(ch for d in data for t in d.tokens for ch in t.text)
    units = {u for u in counts if counts[u] >= c["min"]}
    n = ini.shapes()["c"][0]
    ensure(n == len(units) + 4, "the vocabulary consists of exactly the characters reaching the threshold")
    ids = {}
    for d in list(data) + [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            f = ext.get_features(t)["c"]
            ensure(f[0] == START and f[-1] == END and len(f) == len(t.text) + 2, "framed by start and end with one id per character")
            for ch, k in zip(t.text, f[1:-1]): ensure(ids.setdefault(ch, k) == k, "the id depends on the character alone")
    vocabulary(ids, None, n, units, 4)


@check("C12", gen=lambda rng, i: {"train": gen_docs(rng), "test": gen_docs(rng), "min": rng.choice([0, 1, 2, 3]), "len": rng.choice([1, 2, 3, 4, 5, 6, 10, 30])}, n=1500)
def lemma_characters(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, _, ini = X.LemmaCharFeatureExtractorBuilder("c", {"min_frequency": c["min"], "max_word_length": c["len"], "segmenter": "char"}).build(data)
    counts = Counter(ch for d in data for t in d.tokens for ch in t.lemma)
    units = {u for u in counts if counts[u] >= c["min"]}
    n = ini.shapes()["c"][0]
    ensure(n == len(units) + 4, "the vocabulary consists of exactly the lemma characters reaching the threshold")
    ids = {}
    for d in list(data) + [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            f = ext.get_features(t)["c"]
            ensure(len(f) == c["len"], "exactly the configured length")
            full = [START] + list(t.lemma) + [END]
            for x, k in zip(full, f):
                if isinstance(x, int): ensure(k == x, "start and end at their places")
                else: ensure(ids.setdefault(x, k) == k, "the id depends on the character alone")
            ensure(all(k == PADDING for k in f[len(full):]), "padded at the end")
    vocabulary(ids, None, n, units, 4)


@check("C12", gen=lambda rng, i: gen_docs(rng), n=300)
def sentence_length(docs):
    for d in [mk_doc(d) for d in docs]:
        ext, _, ini = X.SentenceLengthFeatureExtractorBuilder("n").build([d])
        for s in d.sentences: ensure(ext.get_features(s) == {"n": len(list(s.tokens))}, "sentence length")


@check("C12", cases=lambda: [0])
def constants(_):
    ensure((B.PADDING, B.OOV, B.START, B.END) == (0, 1, 2, 3), "reserved ids are distinct")
    for mk in (lambda: X.TokenCharactersFeatureExtractorBuilder("c", {"min_frequency": 0, "segmenter": "none"}),
               lambda: X.LemmaCharFeatureExtractorBuilder("c", {"min_frequency": 0, "segmenter": "none", "max_word_length": 3})):
        ensure(attempt(lambda: mk().build([])).refused(), "unknown segmenters are refused")


class Fake(object):
    """stands for an external segmenter (BPEmb or Morfessor): segments a word as a table says"""
    def __init__(self, table): self.table = table
    def __call__(self, *args, **kwargs): return self
    def encode(self, word): return list(self.table[word])
    def read_any_model(self, path): return self
    def viterbi_segment(self, word): return list(self.table[word]), -1.5


def cut(rng, w):
    out, k = [], 0
    while k < len(w):
        n = rng.randint(1, 3)
        out.append(w[k:k + n])
        k += n
    return out


def gen_seg(rng, i):
    c = {"train": gen_docs(rng), "test": gen_docs(rng), "min": rng.choice([0, 1, 2]), "kind": rng.choice(["bpe", "bpe", "morfessor"]), "table": {}}
    for d in c["train"] + c["test"]:
        for t in d["tokens"]:
            w = t.get("text_replacement") or d["text"][t["start"]:t["end"]]
            if w not in c["table"]: c["table"][w] = (cut(rng, w), rng.random() < 0.6)
    return c


@check("C12", gen=gen_seg, n=600)
def external_segmenters(c):
    assume(hasattr(X, "BPEmb") and hasattr(X, "mf"))
    plain = {w: s for w, (s, _) in c["table"].items()}
    marked = {w: (["\u2581" + s[0]] + s[1:] if joined else ["\u2581"] + s) for w, (s, joined) in c["table"].items()}
    fake = Fake(marked if c["kind"] == "bpe" else plain)
    old, oldm = X.BPEmb, X.mf
    class Lib(object): MorfessorIO = fake
    X.BPEmb, X.mf = fake, Lib
    data = Data([mk_doc(d) for d in c["train"]])
    conf = {"language": "en", "vocab_size": 10} if c["kind"] == "bpe" else {"path": "none"}
    try:
        ext, _, ini = X.TokenCharactersFeatureExtractorBuilder("c", {"min_frequency": c["min"], "segmenter": c["kind"], "segmenter_config": conf}).build(data)
        got = [(t.text, ext.get_features(t)["c"]) for d in list(data) + [mk_doc(d) for d in c["test"]] for t in d.tokens]
    finally: X.BPEmb, X.mf = old, oldm
    counts = Counter(u for d in data for t in d.tokens for u in plain[t.text])
    units = {u for u in counts if counts[u] >= c["min"]}
    n = ini.shapes()["c"][0]
    ensure(n == len(units) + 4, "the vocabulary consists of exactly the segments reaching the threshold")
    ids = {}
    for w, f in got:
        ensure(f[0] == START and f[-1] == END and len(f) == len(plain[w]) + 2, "framed by start and end with one id per segment")
        for u, k in zip(plain[w], f[1:-1]): ensure(ids.setdefault(u, k) == k, "the id depends on the segment alone")
    vocabulary(ids, None, n, units, 4)
