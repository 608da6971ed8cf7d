from collections import Counter
from pydv.speclib import *
from rt.core import check, gen_str, size
from specs.gen import *
from babylondigger.datamodel import DocumentToken
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation
from babylondigger.features.extractors import *
from specs.c10_rt import Data

SPLITS = ["pos_joint", "pos_XF", "pos_UXF", "pos_gran"]


def gen_train(rng, kinds=("none", "tree")):
    docs, tags = [], [gen_pos(rng, none=0, tag_none=0.15, extra=("",) if rng.random() < 0.4 else ()) for _ in range(rng.choice([1, 2, 4, 8]))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = gen_doc(rng, kinds=kinds, empty=0.1)
        for t in d["tokens"]:
            t["pos"] = rng.choice(tags)
            w = t["text_replacement"] if t["text_replacement"] is not None else d["text"][t["start"]:t["end"]]
            t["lemma"] = w[:rng.randint(0, len(w))] + gen_str(rng, small=2)
        docs.append(d)
    assume(any(d["tokens"] for d in docs))
    return docs


def others(t, what):
    a = dict(attrs(t), text=t.text, head=getattr(t, "head_index", None))
    for w in what: a.pop(w)
    a.pop("head")
    return a


def decode(ext, itp, name, t, keep, blank):
    """encode t, decode on a token whose label is unset"""
    enc = ext.get_features(t)
    ensure(list(enc) == [name], "one label is extracted")
    b = t.with_morphology(t, pos=None if blank == "pos" else t.pos, lemma=None if blank == "lemma" else t.lemma)
    before = others(b, ())
    r = itp.interpret(b, enc)
    ensure(others(r, (blank,)) == others(t, (blank,)), "decoding does not touch other attributes")
    ensure(others(b, ()) == before, "decoding does not modify its argument")
    return enc[name], r


@check("C11", gen=lambda rng, i: {"train": gen_train(rng), "test": gen_train(rng), "split": SPLITS[i % 4]}, n=2000)
def parts_of_speech(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, itp, ini = PosDictFeatureExtractorBuilder("p", c["split"]).build(data)
    shape = ini.shapes()["p"]
    sizes = list(shape.values())
    counts = [Counter() for _ in sizes]
    parts_of = {}
    for d in data:
        for t in d.tokens:
            ids, r = decode(ext, itp, "p", t, None, "pos")
            ensure(r.pos == t.pos, "decoding the encoded part of speech gives it back")
            ensure(len(ids) == len(sizes), "one id per part")
            for k, i in enumerate(ids):
                ensure(isinstance(i, int) and 0 <= i < sizes[k], "ids are below the declared size")
                counts[k][i] += 1
            parts_of[tuple(ids)] = t.pos
    ensure(len(set(parts_of.values())) == len(parts_of), "different labels have different ids")
    for k, n in enumerate(sizes):
        ensure(set(counts[k]) == set(range(n)), "ids 0..n-1 are all used by training labels")
        ensure(counts[k][0] == max(counts[k].values()), "id 0 is the most frequent label")
    for d in [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            ids, r = decode(ext, itp, "p", t, None, "pos")
            ensure(len(ids) == len(sizes) and all(0 <= i < n for i, n in zip(ids, sizes)), "unseen labels get valid ids")


@check("C11", gen=lambda rng, i: {"train": gen_train(rng), "test": gen_train(rng)}, n=1200)
def lemma_dictionary(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, itp, ini = LemmaDictFeatureExtractorBuilder("l").build(data)
    n = ini.shapes()["l"]["LEMMA"]
    counts, by = Counter(), {}
    for d in data:
        for t in d.tokens:
            ids, r = decode(ext, itp, "l", t, None, "lemma")
            ensure(r.lemma == t.lemma, "decoding the encoded lemma gives it back")
            ensure(len(ids) == 1 and 0 <= ids[0] < n, "ids are below the declared size")
            counts[ids[0]] += 1
            by.setdefault(ids[0], set()).add(t.lemma)
    ensure(set(counts) == set(range(n)) and all(len(x) == 1 for x in by.values()), "the vocabulary is a bijection with 0..n-1")
    ensure(counts[0] == max(counts.values()), "id 0 is the most frequent lemma")
    for d in [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            ids, r = decode(ext, itp, "l", t, None, "lemma")
            ensure(len(ids) == 1 and 0 <= ids[0] < n, "unseen lemmas get valid ids")


@check("C11", gen=lambda rng, i: {"train": gen_train(rng), "test": gen_train(rng), "threshold": rng.choice([0, 0, 1, 2, 3])}, n=1500)
def suffix_rules(c):
    data, th = Data([mk_doc(d) for d in c["train"]]), c["threshold"]
    ext, itp, ini = LemmaSuffixTransformationFeatureExtractorBuilder("s", CachedSuffixRulesBuilder(th)).build(data)
    n = ini.shapes()["s"]["LEMMA"]
    rule = lambda t: LemmaSuffixTransformation.get_rule(t.text.lower(), t.lemma.lower())
    counts = Counter(rule(t) for d in data for t in d.tokens)
    frequent = {r for r in counts if th <= 0 or counts[r] > th}
    ensure(n in (len(frequent), len(frequent) + 1) and n >= 1, "the vocabulary consists of the frequent rules and the most frequent one")
    ids_of = {}
    for d in data:
        for t in d.tokens:
            ids, r = decode(ext, itp, "s", t, None, "lemma")
            ensure(len(ids) == 1 and 0 <= ids[0] < n, "ids are below the declared size")
            if rule(t) in frequent:
                ensure(r.lemma == t.lemma.lower(), "decoding the encoded rule gives the lower-cased lemma")
                ids_of.setdefault(rule(t), set()).add(ids[0])
            else:
                ensure(isinstance(r.lemma, str), "rare rules never fail")
    ensure(all(len(x) == 1 for x in ids_of.values()) and len({next(iter(x)) for x in ids_of.values()}) == len(ids_of), "each rule has its own id")
    top = [r for r in counts if counts[r] == max(counts.values())]
    if frequent: ensure(any(0 in ids_of.get(r, ()) for r in top), "id 0 is the most frequent rule")
    for d in [mk_doc(d) for d in c["test"]]:
        for t in d.tokens:
            ids, r = decode(ext, itp, "s", t, None, "lemma")
            ensure(len(ids) == 1 and 0 <= ids[0] < n, "unseen rules get valid ids")
    for t in list(next(iter(data)).tokens)[:5]:
        for k in range(n):
            r = itp.interpret(t, {"s": [k]})
            ensure(isinstance(r.lemma, str) and others(r, ("lemma",)) == others(t, ("lemma",)), "every id can be decoded on every token")


@check("C11", gen=lambda rng, i: {"train": gen_train(rng), "min": rng.choice([0, 1, 1, 2, 3]), "len": rng.choice([3, 5, 8, 12, 40])}, n=1200)
def lemma_characters(c):
    data = Data([mk_doc(d) for d in c["train"]])
    ext, itp, ini = LemmaCharFeatureExtractorBuilder("c", {"min_frequency": c["min"], "max_word_length": c["len"], "segmenter": "char"}).build(data)
    n = ini.shapes()["c"][0]
    counts = Counter(ch for d in data for t in d.tokens for ch in t.lemma)
    vocab = {ch for ch in counts if counts[ch] >= c["min"]}
    ensure(n == len(vocab) + 4, "declared size")
    for d in data:
        for t in d.tokens:
            ids, r = decode(ext, itp, "c", t, None, "lemma")
            ensure(len(ids) == c["len"] and all(0 <= i < n for i in ids), "ids are below the declared size")
            if len(t.lemma) + 1 <= c["len"] and set(t.lemma) <= vocab: ensure(r.lemma == t.lemma, "a lemma that fits is given back")
            else: ensure(r.lemma == "".join(ch for ch in t.lemma[:c["len"] - 1] if ch in vocab), "otherwise the known characters that fit are given back")
