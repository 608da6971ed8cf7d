"""C11: label vocabularies are bijections, decoding inverts encoding."""
from collections import Counter
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Pos
from babylondigger.features.extractors import LemmaDictFeatureExtractorBuilder, LemmaSuffixTransformationFeatureExtractorBuilder, CachedSuffixRulesBuilder, PosDictFeatureExtractorBuilder, LemmaCharFeatureExtractorBuilder
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation


class Word(object):
    """a token with this lemma"""
    def __init__(self, lemma, pos=None):
        self.lemma = lemma
        self.pos = pos

    def with_morphology(self, obj, pos, lemma):
        return Word(lemma, pos)


def gen_words(rng):
    vocab = ["a", "b", "A", "ab", "", "ba"]
    return dict(words=[[rng.choice(vocab) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))], w=rng.choice(vocab), v=rng.choice(vocab), k=rng.randint(0, 4))


@lemma("C11", gen=gen_words, words=List(List(Str)), w=Str, v=Str, k=Int)
def lemma_dictionary(words, w, v, k):
    counts = Counter([x for ws in words for x in ws])
    assume(w in counts)
    built = attempt(lambda: LemmaDictFeatureExtractorBuilder("l").build([[Word(x) for x in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["l"]["LEMMA"]
    ids = extractor.get_features(Word(w))["l"]
    ensure(len(ids) == 1 and 0 <= ids[0] and ids[0] < size, "one valid id")
    back = interpreter.interpret(Word("x", "p"), {"l": ids})
    ensure(back.lemma == w and back.pos == "p", "decoding gives the lemma back")
    other = extractor.get_features(Word(v))["l"]
    ensure(len(other) == 1 and 0 <= other[0] and other[0] < size, "every lemma has a valid id")
    ensure(implies(v in counts and other[0] == ids[0], v == w), "different lemmas have different ids")
    assume(0 <= k and k < size)
    label = interpreter.interpret(Word("x", "p"), {"l": [k]}).lemma
    ensure(label in counts, "every id is a lemma of the training set")
    ensure(extractor.get_features(Word(label))["l"][0] == k, "and is the id of this lemma")
    top = interpreter.interpret(Word("x", "p"), {"l": [0]}).lemma
    ensure(counts.get(top, 0) >= counts.get(v, 0), "the first id is a most frequent lemma")


class Text(object):
    """a token with this text and lemma"""
    def __init__(self, text, lemma, pos=None):
        self.text = text
        self.lemma = lemma
        self.pos = pos

    def with_morphology(self, obj, pos, lemma):
        return Text(self.text, lemma, pos)


class Docs(object):
    """a dataset: iterable and hashable"""
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return self is other


def gen_rules(rng, low=0, high=0):
    w = lambda: "".join(rng.choice("abA") for _ in range(rng.randint(0, 4)))
    words = [[(w(), w()) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))]
    t = rng.choice([x for ws in words for x in ws] or [("a", "b")])
    return dict(words=words, threshold=rng.randint(low, high), text=t[0], lem=t[1], u=w(), v=w(), k=rng.randint(0, 4))


def rule_of(text, lem):
    return LemmaSuffixTransformation.get_rule(text.lower(), lem.lower())


@lemma("C11", gen=gen_rules, words=List(List(Tup(Str, Str))), threshold=Int, text=Str, lem=Str, u=Str, v=Str, k=Int)
def suffix_rules_without_threshold(words, threshold, text, lem, u, v, k):
    assume(threshold <= 0)
    counts = Counter([rule_of(t, l) for ws in words for t, l in ws])
    own = rule_of(text, lem)
    assume(own in counts)
    built = attempt(lambda: LemmaSuffixTransformationFeatureExtractorBuilder("l", CachedSuffixRulesBuilder(threshold)).build(Docs([[Text(t, l) for t, l in ws] for ws in words])))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["l"]["LEMMA"]
    ids = extractor.get_features(Text(text, lem))["l"]
    ensure(len(ids) == 1 and 0 <= ids[0] and ids[0] < size, "one valid id")
    back = interpreter.interpret(Text(text, "x", "p"), {"l": ids})
    ensure(back.lemma == lem.lower() and back.pos == "p", "decoding gives the lower-cased lemma back")
    other = extractor.get_features(Text(u, v))["l"]
    ensure(len(other) == 1 and 0 <= other[0] and other[0] < size, "every rule has a valid id")
    ensure(implies(rule_of(u, v) in counts and other[0] == ids[0], rule_of(u, v) == own), "different rules have different ids")
    assume(0 <= k and k < size)
    r = attempt(lambda: interpreter.interpret(Text(u, "x", "p"), {"l": [k]}))
    ensure(r.ok and r.value.pos == "p", "every id can be decoded on every token")


@lemma("C11", gen=lambda rng: gen_rules(rng, 1, 3), words=List(List(Tup(Str, Str))), threshold=Int, text=Str, lem=Str, u=Str, v=Str, k=Int)
def suffix_rules_with_threshold(words, threshold, text, lem, u, v, k):
    assume(threshold > 0)
    counts = Counter([rule_of(t, l) for ws in words for t, l in ws])
    own = rule_of(text, lem)
    assume(own in counts)
    built = attempt(lambda: LemmaSuffixTransformationFeatureExtractorBuilder("l", CachedSuffixRulesBuilder(threshold)).build(Docs([[Text(t, l) for t, l in ws] for ws in words])))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["l"]["LEMMA"]
    ids = extractor.get_features(Text(text, lem))["l"]
    ensure(len(ids) == 1 and 0 <= ids[0] and ids[0] < size, "one valid id")
    back = interpreter.interpret(Text(text, "x", "p"), {"l": ids})
    ensure(implies(counts[own] > threshold, back.lemma == lem.lower()), "decoding gives the lower-cased lemma of a frequent rule back")
    ensure(back.pos == "p", "the tag is kept")
    other = extractor.get_features(Text(u, v))["l"]
    ensure(len(other) == 1 and 0 <= other[0] and other[0] < size, "every rule has a valid id")
    ensure(implies(counts.get(rule_of(u, v), 0) > threshold and counts[own] > threshold and other[0] == ids[0], rule_of(u, v) == own), "different frequent rules have different ids")
    ensure(implies(counts.get(rule_of(u, v), 0) <= threshold, other[0] == 0), "rare rules share the first id")
    assume(0 <= k and k < size)
    r = attempt(lambda: interpreter.interpret(Text(u, "x", "p"), {"l": [k]}))
    ensure(r.ok and r.value.pos == "p", "every id can be decoded on every token")


class Tagged(object):
    """a token with this part of speech"""
    def __init__(self, pos, lemma=None):
        self.pos = pos
        self.lemma = lemma

    def with_morphology(self, obj, pos, lemma):
        return Tagged(pos, lemma)


def gen_tags(rng):
    tag = lambda: rng.choice([None, "A", "B", ""])
    pos = lambda: Pos(tag(), tag(), {rng.choice("xyz"): rng.choice("12") for _ in range(rng.randint(0, 2))})
    words = [[pos() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))]
    return dict(words=words, own=rng.choice([x for ws in words for x in ws] or [pos()]), other=pos(), lem=rng.choice(["", "a"]))


@lemma("C11", gen=gen_tags, words=List(List(PosF)), own=PosF, other=PosF, lem=Str)
def unsplit_tags(words, own, other, lem):
    counts = Counter([p for ws in words for p in ws])
    assume(own in counts)
    built = attempt(lambda: PosDictFeatureExtractorBuilder("l", "pos_joint").build([[Tagged(p) for p in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    sizes = initializer.shapes()["l"]
    ids = extractor.get_features(Tagged(own))["l"]
    ensure(len(ids) == 1 and len(sizes) == 1 and 0 <= ids[0] and ids[0] < sizes["POS"], "one valid id")
    back = interpreter.interpret(Tagged(None, lem), {"l": ids})
    ensure(back.pos == own and back.lemma == lem, "decoding gives the part of speech back and keeps the lemma")
    more = extractor.get_features(Tagged(other))["l"]
    ensure(len(more) == 1 and 0 <= more[0] and more[0] < sizes["POS"], "every part of speech has a valid id")
    ensure(implies(other in counts and more[0] == ids[0], other == own), "different parts of speech have different ids")


def every_part(ids, sizes, names):
    """every part has a valid id"""
    ensure(len(ids) == len(names) and len(sizes) == len(names), "one id for every part")
    for i, name in enumerate(names):
        ensure(name in sizes and 0 <= ids[i] and ids[i] < sizes[name], "every id is valid")


@lemma("C11", gen=gen_tags, words=List(List(PosF)), own=PosF, other=PosF, lem=Str)
def split_tags(words, own, other, lem):
    counts = Counter([p for ws in words for p in ws])
    assume(own in counts)
    built = attempt(lambda: PosDictFeatureExtractorBuilder("l", "pos_UXF").build([[Tagged(p) for p in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    sizes = initializer.shapes()["l"]
    ids = extractor.get_features(Tagged(own))["l"]
    every_part(ids, sizes, ["UPOS", "XPOS", "FEATS"])
    back = interpreter.interpret(Tagged(None, lem), {"l": ids})
    ensure(back.pos.upos == own.upos, "decoding gives the universal tag back")
    ensure(back.pos.xpos == own.xpos, "decoding gives the language-specific tag back")
    ensure(back.pos.feats == own.feats, "decoding gives the features back")
    ensure(back.lemma == lem, "the lemma is kept")
    every_part(extractor.get_features(Tagged(other))["l"], sizes, ["UPOS", "XPOS", "FEATS"])


@lemma("C11", gen=gen_tags, words=List(List(PosF)), own=PosF, other=PosF, lem=Str)
def half_split_tags(words, own, other, lem):
    counts = Counter([p for ws in words for p in ws])
    assume(own in counts)
    built = attempt(lambda: PosDictFeatureExtractorBuilder("l", "pos_XF").build([[Tagged(p) for p in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    sizes = initializer.shapes()["l"]
    ids = extractor.get_features(Tagged(own))["l"]
    every_part(ids, sizes, ["UPOS", "XPOS+FEATS"])
    back = interpreter.interpret(Tagged(None, lem), {"l": ids})
    ensure(back.pos.upos == own.upos, "decoding gives the universal tag back")
    ensure(back.pos.xpos == own.xpos, "decoding gives the language-specific tag back")
    ensure(back.pos.feats == own.feats, "decoding gives the features back")
    ensure(back.lemma == lem, "the lemma is kept")
    every_part(extractor.get_features(Tagged(other))["l"], sizes, ["UPOS", "XPOS+FEATS"])


def gen_spelled(rng):
    w = lambda: "".join(rng.choice("abA") for _ in range(rng.randint(0, 4)))
    words = [[w() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))]
    return dict(words=words, threshold=rng.randint(0, 3), length=rng.randint(2, 8), w=rng.choice([x for ws in words for x in ws] or ["a"]))


@lemma("C11", gen=gen_spelled, words=List(List(Str)), threshold=Int, length=Int, w=Str)
def spelled_lemma(words, threshold, length, w):
    assume(len(w) + 2 <= length)
    counts = Counter([ch for x in [x for ws in words for x in ws] for ch in x])
    assume(forall(0, len(w), lambda i: counts.get(w[i], 0) >= threshold and w[i] in counts))
    built = attempt(lambda: LemmaCharFeatureExtractorBuilder("f", {"min_frequency": threshold, "max_word_length": length, "segmenter": "char"}).build([[Word(x) for x in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    ids = extractor.get_features(Word(w))["f"]
    ensure(forall(1, len(w) + 1, lambda i: ids[i] > 3), "every character has an id of its own")
    ensure(forall(1, len(w) + 1, lambda i: interpreter.interpret(Word("x"), {"f": [ids[i]]}).lemma == w[i - 1]), "one id decodes to its character")
    invariant(lambda k, lemma: k <= len(w) + 1, depth=0, lemma="StrT")
    invariant(lambda k, lemma: lemma == (w[:k - 1] if k > 0 else ""), depth=0, lemma="StrT")
    back = attempt(lambda: interpreter.interpret(Word("x"), {"f": ids}))
    ensure(back.ok, "the ids can be decoded")
    ensure(back.value.lemma == w, "decoding gives the lemma back")
