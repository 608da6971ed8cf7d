"""C12: ids of the extractors stay within the declared vocabulary."""
from collections import Counter
from pydv.speclib import *
from pydv.types import *
from babylondigger.features.extractors import TrainableEmbeddingsExtractorBuilder, TokenCharactersFeatureExtractorBuilder, LemmaCharFeatureExtractorBuilder

PADDING, OOV, START, END = 0, 1, 2, 3


class Word(object):
    """a token with this text and lemma"""
    def __init__(self, text):
        self.text = text
        self.lemma = text


def gen_words(rng):
    vocab = ["a", "b", "A", "ab", "", "ba"]
    return dict(words=[[rng.choice(vocab) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))], threshold=rng.randint(0, 3), w=rng.choice(vocab), v=rng.choice(vocab))


@lemma("C12", gen=gen_words, words=List(List(Str)), threshold=Int, w=Str, v=Str)
def trainable_words(words, threshold, w, v):
    counts = Counter([x for ws in words for x in ws])
    built = attempt(lambda: TrainableEmbeddingsExtractorBuilder("f", threshold, False).build([[Word(x) for x in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["f"][0]
    i, j = extractor.get_features(Word(w))["f"], extractor.get_features(Word(v))["f"]
    known = w in counts and counts[w] >= threshold
    ensure(implies(known, 2 <= i), "words of the vocabulary have an id above the reserved ones")
    ensure(implies(known, i < size), "words of the vocabulary have an id below the declared size")
    ensure(implies(not known, i == OOV), "everything else has the out-of-vocabulary id")
    ensure(OOV < size, "the out-of-vocabulary id is below the declared size")
    ensure(implies(known and i == j, w == v), "words of the vocabulary have an id of their own")


def some(d, names):
    return {k: d[k] for k in names.split()}


def gen_chars(rng):
    w = lambda: "".join(rng.choice("abA") for _ in range(rng.randint(0, 5)))
    return dict(words=[[w() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 3))], threshold=rng.randint(0, 3), w=w(), k=rng.randint(0, 4), l=rng.randint(0, 4), length=rng.randint(0, 7))


@lemma("C12", gen=lambda rng: some(gen_chars(rng), "words threshold w k l"), words=List(List(Str)), threshold=Int, w=Str, k=Int, l=Int)
def characters(words, threshold, w, k, l):
    assume(0 <= k and k < len(w) and 0 <= l and l < len(w))
    counts = Counter([ch for x in [x for ws in words for x in ws] for ch in x])
    built = attempt(lambda: TokenCharactersFeatureExtractorBuilder("f", {"min_frequency": threshold, "segmenter": "char"}).build([[Word(x) for x in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["f"][0]
    ids = extractor.get_features(Word(w))["f"]
    ensure(len(ids) == len(w) + 2, "one id per character and the frame")
    ensure(ids[0] == START and ids[len(w) + 1] == END, "the ids are framed")
    ensure(END < size, "the frame is below the declared size")
    i, j = ids[k + 1], ids[l + 1]
    known = w[k] in counts and counts[w[k]] >= threshold
    ensure(implies(known, 4 <= i), "known characters have an id above the reserved ones")
    ensure(implies(known, i < size), "known characters have an id below the declared size")
    ensure(implies(not known, i == OOV), "everything else has the out-of-vocabulary id")
    ensure(implies(known and i == j, w[k] == w[l]), "known characters have an id of their own")


@lemma("C12", gen=lambda rng: some(gen_chars(rng), "words threshold length w k"), words=List(List(Str)), threshold=Int, length=Int, w=Str, k=Int)
def lemma_characters(words, threshold, length, w, k):
    assume(length >= 0 and 0 <= k and k < length)
    counts = Counter([ch for x in [x for ws in words for x in ws] for ch in x])
    built = attempt(lambda: LemmaCharFeatureExtractorBuilder("f", {"min_frequency": threshold, "max_word_length": length, "segmenter": "char"}).build([[Word(x) for x in ws] for ws in words]))
    ensure(built.ok, "a vocabulary can be built")
    extractor, interpreter, initializer = built.value
    size = initializer.shapes()["f"][0]
    ids = extractor.get_features(Word(w))["f"]
    ensure(len(ids) == length, "the configured length")
    ensure(END < size, "the frame is below the declared size")
    i = ids[k]
    ensure(implies(k == 0, i == START), "the ids start with the start id")
    ensure(implies(k == len(w) + 1, i == END), "an end id that fits follows the last character")
    ensure(implies(k > len(w) + 1, i == PADDING), "the rest is padding")
    if 0 < k and k <= len(w):
        known = w[k - 1] in counts and counts[w[k - 1]] >= threshold
        ensure(implies(known, 4 <= i), "known characters have an id above the reserved ones")
        ensure(implies(known, i < size), "known characters have an id below the declared size")
        ensure(implies(not known, i == OOV), "everything else has the out-of-vocabulary id")
