"""C17: scores of an evaluation.

Spans are any objects with a start and an end; the treebank representation is a plain record of four lists."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.evaluation.conll17_ud_eval import evaluate, UDError


class Treebank(object):
    def __init__(self, characters, tokens, sentences):
        self.characters = characters
        self.tokens = tokens
        self.words = []
        self.sentences = sentences


def gen_spans(rng):
    def spans(n):
        out, at = [], 0
        for _ in range(n):
            at += rng.randint(0, 2)
            end = at + rng.randint(1, 3)
            out.append((at, end)); at = end
        return out
    from babylondigger.datamodel import Sentence
    a = spans(rng.randint(0, 8))
    b = spans(rng.randint(0, 8)) if rng.random() < 0.5 else [x for x in a if rng.random() < 0.8]
    return {"characters": [rng.choice("abc") for _ in range(rng.randint(0, 4))], "gold": [Sentence(*x) for x in a], "system": [Sentence(*x) for x in b]}


def close(a, b):
    return -0.000001 <= a - b and a - b <= 0.000001


def ascending(spans):
    return forall(0, len(spans), lambda j: forall(0, j, lambda i: spans[i].start < spans[j].start))


def counted(found, c, g):
    unfold(found, g - 1)
    return c == found(g)


def nothing_left(found, g, gold, system):
    unfold(found, g - 1)
    m = len(system)
    return forall(0, g, lambda h: found(g) == found(h) if (True if m == 0 else system[m - 1].start < gold[h].start) else True)


def merging(found, gold, system, c, g, s):
    """the state of a scan that passed g gold and s system spans and counted c pairs"""
    n, m = len(gold), len(system)
    return 0 <= g and g <= n and 0 <= s and s <= m and 0 <= c and c <= g and c <= s \
        and (True if g >= n else forall(0, s, lambda j: system[j].start < gold[g].start)) \
        and (True if s >= m else forall(0, g, lambda j: gold[j].start < system[s].start)) and counted(found, c, g)


def matched(gold, system):
    """found(g): how many of the first g gold spans are system spans"""
    m = len(system)
    return primrec(0, lambda g, c: c + (1 if exists(0, m, lambda s: gold[g].start == system[s].start and gold[g].end == system[s].end) else 0))


@lemma("C17", gen=gen_spans, characters=List(Str), gold=List(SentenceR), system=List(SentenceR))
def token_scores_are_exact(characters, gold, system):
    assume(ascending(gold) and ascending(system))
    n, m = len(gold), len(system)
    found = matched(gold, system)
    invariant(lambda k, c, g, s: merging(found, gold, system, c, g, s), depth=0, c="IntT", g="IntT", s="IntT")
    induct(0, n + 1, lambda g: nothing_left(found, g, gold, system), "no gold span that starts after all system spans counts")
    r = attempt(lambda: evaluate(Treebank(characters, gold, []), Treebank(characters, system, [])))
    ensure(r.ok, "treebanks over the same characters are compared")
    exact(r.value["Tokens"], found(n), n, m)


@lemma("C17", gen=gen_spans, characters=List(Str), gold=List(SentenceR), system=List(SentenceR))
def sentence_scores_are_exact(characters, gold, system):
    assume(ascending(gold) and ascending(system))
    n, m = len(gold), len(system)
    found = matched(gold, system)
    invariant(lambda k, c, g, s: merging(found, gold, system, c, g, s), depth=0, c="IntT", g="IntT", s="IntT")
    induct(0, n + 1, lambda g: nothing_left(found, g, gold, system), "no gold span that starts after all system spans counts")
    r = attempt(lambda: evaluate(Treebank(characters, [], gold), Treebank(characters, [], system)))
    ensure(r.ok, "treebanks over the same characters are compared")
    exact(r.value["Sentences"], found(n), n, m)


def exact(score, correct, n, m):
    ensure(close(score.precision, correct / m if m else 0.0), "precision")
    ensure(close(score.recall, correct / n if n else 0.0), "recall")
    ensure(close(score.f1, 2 * correct / (n + m) if n + m else 0.0), "F1")
    ensure(0 <= score.precision and score.precision <= 1 and 0 <= score.recall and score.recall <= 1 and 0 <= score.f1 and score.f1 <= 1, "between 0 and 1")


def gen_treebank(rng):
    x = gen_spans(rng)
    return {"characters": x["characters"], "gold": x["gold"]}


@lemma("C17", gen=gen_treebank, characters=List(Str), gold=List(SentenceR))
def a_treebank_scores_one_against_itself(characters, gold):
    assume(ascending(gold))
    n = len(gold)
    invariant(lambda k, c, g, s: 0 <= c and c == g and g == s and s <= n, depth=0, c="IntT", g="IntT", s="IntT")
    r = attempt(lambda: evaluate(Treebank(characters, gold, []), Treebank(characters, gold, [])))
    ensure(r.ok, "compared")
    score = r.value["Tokens"]
    if n > 0: ensure(close(score.precision, 1.0) and close(score.recall, 1.0) and close(score.f1, 1.0), "every score is 1")
    else: ensure(score.precision == 0 and score.recall == 0 and score.f1 == 0, "nothing to count")


def gen_characters(rng):
    a = [rng.choice("ab") for _ in range(rng.randint(0, 6))]
    b = list(a) if rng.random() < 0.4 else [rng.choice("ab") for _ in range(rng.randint(0, 6))]
    return {"first": a, "second": b}


@lemma("C17", gen=gen_characters, first=List(Str), second=List(Str))
def treebanks_over_different_characters_are_refused(first, second):
    gold, system = Treebank(first, [], []), Treebank(second, [], [])
    refused = False
    try:
        evaluate(gold, system)
    except UDError:
        refused = True
    ensure(refused == (first != second), "refused exactly when the characters differ")
