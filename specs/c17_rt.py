"""C17: evaluation scores are exact."""
import copy
from io import StringIO
from pydv.speclib import *
from rt.core import check
from specs.treebank import *
from babylondigger.evaluation import conll17_ud_eval as conll17


def load(tb): return conll17.load_conllu(StringIO(render(tb)))


def gen1(rng, i):
    chars = gen_chars(rng)
    mwt = rng.choice([0, 0.2, 0.4, 0.7])
    gold = gen_treebank(rng, chars, mwt)
    r = rng.random()
    if r < 0.08: system = copy.deepcopy(gold)
    elif r < 0.7: system = gen_treebank(rng, chars, mwt, like=gold)
    else: system = gen_treebank(rng, chars, rng.choice([0, mwt, 0.5]))
    if rng.random() < 0.7: annotate_like(rng, system, gold)
    return {"gold": gold, "system": system, "weights": rng.choice([None, None, {"aux": 0.5, "nmod": 2.0, "punct": 0}, {}])}


@check("C17", gen=gen1, n=2500)
def exact_scores(c):
    want = scores(c["gold"], c["system"], c["weights"])
    assume(want is not None)
    g, s = load(c["gold"]), load(c["system"])
    got = conll17.evaluate(g, s, c["weights"])
    ensure(any(same_table(got, t) for t in want), "precision, recall, F1 and aligned accuracy are the ratios of the counts of a correct alignment")
    for v in got.values():
        for x in (v.precision, v.recall, v.f1): ensure(0 <= x <= 1, "scores lie between 0 and 1")
        ensure(v.aligned_accuracy is None or 0 <= v.aligned_accuracy <= 1, "aligned accuracy lies between 0 and 1")
    again = conll17.evaluate(g, s, c["weights"])
    ensure(all((got[k].precision, got[k].recall, got[k].f1, got[k].aligned_accuracy) == (v.precision, v.recall, v.f1, v.aligned_accuracy) for k, v in again.items()), "evaluation does not change its arguments")


@check("C17", gen=gen1, n=300)
def self_evaluation(c):
    got = conll17.evaluate(load(c["gold"]), load(c["gold"]))
    content = any(w["rel"].split(":")[0] not in FUNCTIONAL for s in c["gold"] for _, w in words_of(s))
    for k, v in got.items():
        if k == "CLAS" and not content: continue
        ensure((v.precision, v.recall, v.f1) == (1, 1, 1) and v.aligned_accuracy in (None, 1), "a treebank against itself scores 1")


def gen2(rng, i):
    c = gen1(rng, i)
    chars = "".join(t["form"] for s in c["gold"] for t in s["tokens"]).replace(" ", "")
    k = rng.randrange(len(chars))
    other = rng.choice([chars[:k] + "z" + chars[k + 1:], chars + "z", chars[:-1], chars[:k] + chars[k].swapcase() + chars[k + 1:], "z" + chars])
    if not other: other = "z"
    c["system"] = gen_treebank(rng, other)
    c["differ"] = other != chars
    return c


@check("C17", gen=gen2, n=300)
def different_characters(c):
    assume(c["differ"])
    try: conll17.evaluate(load(c["gold"]), load(c["system"]))
    except conll17.UDError: return
    ensure(False, "treebanks over different characters are refused")
