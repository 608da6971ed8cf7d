from pydv.speclib import *
from rt.core import check
from specs.gen import *

KINDS = ("tree", "none", "near", "cycle", "functional", "wild", "cycle", "near")


def plain(heads_per_sentence, view, off_text=1):
    toks, sents, k = [], [], 0
    for hs in heads_per_sentence:
        a = k
        for h in hs:
            t = {"start": k, "end": k + 1}
            set_head(t, h, a, view)
            toks.append(t); k += 1
        sents.append((a, k))
    return {"text": "x" * k, "tokens": toks, "sentences": sents}


def gen1(rng, i):
    from rt.core import size
    hs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = max(1, size(rng, 7))
        hs.append(gen_heads(rng, n, rng.choice(KINDS)))
    if rng.random() < 0.5: hs[:-1] = [gen_heads(rng, len(h), "tree") for h in hs[:-1]]
    if rng.random() < 0.3: hs[1:] = [gen_heads(rng, len(h), "tree") for h in hs[1:]]
    return (hs, rng.choice(["doc", "sent", "both"]))


@check("C03", gen=gen1, n=6000)
def validation(c):
    hs, view = c
    d = plain(hs, view)
    r = attempt(lambda: mk_doc(d, validate_syntax=True))
    if expect(d, True) is None: ensure(r.refused(), "head assignments that are not single-rooted trees are refused with ValueError")
    else: ensure(r.ok, "single-rooted trees and sentences without heads are accepted")


def all_small():
    """every head assignment of sentences with up to 4 tokens (and every one with 5 tokens and heads inside), alone and after another sentence"""
    import itertools
    for n in range(1, 5):
        for h in itertools.product([None] + list(range(-2, n + 1)), repeat=n):
            yield ([list(h)], "sent")
    for n in (1, 2, 3):
        for h in itertools.product([None] + list(range(-2, n + 1)), repeat=n):
            yield ([[-1, 0], list(h)], "doc")
            yield ([list(h), [1, -1]], "both")
    for h in itertools.product(range(-1, 5), repeat=5):
        if h.count(-1) == 1: yield ([list(h)], "sent")


@check("C03", cases=all_small)
def all_head_assignments(c):
    validation(c)


@check("C03", gen=lambda rng, i: gen_doc(rng, kinds=("tree",) if rng.random() < 0.5 else KINDS), n=1500)
def validation_of_documents(d):
    r = attempt(lambda: mk_doc(d, validate_syntax=True))
    if expect(d, True) is None: ensure(r.refused(), "documents with broken trees are refused")
    else: ensure(r.ok, "documents with trees are accepted")
    ensure(attempt(lambda: mk_doc(d)).ok == (expect(d) is not None), "without validation, trees are not required")
