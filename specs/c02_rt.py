from pydv.speclib import *
from rt.core import check
from specs.gen import *


def gen1(rng, i):
    d = gen_doc(rng, kinds=("tree", "none", "wild", "near"))
    toks, n = d["tokens"], len(d["tokens"])
    for a, b in d["sentences"] or []:
        for j in range(a, b):
            t = toks[j]
            r = rng.random()
            if r < 0.15: t["hd"], t["hs"] = rng.choice([-1, -2, a - 1, a, b - 1, b, 0]), None
            elif r < 0.3: t["hd"], t["hs"] = None, rng.choice([-1, -2, -a, -a - 1, 0, b - a])
            elif r < 0.4: t["hd"], t["hs"] = rng.choice([-1, a - 1, a, 0]), rng.choice([-1, -a - 1, 0, -2])
            elif r < 0.5:
                h = rng.randint(-2, b - a)
                t["hd"], t["hs"] = h + a, h
    return d


@check("C02", gen=gen1, n=5000)
def head_views(d):
    exp = expect(d)
    r = attempt(lambda: mk_doc(d))
    if exp is None:
        ensure(r.refused(), "two given views that disagree are refused with ValueError")
        return
    ensure(r.ok, "consistent or single head views are accepted")
    doc = r.value
    starts = [s.start for s in doc.sentences_boundaries for _ in range(s.len)]
    dv = [t for t in doc.tokens]
    sv = [t for s in doc.sentences for t in s.tokens]
    for k, t in enumerate(d["tokens"]):
        a, b, st = dv[k], sv[k], starts[k]
        hd, hs = t.get("hd"), t.get("hs")
        if hd is None and hs is None:
            ensure(not a.has_head and not b.has_head and a.head_index is None and b.head_index is None, "no head stays no head")
            ensure(not a.is_root and not b.is_root, "a token without head is not the root")
        elif is_root(t):
            ensure(a.is_root and b.is_root, "the root stays the root")
            ensure(a.head_index == -1 and b.head_index == -1, "the root has head -1 in both views")
        else:
            ensure(not a.is_root and not b.is_root and a.has_head and b.has_head, "a head position is never turned into the root")
            ensure(a.head_index == b.head_index + st, "document index = sentence index + start of the sentence")
            if hd is not None: ensure(a.head_index == hd, "a given document head is not changed")
            if hs is not None: ensure(b.head_index == hs, "a given sentence head is not changed")
        ensure(a.deprel == t.get("deprel") and b.deprel == t.get("deprel"), "the relation is kept")


@check("C02", gen=lambda rng, i: gen_doc(rng, kinds=("tree", "none", "wild")), n=1500)
def rebuilding_is_idempotent(d):
    r = attempt(lambda: mk_doc(d))
    assume(r.ok)
    again = Document.from_document(r.value, list(r.value.tokens))
    ensure(doc_data(again) == doc_data(r.value), "a document rebuilt from its own tokens has the same heads")


@check("C02", gen=lambda rng, i: (rng.choice([None, -2, -1, 0, 1, 2, 3, 7]), rng.choice([None, -3, -2, -1, 0, 1, 4]), rng.randint(0, 4)), n=400)
def completion_of_one_token(c):
    hd, hs, start = c
    d = {"text": "x" * (start + 2), "tokens": [dict(start=j, end=j + 1) for j in range(start + 2)], "sentences": [(0, start)] * (start > 0) + [(start, start + 2)]}
    d["tokens"][start].update(hd=hd, hs=hs)
    head_views(d)
    t = mk_token(dict(start=0, end=1, hd=hd, hs=hs))
    ensure(t.has_head == (hd is not None or hs is not None), "a token has a head exactly when one view is given")
    r = attempt(lambda: Token.fill_heads(t, start))
    exp = expect(d)
    if exp is None: ensure(r.refused(), "disagreeing views are refused")
    else: ensure(r.ok and r.value.has_head == t.has_head, "filling keeps whether there is a head")
