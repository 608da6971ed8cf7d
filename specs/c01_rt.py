from pydv.speclib import *
from rt.core import check
from specs.gen import *


def mutate(rng, d):
    toks = d["tokens"]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        if toks and r < 0.12: toks.append(dict(rng.choice(toks)))                                       # duplicate
        elif toks and r < 0.24:                                                                        # grow or shrink a span
            t = rng.choice(toks); t["end"] = max(t["start"] + 1, t["end"] + rng.choice([-2, -1, 1, 2, 5]))
        elif toks and r < 0.34:
            t = rng.choice(toks); t["start"] = min(t["end"] - 1, max(0, t["start"] + rng.choice([-2, -1, 1])))
        elif toks and r < 0.44: toks.pop(rng.randrange(len(toks)))
        elif toks and r < 0.52:
            t = rng.choice(toks)
            if t["text_replacement"] is not None: t["sub_index"] = max(0, t["sub_index"] + rng.choice([-1, 1, 2]))
        elif toks and r < 0.58:
            t = rng.choice(toks)
            if t["sub_index"] == 0: t["text_replacement"] = None if t["text_replacement"] is not None else "r"
        elif toks and r < 0.66:
            t = rng.choice(toks); t["hd"] = rng.choice([None, -1, -2, 0, 1, 2, len(toks)])
        elif toks and r < 0.74:
            t = rng.choice(toks); t["hs"] = rng.choice([None, -1, -2, 0, 1, 2, len(toks)])
        elif toks and r < 0.8:                                                                         # a token nested in a long one
            t = rng.choice(toks); toks.append({"start": 0, "end": t["end"] + rng.choice([0, 3]), "sub_index": 0, "text_replacement": rng.choice([None, "q"])})
        elif d["sentences"]:
            s = [list(x) for x in d["sentences"]]
            k = rng.random()
            i = rng.randrange(len(s))
            if k < 0.2: s.pop(i)
            elif k < 0.4: s.append(list(s[i]))
            elif k < 0.7: s[i][1] = max(s[i][0] + 1, s[i][1] + rng.choice([-1, 1, 2]))
            elif k < 0.85: s[i][0] = min(s[i][1] - 1, max(0, s[i][0] + rng.choice([-1, 1])))
            elif k < 0.95: s = [[0, len(toks)]] if toks else [[0, 1]]
            else: s = [[len(toks) + 3, len(toks) + 4]]
            d["sentences"] = [tuple(x) for x in s]
        else: d["sentences"] = rng.choice([None, [], [(0, 1)], [(0, 2)]])
    if rng.random() < 0.15: d["sentences"] = rng.choice([None, []])
    if rng.random() < 0.6:
        rng.shuffle(toks)
        if d["sentences"]: rng.shuffle(d["sentences"])
    return d


def gen1(rng, i):
    d = gen_doc(rng, kinds=("tree", "none", "tree", "wild"), empty=0.3)
    return dict(mutate(rng, d), validate=rng.random() < 0.25)


def agree(r, exp, what):
    if exp is None: ensure(r.refused(), what + ": an ill-formed document is refused with ValueError")
    else:
        ensure(r.ok, what + ": a well-formed document is accepted")
        got = doc_data(r.value)
        ensure(got["text"] == exp["text"], what + ": the text is kept")
        ensure([t["start"] for t in got["tokens"]] == [t["start"] for t in exp["tokens"]], what + ": all tokens in textual order")
        ensure(got["tokens"] == exp["tokens"], what + ": exactly the given tokens")
        ensure(got["sentences"] == exp["sentences"], what + ": the sentences in order")
        ensure(got["sentence_heads"] == exp["sentence_heads"], what + ": the tokens of the sentences")
        ensure(r.value.tokens_count == len(exp["tokens"]) and r.value.sentences_count == len(exp["sentences"]), what + ": counts")


@check("C01", gen=gen1, n=6000)
def construction(d):
    kw = {"validate_syntax": True} if d["validate"] else {}
    toks = [mk_token(t) for t in d["tokens"]]
    sents = None if d["sentences"] is None else [Sentence(a, b) for a, b in d["sentences"]]
    agree(attempt(lambda: Document(d["text"], toks, sents, **kw)), expect(d, d["validate"]), "Document")
    if sents is not None:
        agree(attempt(lambda: Document(d["text"], toks, iter(sents), **kw)), expect(d, d["validate"]), "Document from an iterable of sentences")


def gen2(rng, i):
    base = gen_doc(rng, kinds=("tree", "none"))
    import copy
    new = copy.deepcopy({"text": base["text"], "tokens": base["tokens"], "sentences": base["sentences"]})
    for t in new["tokens"]:
        if rng.random() < 0.5: t["pos"] = gen_pos(rng)
        if rng.random() < 0.5: t["lemma"] = gen_lemma(rng)
    if rng.random() < 0.6:
        s = new["sentences"]
        mutate(rng, new)
        new["sentences"] = s
    return {"base": base, "new": new["tokens"]}


@check("C01", gen=gen2, n=3000)
def from_existing(c):
    base = attempt(lambda: mk_doc(c["base"]))
    ensure(base.ok, "a generated document is accepted")
    d = {"text": c["base"]["text"], "tokens": c["new"], "sentences": [(s.start, s.end) for s in base.value.sentences_boundaries]}
    exp = expect(d)
    old, new = sorted(c["base"]["tokens"], key=key), sorted(c["new"], key=key)
    if any((a["start"], a["end"]) != (b["start"], b["end"]) for a, b in zip(old, new)): exp = None
    r = attempt(lambda: Document.from_document(base.value, [mk_token(t) for t in c["new"]]))
    agree(r, exp, "from_document")


def small_docs():
    """all documents with up to three tokens over spans inside four characters and all sentence lists of up to two sentences"""
    import itertools
    spans = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]
    shapes = [(0, None), (0, "r"), (1, "r"), (2, "r")]
    toks = [dict(start=a, end=b, sub_index=k, text_replacement=r) for a, b in spans for k, r in shapes]
    sents = [None, [], [(0, 1)], [(0, 2)], [(0, 3)], [(0, 1), (1, 2)], [(0, 1), (1, 3)], [(1, 2)], [(0, 2), (1, 2)], [(0, 1), (2, 3)], [(4, 5)]]
    for n in range(4):
        for k, ts in enumerate(itertools.combinations_with_replacement(toks, n)):
            if n == 3 and k % 5: continue
            ss = sents if n < 3 else [None, sents[k % len(sents)]]
            for s in ss: yield {"text": "abcd", "tokens": [dict(t) for t in (ts if k % 2 else ts[::-1])], "sentences": s, "validate": False}


@check("C01", cases=small_docs)
def small_scope(d):
    construction(d)


@check("C01", gen=lambda rng, i: (rng.randint(-2, 4), rng.randint(-2, 4), rng.choice([None, "", "a"]), rng.choice([0, 0, 1, 2])), n=300)
def malformed_parts(c):
    """spans and sentences that are not intervals are never accepted"""
    a, b, r, k = c
    try: t = Token(a, b, sub_index=k, text_replacement=r)
    except (AssertionError, ValueError): t = None
    ensure((t is not None) == (0 <= a < b and (r is not None or k == 0)), "a token is a non-empty span; sub-tokens have a replacement")
    try: s = Sentence(a, b)
    except (AssertionError, ValueError): s = None
    ensure((s is not None) == (0 <= a < b), "a sentence is a non-empty range of tokens")
    if s is not None: ensure((s.start, s.end, s.len) == (a, b, b - a), "a sentence keeps its range")
