"""Generators of documents (as plain data) and small builders, shared by the run-time contracts."""
from babylondigger.datamodel import Document, Token, Sentence, Pos, TokenExtras
from rt.core import gen_str, size, lits

TAGS = ["NOUN", "VERB", "ADJ", "PUNCT", "AUX", "X", "_", "a", "b"]
RELS = ["root", "nsubj", "obj", "nmod:poss", "aux:pass", "punct", "det", "_x", "a=b", "mark"]
FKEYS = ["Case", "Number", "Gender", "Tense", "A", "case", "Ax", "B[psor]"]
FVALS = ["Nom", "Acc", "Sing", "Plur", "1", "x", "Nom,Acc", "y"]
SPACES = [" ", " ", " ", " ", "\t", "\n", "\u00a0", "  ", "\u2003"]


def gen_feats(rng, extra=()):
    n = rng.choice([0, 0, 1, 1, 2, 3, 4])
    ks = rng.sample(FKEYS, n)
    return {k: rng.choice(FVALS + list(extra)) for k in ks}


def gen_pos(rng, none=0.15, tag_none=0.1, extra=()):
    if rng.random() < none: return None
    tags = TAGS + list(extra)
    return (None if rng.random() < tag_none else rng.choice(tags), None if rng.random() < 0.35 else rng.choice(tags),
            None if rng.random() < 0.2 else gen_feats(rng, extra))


def mk_pos(p):
    return None if p is None else Pos(p[0], p[1], None if p[2] is None else dict(p[2]))


def gen_lemma(rng, none=0.15):
    return None if rng.random() < none else gen_str(rng, nonempty=True)


def gen_extras(rng):
    r = rng.random()
    if r < 0.5: return None
    return {rng.choice(["a", "b", "SpaceAfter", 1]): rng.choice(["x", [1, 2], {"z": [0]}, None, True, "No"]) for _ in range(rng.randint(0, 3))}


TOK_FIELDS = ("start", "end", "pos", "lemma", "deprel", "sub_index", "text_replacement", "hd", "hs", "extras")


def mk_token(t):
    kw = {}
    if t.get("hd") is not None: kw["head_document_index"] = t["hd"]
    if t.get("hs") is not None: kw["head_sentence_index"] = t["hs"]
    if t.get("extras") is not None: kw["extras"] = TokenExtras(t["extras"])
    return Token(t["start"], t["end"], pos=mk_pos(t.get("pos")), lemma=t.get("lemma"), deprel=t.get("deprel"),
                 sub_index=t.get("sub_index", 0), text_replacement=t.get("text_replacement"), **kw)


def mk_doc(d, **kw):
    return Document(d["text"], [mk_token(t) for t in d["tokens"]], None if d["sentences"] is None else [Sentence(a, b) for a, b in d["sentences"]], **kw)


def gen_heads(rng, n, kind):
    """sentence-view heads of a sentence with n tokens"""
    if kind == "none": return [None] * n
    if kind == "tree":
        shape = rng.random()
        order = list(range(n))
        if shape < 0.6: rng.shuffle(order)
        elif shape < 0.7: order.reverse()
        heads = [None] * n
        heads[order[0]] = -1
        for k in range(1, n):
            heads[order[k]] = order[k - 1] if shape > 0.5 and rng.random() < 0.8 else order[rng.randrange(k)]
        return heads
    if kind == "wild": return [rng.choice([None, -1, -2, n, n + 1] + list(range(n))) for _ in range(n)]
    if kind == "near":            # a tree with one change
        h = gen_heads(rng, n, "tree")
        i = rng.randrange(n)
        h[i] = rng.choice([None, -1, -2, n, n - 1, 0, i] + list(range(n)))
        return h
    if kind == "functional":      # every head inside the sentence, one root: trees or cycles
        h = [rng.randrange(n) for _ in range(n)]
        h[rng.randrange(n)] = -1
        return h
    if kind == "cycle":           # a tree plus one long cycle
        h = gen_heads(rng, n, "tree")
        k = rng.randint(1, n)
        cyc = rng.sample(range(n), k)
        if rng.random() < 0.5: cyc.sort(reverse=rng.random() < 0.5)
        for a, b in zip(cyc, cyc[1:] + cyc[:1]): h[a] = b
        return h
    raise AssertionError(kind)


def gen_words(rng, nmax=None, mwt=0.2, spaces=True, empty=0.05):
    """text and token spans with multiword tokens"""
    text, toks = "", []
    n = size(rng, 6) if nmax is None else rng.randint(0, nmax)
    if n == 0 and rng.random() > empty: n = 1
    if rng.random() < 0.15: text += rng.choice(SPACES)
    while len(toks) < n:
        w = gen_str(rng, nonempty=True, small=4)
        st = len(text)
        text += w
        if rng.random() < mwt:
            k = rng.choice([1, 2, 2, 3, 4])
            for j in range(k): toks.append({"start": st, "end": len(text), "sub_index": j, "text_replacement": gen_str(rng, nonempty=rng.random() < 0.95, small=3)})
        else: toks.append({"start": st, "end": len(text), "sub_index": 0, "text_replacement": None})
        r = rng.random()
        if r < 0.65: text += rng.choice(SPACES) if spaces else ""
        elif r < 0.7: text += rng.choice(["--", "x", " y "])         # text outside of tokens
    if rng.random() < 0.2: text += rng.choice([" ", "tail", "\n"])
    return text, toks


def gen_cuts(rng, n, split_mwt=True, toks=None):
    cuts = [0]
    while cuts[-1] < n:
        c = min(n, cuts[-1] + rng.choice([1, 1, 2, 3, 4, 7, n]))
        if not split_mwt and toks is not None:
            while c < n and toks[c]["sub_index"] > 0: c += 1
        cuts.append(c)
    return list(zip(cuts, cuts[1:]))


def gen_doc(rng, nmax=None, kinds=("tree",), mwt=0.2, views=("doc", "sent", "both"), split_mwt=True, spaces=True, annotate=True, empty=0.05):
    text, toks = gen_words(rng, nmax, mwt, spaces, empty)
    sents = gen_cuts(rng, len(toks), split_mwt, toks)
    for a, b in sents:
        hs = gen_heads(rng, b - a, rng.choice(kinds))
        for i, h in zip(range(a, b), hs):
            t = toks[i]
            set_head(t, h, a, rng.choice(views))
            t["extras"] = gen_extras(rng) if annotate else None
            t["pos"] = gen_pos(rng) if annotate else None
            t["lemma"] = gen_lemma(rng) if annotate else None
            t["deprel"] = None if not annotate or rng.random() < 0.2 else rng.choice(RELS)
    return {"text": text, "tokens": toks, "sentences": sents if sents else rng.choice([None, []])}


def set_head(t, h, start, view):
    t["hd"] = t["hs"] = None
    if h is None: return
    hd = -1 if h == -1 else h + start
    if view in ("doc", "both"): t["hd"] = hd
    if view in ("sent", "both"): t["hs"] = h


def pos_data(p):
    return None if p is None else (p.upos, p.xpos, p.feats)


def attrs(t):
    """every public attribute of a token that does not depend on its container"""
    return {"start": t.start, "end": t.end, "pos": pos_data(t.pos), "lemma": t.lemma, "deprel": t.deprel, "sub_index": t.sub_index,
            "text_replacement": t.text_replacement, "has_head": t.has_head, "is_root": t.is_root, "is_multiword": t.is_multiword,
            "extras": t.extras.as_dict()}


def spec_pos(p):
    return None if p is None else (p[0], p[1], dict(p[2]) if p[2] is not None else {})


def is_root(t):
    hd, hs = t.get("hd"), t.get("hs")
    return (hd is not None or hs is not None) and hd in (None, -1) and hs in (None, -1)


def spec_attrs(t):
    return {"start": t["start"], "end": t["end"], "pos": spec_pos(t.get("pos")), "lemma": t.get("lemma"), "deprel": t.get("deprel"),
            "sub_index": t.get("sub_index", 0), "text_replacement": t.get("text_replacement"),
            "has_head": t.get("hd") is not None or t.get("hs") is not None, "is_root": is_root(t),
            "is_multiword": t.get("text_replacement") is not None, "extras": t.get("extras") or {}}


def doc_data(doc):
    """observable content of a document"""
    toks = [dict(attrs(t), head=t.head_index, text=t.text) for t in doc.tokens]
    sents = [(s.start, s.end) for s in doc.sentences_boundaries]
    shead = [[t.head_index for t in s.tokens] for s in doc.sentences]
    return {"text": doc.text, "tokens": toks, "sentences": sents, "sentence_heads": shead}


# ---------------------------------------------------------------- oracle of document validity (C01-C03)

def key(t): return (t["start"], t["end"], t.get("sub_index", 0))


def expect(d, validate=False):
    """None if the document must be refused, otherwise the expected content"""
    toks, n = sorted(d["tokens"], key=key), len(d["tokens"])
    for i in range(n):
        for j in range(i + 1, n):
            a, b = toks[i], toks[j]
            if a["start"] < b["end"] and b["start"] < a["end"]:
                if (a["start"], a["end"]) != (b["start"], b["end"]): return None
                if a.get("sub_index", 0) == b.get("sub_index", 0): return None
    groups = {}
    for t in toks: groups.setdefault((t["start"], t["end"]), []).append(t)
    for g in groups.values():
        if sorted(t.get("sub_index", 0) for t in g) != list(range(len(g))): return None
        if len(g) > 1 and any(t.get("text_replacement") is None for t in g): return None
    sents = d["sentences"]
    if sents is None: sents = [(0, n)] if n else []
    sents = sorted(sents)
    covered = [i for a, b in sents for i in range(a, b)]
    if covered != list(range(n)): return None
    out_t, out_h = [], []
    for a, b in sents:
        hs = []
        for t in toks[a:b]:
            hd, h = t.get("hd"), t.get("hs")
            if hd is None and h is None: pass
            elif is_root(t): hd = h = -1
            elif hd is None: hd = h + a
            elif h is None: h = hd - a
            elif hd != h + a: return None
            e = spec_attrs(t)
            out_t.append(dict(e, head=hd, text=t["text_replacement"] if t.get("text_replacement") is not None else d["text"][t["start"]:t["end"]]))
            hs.append((h, e["is_root"]))
        out_h.append(hs)
        if validate and not valid_tree(hs): return None
    return {"text": d["text"], "tokens": out_t, "sentences": sents, "sentence_heads": [[h for h, _ in s] for s in out_h]}


def valid_tree(hs):
    n = len(hs)
    if all(h is None for h, _ in hs): return True
    if any(h is None for h, _ in hs): return False
    roots = [i for i, (h, r) in enumerate(hs) if r]
    if len(roots) != 1: return False
    for h, r in hs:
        if not r and not 0 <= h < n: return False
    reached, grown = {roots[0]}, True
    while grown:
        new = {i for i, (h, r) in enumerate(hs) if not r and h in reached} - reached
        grown = bool(new)
        reached |= new
    return len(reached) == n
