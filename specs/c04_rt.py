import copy
from pydv.speclib import *
from rt.core import check
from specs.gen import *


def gen1(rng, i):
    d = gen_doc(rng, nmax=4, kinds=("tree", "none", "wild"))
    if not d["tokens"]: d = gen_doc(rng, nmax=1, empty=0)
    new = {"pos": gen_pos(rng), "lemma": gen_lemma(rng), "deprel": rng.choice([None, "obj", "root"]), "hd": rng.choice([None, -1, 0, 3]),
           "hs": rng.choice([None, -1, 0, 2]), "extras": gen_extras(rng), "updates": rng.choice([None, {}, {"a": 1}, {"a": [3], "new": None}, {"SpaceAfter": "No"}])}
    return {"doc": d, "at": rng.randrange(max(1, len(d["tokens"]))), "new": new, "kind": rng.choice(["token", "nav", "doctoken", "sent"])}


def full(t):
    out = attrs(t)
    out["repr"] = repr(t)
    for n in ("text", "doc_text", "space_after"):
        if hasattr(t, n): out[n] = getattr(t, n)
    return out


@check("C04", gen=gen1, n=3000)
def derivation(c):
    d, new = c["doc"], c["new"]
    assume(d["tokens"] and expect(d) is not None)
    doc = mk_doc(d)
    at = min(c["at"], len(d["tokens"]) - 1)
    nav = doc.get_token(at)
    hd = nav.head_index
    s = next(j for j, b in enumerate(doc.sentences_boundaries) if b.start <= at < b.end)
    sv = doc.get_sentence(s).get_token(at - list(doc.sentences_boundaries)[s].start)
    hs = sv.head_index
    spec = dict(d["tokens"][at], hd=hd, hs=hs)
    tok = mk_token(spec)
    from babylondigger.datamodel import DocumentToken
    t = {"token": tok, "nav": nav, "doctoken": DocumentToken(doc.text, tok), "sent": sv}[c["kind"]]
    before = full(t)
    spans = {n: before[n] for n in ("doc_text", "space_after") if n in before}

    def verify(what, r, **changed):
        exp = dict(spec, **changed)
        e = mk_token(exp)
        got = full(r)
        ensure(attrs(r) == attrs(e), what + " keeps every other attribute and sets exactly the given ones")
        ensure(got["repr"] == repr(e), what + " keeps both head views")
        ensure(r == e and e == r, what + " gives an equal token")
        for n in spans: ensure(got.get(n) == spans[n], what + " keeps the document text")
        if "text" in before: ensure(got.get("text") == before["text"], what + " keeps the token text")
        ensure(full(t) == before, what + " leaves the original unchanged")
    pos, ext = mk_pos(new["pos"]), None if new["extras"] is None else TokenExtras(new["extras"])
    verify("with_morphology", t.with_morphology(t, pos, new["lemma"]), pos=new["pos"], lemma=new["lemma"])
    verify("with_morphology (keywords)", type(t).with_morphology(t, lemma=new["lemma"]), pos=None, lemma=new["lemma"])
    verify("with_syntax", t.with_syntax(t, new["deprel"], head_document_index=new["hd"], head_sentence_index=new["hs"]), deprel=new["deprel"], hd=new["hd"], hs=new["hs"])
    verify("with_syntax (one view)", t.with_syntax(t, deprel=new["deprel"], head_document_index=new["hd"]), deprel=new["deprel"], hd=new["hd"], hs=None)
    verify("with_extras", t.with_extras(t, ext), extras=new["extras"])
    upd = new["updates"]
    verify("update_extras", t.update_extras(t, copy.deepcopy(upd)), extras=dict(spec["extras"] or {}, **(upd or {})))
    verify("base class with_morphology", Token.with_morphology(t, pos, new["lemma"]), pos=new["pos"], lemma=new["lemma"]) if c["kind"] == "token" else None


@check("C04", gen=lambda rng, i: (gen_pos(rng, none=0), gen_feats(rng)), n=1000)
def pos_is_immutable(c):
    p, junk = c
    feats = None if p[2] is None else dict(p[2])
    pos = Pos(p[0], p[1], feats)
    same = Pos(p[0], p[1], None if feats is None else dict(feats))
    want, h = dict(p[2] or {}), hash(pos)
    if feats is not None:
        feats.update(junk); feats["zz"] = "q"
        for k in list(feats)[:1]: del feats[k]
        ensure(pos.feats == want and pos == same and hash(pos) == h, "mutating the dictionary passed in has no effect")
    got = pos.feats
    got.update(junk); got["zz"] = "q"; got.pop(next(iter(got)))
    ensure(pos.feats == want and pos == same and hash(pos) == h, "mutating the dictionary obtained has no effect")
    ensure(all(pos.feature(k) == want.get(k) for k in FKEYS + ["zz"]), "single features agree with the dictionary")
    ensure(pos.upos == p[0] and pos.xpos == p[1], "tags are kept")


def scramble(x):
    if isinstance(x, dict):
        for v in x.values(): scramble(v)
        x["scrambled"] = 1
    elif isinstance(x, list):
        for v in x: scramble(v)
        x.append("scrambled")


def gen_deep(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.3: return rng.choice(["x", 1, None, True])
    if r < 0.65: return [gen_deep(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice("abc"): gen_deep(rng, depth - 1) for _ in range(rng.randint(0, 3))}


@check("C04", gen=lambda rng, i: ({k: gen_deep(rng) for k in rng.sample(["a", "b", "c", "d"], rng.randint(0, 4))}, {k: gen_deep(rng) for k in rng.sample(["a", "b", "e"], rng.randint(0, 3))}), n=1500)
def extras_are_immutable(c):
    base, upd = c
    src, want = copy.deepcopy(base), copy.deepcopy(base)
    ex = TokenExtras(src)
    scramble(src)
    ensure(ex.as_dict() == want, "mutating the dictionary passed in has no effect")
    scramble(ex.as_dict())
    ensure(ex.as_dict() == want, "mutating the dictionary obtained has no effect")
    for k in want:
        scramble(ex[k])
        ensure(ex[k] == want[k] and k in ex, "mutating a value obtained has no effect")
    ensure(list(ex) == list(want) and list(ex.keys()) == list(want), "keys are those given, in order")
    ensure("zz" not in ex, "no other key")
    u = copy.deepcopy(upd)
    new = ex.update(u)
    wn = dict(want); wn.update(copy.deepcopy(upd))
    ensure(new.as_dict() == wn, "update replaces exactly the named entries")
    ensure(u == upd, "update leaves its argument alone")
    scramble(u)
    ensure(new.as_dict() == wn and ex.as_dict() == want, "mutating the updates afterwards has no effect")
    scramble(new.as_dict())
    for k in wn: scramble(new[k])
    ensure(new.as_dict() == wn and ex.as_dict() == want, "old and new extras share nothing")
    t = Token(0, 1, extras=ex)
    t2 = Token.update_extras(t, upd)
    ensure(t.extras.as_dict() == want and t2.extras.as_dict() == wn, "updating a token leaves the original alone")


@check("C04", gen=lambda rng, i: gen_doc(rng, kinds=("tree", "none"), empty=0.5), n=1500)
def documents_are_immutable(d):
    assume(expect(d) is not None)
    toks = [mk_token(t) for t in d["tokens"]]
    sents = None if d["sentences"] is None else [Sentence(a, b) for a, b in d["sentences"]]
    doc = Document(d["text"], toks, sents)
    want, r = doc_data(doc), repr(doc)
    toks.reverse(); toks.append(Token(0, 1, lemma="junk")); toks[:1] = []
    if sents is not None: sents.append(Sentence(0, 1)); sents.reverse(); sents[:1] = []
    ensure(doc_data(doc) == want and repr(doc) == r, "mutating the lists passed in has no effect")
    b = doc.sentences_boundaries
    try: b.append(Sentence(0, 1))
    except AttributeError: pass
    try: b.clear()
    except AttributeError: pass
    ensure(doc_data(doc) == want and repr(doc) == r, "mutating the sentence boundaries obtained has no effect")
    for t in doc.tokens:
        if t.pos is not None: t.pos.feats["zz"] = 1
        scramble(t.extras.as_dict())
    n = list(doc.tokens)
    if n:
        new = [t.with_morphology(t, Pos("Q"), "q") for t in n]
        Document.from_document(doc, new)
        other = Document.from_document(doc, [t.with_syntax(t) for t in n])
        ensure(all(not t.has_head for t in other.tokens), "the derived document has the derived tokens")
    ensure(doc_data(doc) == want and repr(doc) == r, "deriving a document leaves the original alone")
