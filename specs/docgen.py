"""concrete inputs of the document lemmas (run-time evaluation only)"""
from specs.gen import *


def gen_document(rng, **kw):
    d = gen_doc(rng, kinds=("tree", "tree", "none", "wild"), **kw)
    toks = [mk_token(t) for t in d["tokens"]]
    rng.shuffle(toks)
    return {"text": d["text"], "tokens": toks, "sentences": [Sentence(a, b) for a, b in d["sentences"] or []]}


def gen_place(rng):
    d = gen_document(rng)
    d["i"] = rng.randint(0, max(0, len(d["tokens"]) - 1))
    return d


def gen_sentence_place(rng):
    d = gen_document(rng)
    d["i"] = rng.randint(0, max(0, len(d["sentences"]) - 1))
    return d


def gen_any_document(rng):
    from specs.c01_rt import gen1
    d = gen1(rng, 0)
    return {"text": d["text"], "tokens": [mk_token(t) for t in d["tokens"]], "sentences": [Sentence(a, b) for a, b in d["sentences"] or []]}


def gen_sorted_parts(rng):
    d = gen_any_document(rng) if rng.random() < 0.3 else gen_document(rng)
    ts, ss = sorted(d["tokens"], key=lambda t: (t.start, t.end, t.sub_index)), sorted(d["sentences"], key=lambda s: (s.start, s.end))
    if ss and rng.random() < 0.2:
        k = rng.randrange(len(ss))
        st = max(0, ss[k].start + rng.choice((-1, 0, 1)))
        ss[k] = Sentence(st, max(st + 1, ss[k].end + rng.choice((-1, 0, 1))))
    return {"sorted_tokens": ts, "sorted_sentences": ss}


def gen_text_and_tokens(rng):
    d = gen_any_document(rng)
    del d["sentences"]
    return d


def gen_replacement(rng):
    d = gen_document(rng)
    new = list(d["tokens"])
    k = rng.random()
    if k < 0.15 and new: new.pop(rng.randrange(len(new)))
    elif k < 0.3 and new:
        j = rng.randrange(len(new))
        new[j] = Token(new[j].start, new[j].end + 1, sub_index=new[j].sub_index, text_replacement=new[j].text_replacement)
    elif k < 0.4: new = gen_document(rng)["tokens"]
    elif k < 0.5: new.append(Token(90, 95))
    elif k < 0.9: new = [Token(x.start, x.end, lemma=rng.choice(["a", "b", None]), sub_index=x.sub_index, text_replacement=x.text_replacement) for x in new]
    rng.shuffle(new)
    return dict(d, new=new)


def gen_word_place(rng):
    return dict(gen_sentence_place(rng), j=rng.choice([0, 0, 1, 1, 2, 3]))
