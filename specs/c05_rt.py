from pydv.speclib import *
from rt.core import check
from specs.gen import *


def gen1(rng, i):
    d = gen_doc(rng, kinds=("tree", "tree", "none", "wild"))
    if rng.random() < 0.1 and d["tokens"] and d["tokens"][-1]["text_replacement"] is None:   # the last token reaches the end of the text
        d["text"] = d["text"][:d["tokens"][-1]["end"]]
    return d


def same(a, b):
    return attrs(a) == attrs(b) and a == b and a.head_index == b.head_index and a.text == b.text and a.is_first == b.is_first and a.is_last == b.is_last


def walk(first):
    out, x = [], first
    while x is not None and len(out) < 2000:
        out.append(x)
        x = x.next
    return out


def container(c, specs, heads, roots, text, what):
    n = len(specs)
    toks = list(c.tokens)
    ensure(len(toks) == n and c.tokens_count == n, what + ": iteration enumerates all tokens")
    ensure(c.document_text == text, what + ": document text")
    for i, t in enumerate(toks):
        e = spec_attrs(specs[i])
        ensure(attrs(t) == e, what + ": tokens in order")
        for u in (c.get_token(i), c[i]) + ((c.get_token(i - n), c[i - n]) if i % 3 == 0 else ()): ensure(same(t, u), what + ": indexed access agrees with iteration")
        ensure(t.is_first == (i == 0), what + ": is_first")
        ensure(t.is_last == (i == n - 1), what + ": is_last")
        nx, pv = t.next, t.previous
        ensure((nx is None) == (i == n - 1), what + ": next exists except at the end")
        ensure((pv is None) == (i == 0), what + ": previous exists except at the start")
        if nx is not None: ensure(same(nx, toks[i + 1]), what + ": next is the following token")
        if pv is not None: ensure(same(pv, toks[i - 1]), what + ": previous is the preceding token")
        ensure(t.head_index == heads[i], what + ": head index")
        if roots[i]: ensure(t.head is None, what + ": the root has no head")
        elif heads[i] is not None and 0 <= heads[i] < n: ensure(same(t.head, toks[heads[i]]), what + ": the head is the token at the head position")
        cov = text[e["start"]:e["end"]]
        ensure(t.doc_text == cov, what + ": covered text")
        ensure(t.text == (cov if e["text_replacement"] is None else e["text_replacement"]), what + ": token text")
        ensure(bool(t.space_after) == (e["end"] == len(text) or (e["end"] < len(text) and text[e["end"]].isspace())), what + ": space after")
    if toks:
        ensure([attrs(t) for t in walk(toks[0])] == [attrs(t) for t in toks], what + ": following next from the first token visits all")
        back, x = [], toks[-1]
        while x is not None and len(back) <= n: back.append(attrs(x)); x = x.previous
        ensure(back[::-1] == [attrs(t) for t in toks], what + ": following previous from the last token visits all")
    for bad in (n, n + 1, -n - 1):
        try: c.get_token(bad)
        except IndexError: pass
        else: ensure(False, what + ": positions outside are refused")


@check("C05", gen=gen1, n=2500)
def views(d):
    exp = expect(d)
    assume(exp is not None)
    doc = mk_doc(d)
    text = d["text"]
    ensure(doc.text == text and doc.document_text == text, "document text")
    roots = [t["is_root"] for t in exp["tokens"]]
    container(doc, d["tokens"], [t["head"] for t in exp["tokens"]], roots, text, "document")
    sents = list(doc.sentences)
    m = len(exp["sentences"])
    ensure(len(sents) == m and doc.sentences_count == m, "iteration enumerates all sentences")
    for j, (a, b) in enumerate(exp["sentences"]):
        for s in (sents[j], doc.get_sentence(j), doc.get_sentence(j - m)) if j % 2 == 0 else (sents[j],):
            container(s, d["tokens"][a:b], exp["sentence_heads"][j], roots[a:b], text, "sentence")
            ensure(s.text == text[d["tokens"][a]["start"]:d["tokens"][b - 1]["end"]], "the text of a sentence is the document text from its first to its last token")
            ensure(s.is_first == (j == 0) and s.is_last == (j == m - 1), "first and last sentence")
            nx, pv = s.next, s.previous
            ensure((nx is None) == (j == m - 1) and (pv is None) == (j == 0), "sentence neighbours exist except at the ends")
            if nx is not None: ensure([attrs(t) for t in nx.tokens] == [attrs(t) for t in sents[j + 1].tokens] and nx.text == sents[j + 1].text, "next sentence")
            if pv is not None: ensure([attrs(t) for t in pv.tokens] == [attrs(t) for t in sents[j - 1].tokens] and pv.text == sents[j - 1].text, "previous sentence")
    for bad in (m, m + 1, -m - 1):
        try: doc.get_sentence(bad)
        except IndexError: pass
        else: ensure(False, "sentence positions outside are refused")
    str(doc); repr(doc)
