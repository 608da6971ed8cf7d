import os
import tempfile
from io import StringIO
from pydv.speclib import *
from rt.core import check
from specs.conllu import *
from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter
from babylondigger.evaluation.conll17_ud_eval import load_conllu
from specs.c06_rt import ALL


def clean(rng, d):
    """make a document of the writable kind: words separated by at most one space"""
    return d


def gen_wdoc(rng, kinds=("tree",), nmax=None):
    text, toks = "", []
    n = max(1, min(size(rng, 6), 60)) if nmax is None else rng.randint(1, nmax)
    while len(toks) < n:
        st = len(text)
        text += gen_form(rng)
        if rng.random() < 0.25:
            for j in range(rng.choice([1, 2, 2, 3, 4])): toks.append({"start": st, "end": len(text), "sub_index": j, "text_replacement": gen_form(rng)})
        else: toks.append({"start": st, "end": len(text), "sub_index": 0, "text_replacement": None})
        if rng.random() < 0.7: text += " "
    if rng.random() < 0.5: text = text.rstrip(" ")
    sents = gen_cuts(rng, len(toks), split_mwt=False, toks=toks)
    for a, b in sents:
        for i, h in zip(range(a, b), gen_heads(rng, b - a, rng.choice(kinds))):
            t = toks[i]
            set_head(t, h, a, rng.choice(["doc", "sent", "both"]))
            p = gen_pos(rng)
            t["pos"] = None if p is None else (None if p[0] == "_" else p[0], None if p[1] == "_" else p[1], p[2])
            if t["pos"] is not None and rng.random() < 0.1: t["pos"] = (t["pos"][0], t["pos"][1], {"Ref": "a=b", "E": ""})
            l = gen_lemma(rng)
            t["lemma"] = None if l == "_" else l
            t["deprel"] = None if h is None or rng.random() < 0.1 else rng.choice(RELS)
    return {"text": text, "tokens": toks, "sentences": sents}


def gen1(rng, i):
    nohead = rng.random() < 0.15
    docs = [gen_wdoc(rng, kinds=("tree", "none") if nohead else ("tree",)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    cols = None if rng.random() < 0.5 and not nohead else [c for c in ALL if rng.random() < 0.6]
    if nohead: cols = [c for c in cols if c not in (HEAD, DEPREL)]
    return {"docs": docs, "columns": cols, "file": rng.random() < 0.25}


def write(w, docs, tofile):
    if not tofile: return w.write_to_str(*docs)
    fd, p = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH")); os.close(fd)
    try:
        w.write_to_file(p, *docs)
        return open(p, encoding="utf-8", newline="").read()
    finally: os.unlink(p)


def expected_tokens(d, cols):
    cols = set(cols) | ({HEAD} if DEPREL in cols else set())
    out = []
    e = expect(d)
    for t, x in zip(e["tokens"], d["tokens"]):
        p = t["pos"] or (None, None, {})
        out.append({"span": (t["start"], t["end"]), "sub": t["sub_index"], "mw": t["is_multiword"], "text": t["text"],
                    "lemma": t["lemma"] if LEMMA in cols else None, "upos": p[0] if UPOS in cols else None, "xpos": p[1] if XPOS in cols else None,
                    "feats": p[2] if FEATS in cols else {}, "root": t["is_root"] if HEAD in cols else False,
                    "deprel": t["deprel"] if DEPREL in cols else None})
    return out, [[h if HEAD in cols else None for h in s] for s in e["sentence_heads"]]


def token_obs(t, off):
    p = t.pos
    return {"span": (t.start - off, t.end - off), "sub": t.sub_index, "mw": t.is_multiword, "text": t.text, "lemma": t.lemma,
            "upos": p.upos if p else None, "xpos": p.xpos if p else None, "feats": p.feats if p else {}, "root": t.is_root, "deprel": t.deprel}


@check("C07", gen=gen1, n=2000)
def round_trip(c):
    cols = ALL if c["columns"] is None else c["columns"]
    kw = {} if c["columns"] is None else {"columns": c["columns"]}
    docs = [mk_doc(d) for d in c["docs"]]
    out = write(CoNLLUWriter(**kw), docs, c["file"])
    lines_ok(out, c["docs"])
    total = sum(len(d["sentences"]) for d in c["docs"])
    back = list(CoNLLUReader(total, **kw).read_from_str(out))
    ensure(len(back) == 1, "everything is read back")
    doc = back[0]
    ensure(doc.text.rstrip() == "".join(d["text"] if d["text"].endswith(" ") else d["text"] + " " for d in c["docs"]).rstrip(), "the text is preserved up to trailing white space")
    off = 0
    exp, heads = [], []
    offs = []
    for d in c["docs"]:
        e, h = expected_tokens(d, cols)
        exp += e; heads += h; offs += [off] * len(e)
        off += len(d["text"]) + (0 if d["text"].endswith(" ") else 1)
    got = list(doc.tokens)
    ensure(len(got) == len(exp), "every word is written once")
    for t, e, o in zip(got, exp, offs):
        g = token_obs(t, o)
        for n in e: ensure(g[n] == e[n], "write then read keeps %s" % n)
    ensure([[t.head_index for t in s.tokens] for s in doc.sentences] == heads, "write then read keeps heads")
    k, bounds = 0, []
    for d in c["docs"]:
        bounds += [(a + k, b + k) for a, b in d["sentences"]]
        k += len(d["tokens"])
    ensure([(s.start, s.end) for s in doc.sentences_boundaries] == bounds, "write then read keeps sentence boundaries")
    if len(docs) == 1:
        one = list(CoNLLUReader(len(c["docs"][0]["sentences"]), **kw).read_from_str(out))[0]
        again = CoNLLUWriter(**kw).write_to_str(one)
        ensure(again == out, "writing what was read gives the same file")
    load_conllu(StringIO(out))
    ensure(True, "the scoring loader accepts the output")


def lines_ok(out, docs):
    ensure(out == "" or out.endswith("\n\n"), "the output ends with an empty line")
    blocks = [b.split("\n") for b in out.split("\n\n")[:-1]]
    specs = [d["tokens"][a:b] for d in docs for a, b in d["sentences"]]
    ensure(len(blocks) == len(specs), "one block per sentence")
    for b, toks in zip(blocks, specs):
        rows = [l.split("\t") for l in b]
        ensure(all(len(r) == 10 for r in rows), "ten columns")
        ids = [r[ID] for r in rows if "-" not in r[ID]]
        ensure(ids == [str(k + 1) for k in range(len(toks))], "ids restart at 1 and count every word once")
        ranges = []
        for k, r in enumerate(rows):
            if "-" in r[ID]:
                x, y = map(int, r[ID].split("-"))
                ensure(rows[k + 1][ID] == str(x), "a range line precedes its first word")
                ranges.append((x, y))
        exp, k = [], 0
        while k < len(toks):
            if toks[k]["text_replacement"] is None: k += 1; continue
            m = k + 1
            while m < len(toks) and (toks[m]["start"], toks[m]["end"]) == (toks[k]["start"], toks[k]["end"]): m += 1
            exp.append((k + 1, m)); k = m
        ensure(ranges == exp, "each multiword range line covers exactly its words")


@check("C07", gen=lambda rng, i: gen_file(rng, kinds=("tree",), extra=False), n=1000)
def read_write_read(sents):
    """what was read is written so that reading it again gives the same documents"""
    assume(sents)
    docs = list(CoNLLUReader(3).read_from_str(render(sents)))
    w = CoNLLUWriter()
    for d in docs:
        back = list(CoNLLUReader(50 if d.sentences_count < 50 else d.sentences_count).read_from_str(w.write_to_str(d)))
        ensure(len(back) == 1, "one document")
        a, b = doc_data(d), doc_data(back[0])
        ensure(a["text"].rstrip() == b["text"].rstrip() and a["tokens"] == b["tokens"] and a["sentences"] == b["sentences"] and a["sentence_heads"] == b["sentence_heads"],
               "reading, writing and reading again gives the same document")
    ensure(w.write_to_str(*docs) == "".join(w.write_to_str(d) for d in docs), "documents are written one after another")
