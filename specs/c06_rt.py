import os
import tempfile
from pydv.speclib import *
from rt.core import check
from specs.conllu import *
from babylondigger.evaluation.conllu_io import CoNLLUReader

ALL = [LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL]


def gen1(rng, i):
    f = gen_file(rng, kinds=("tree", "tree", "tree", "none"))
    cols = None if rng.random() < 0.5 else [c for c in ALL if rng.random() < 0.5]
    if rng.random() < 0.5: lim = rng.choice([1, 1, 2, 3, 50])
    else: lim = rng.choice([max(1, len(f)), max(1, len(f) - 1), len(f) + 1, max(1, len(f) // 2)])
    return {"sents": f, "limit": lim, "columns": cols, "eol": "\n" if rng.random() < 0.8 else "\r\n", "file": rng.random() < 0.3}


def compare(got, exp):
    ensure(len(got) == len(exp), "one document per configured number of sentences")
    for g, e in zip(got, exp):
        d = doc_data(g)
        ensure(d["text"] == e["text"], "the text is the concatenation of the surface forms and spaces")
        ensure(len(d["tokens"]) == len(e["tokens"]), "one token per word")
        for a, b in zip(d["tokens"], e["tokens"]):
            for n in b: ensure(a[n] == b[n], "token attribute %s is that of the file" % n)
        ensure(d["sentences"] == e["sentences"], "sentences are those of the file")
        ensure(d["sentence_heads"] == e["sentence_heads"], "heads in the sentence view are those of the file")


@check("C06", gen=gen1, n=2500)
def reading(c):
    text = render(c["sents"], c["eol"])
    kw = {} if c["columns"] is None else {"columns": c["columns"]}
    exp = expected(c["sents"], c["limit"], [LEMMA, UPOS, XPOS, FEATS, DEPREL] if c["columns"] is None else c["columns"])
    reader = CoNLLUReader(c["limit"], **kw)
    if c["file"]:
        fd, p = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH"))
        with os.fdopen(fd, "w", encoding="utf-8", newline="") as f: f.write(text)
        try:
            got = list(reader.read_from_file(p))
            compare(got, exp)
            compare(list(reader.read_from_file(p)), exp)
        finally: os.unlink(p)
    else:
        compare(list(reader.read_from_str(text)), exp)
        compare(list(reader.read_from_str(text)), exp)


@check("C06", gen=lambda rng, i: gen_file(rng, nsent=rng.choice([1, 2, 3]), kinds=("near", "cycle", "tree", "functional", "wild")), n=1000)
def trees_are_validated(sents):
    hs = [[e for x in s if x[0] != "comment" for e in (x[2] if x[0] == "mwt" else [x]) if e[0] == "word"] for s in sents]
    heads = [[None if w[1][HEAD] == "_" else int(w[1][HEAD]) - 1 for w in s] for s in hs]
    ok = all(valid_tree([(h, h == -1) for h in s]) for s in heads)
    r = attempt(lambda: list(CoNLLUReader(50).read_from_str(render(sents))))
    if ok:
        ensure(r.ok, "valid trees are read")
        compare(r.value, expected(sents, 50, ALL))
    else: ensure(r.refused(), "a file with a broken tree is refused with ValueError")


def many(n):
    return [[("word", [str(1), "w%d" % k, "l", "A", "_", "_", "0", "root", "_", "_"])] for k in range(n)]


@check("C06", cases=lambda: [(n, l) for l in (1, 2, 3, 10, 49, 50, 51, 100) for n in (0, 1, l - 1, l, l + 1, 2 * l, 2 * l + 1, 101)])
def cutting(c):
    n, lim = c
    s = many(max(0, n))
    compare(list(CoNLLUReader(lim).read_from_str(render(s))), expected(s, lim, ALL))
    if lim == 50: compare(list(CoNLLUReader().read_from_str(render(s))), expected(s, 50, ALL))
