"""C20: testing never shows gold annotation to the tagger."""
import os
import shutil
import tempfile
from io import StringIO
from pydv.speclib import *
from rt.core import check, stub_heavy
from specs.gen import *
from specs import conllu
stub_heavy()
from babylondigger.evaluation import conll17_ud_eval as conll17
from babylondigger.evaluation.evaluation import DataSetTaggerTester, FileTaggerTester
from babylondigger.evaluation.conllu_io import CoNLLUWriter
from babylondigger.evaluation.dataset import CoNLLUDataSet


class Tagger(object):
    """annotates from a seeded script and records what it was given"""
    def __init__(self, seed, perfect=None): self.seed, self.given = seed, []
    def tag(self, documents):
        import random
        rng = random.Random(self.seed)
        for d in documents:
            self.given.append(d)
            toks = []
            for s in d.sentences:
                hs = gen_heads(rng, len(list(s.tokens)), "tree")
                for t, h in zip(s.tokens, hs):
                    t = Token.with_morphology(t, Pos(rng.choice(["NOUN", "VERB"]), rng.choice(["x", "y"]), rng.choice([{}, {"Case": "Nom"}])), rng.choice(["a", "b"]))
                    toks.append(Token.with_syntax(t, rng.choice(["nsubj", "root"]), head_sentence_index=h))
            yield Document.from_document(d, toks)


def gen1(rng, i):
    docs = [gen_doc(rng, nmax=rng.choice([1, 3, 8]), kinds=("tree",), split_mwt=False) for _ in range(rng.choice([1, 1, 2, 3]))]
    for d in docs:
        for t in d["tokens"]:
            if t["deprel"] is None: t["deprel"] = "dep"
    return {"docs": docs, "seed": rng.randint(0, 10 ** 6)}


HIDDEN = {"pos": None, "lemma": None, "deprel": None, "has_head": False, "is_root": False, "head": None}


def hidden(gold, given):
    ensure(len(gold) == len(given), "the tagger gets every gold document once")
    for g, d in zip(gold, given):
        g, d = doc_data(g), doc_data(d)
        ensure(g["text"] == d["text"] and g["sentences"] == d["sentences"] and len(g["tokens"]) == len(d["tokens"]), "the tagger gets the text, the sentences and the tokens of the gold data")
        for a, b in zip(g["tokens"], d["tokens"]):
            for k, v in HIDDEN.items(): ensure(b[k] == v, "no %s is shown to the tagger" % k)
            for k in ("start", "end", "sub_index", "text_replacement", "text"): ensure(a[k] == b[k], "the tagger gets the %s of every token" % k)
        ensure(all(h is None for s in d["sentence_heads"] for h in s), "no head is shown to the tagger")


def load(docs):
    return conll17.load_conllu(StringIO(CoNLLUWriter().write_to_str(*docs)))


def rows(scores): return {k: (v.precision, v.recall, v.f1, v.aligned_accuracy) for k, v in scores.items()}


def usable(docs):
    """documents the scorer can read at all"""
    try:
        for d in docs: load([d])
    except conll17.UDError: assume(False)


@check("C20", gen=gen1, n=250)
def from_memory(c):
    gold = [mk_doc(d) for d in c["docs"]]
    assume(all(t.text.strip() for d in gold for t in d.tokens))
    usable(gold)
    before = [doc_data(d) for d in gold]
    tagger = Tagger(c["seed"])
    got = DataSetTaggerTester(gold).test(tagger, "x.conll")
    hidden(gold, tagger.given)
    ensure([doc_data(d) for d in gold] == before, "the gold data is not changed")
    out = list(Tagger(c["seed"]).tag(iter(tagger.given)))
    ensure(rows(got) == rows(conll17.evaluate(load(gold), load(out))), "the scores are those of the tagger's output against the gold data")
    again = DataSetTaggerTester(gold).test(Tagger(c["seed"] + 1), "y.conll")
    out2 = list(Tagger(c["seed"] + 1).tag(iter(tagger.given)))
    ensure(rows(again) == rows(conll17.evaluate(load(gold), load(out2))), "every test is independent of the tests before")


@check("C20", gen=lambda rng, i: dict(gen1(rng, i), results=rng.random() < 0.6, name=rng.choice(["r.conll", "a/b/r.conll"])), n=80)
def from_file(c):
    docs = [mk_doc(d) for d in c["docs"]]
    assume(all(t.text.strip() for d in docs for t in d.tokens))
    usable(docs)
    scratch = tempfile.mkdtemp(prefix="c20-")
    try:
        path = os.path.join(scratch, "gold.conllu")
        with open(path, "w", encoding="utf8") as f: f.write(CoNLLUWriter().write_to_str(*docs))
        gold = list(CoNLLUDataSet(path))
        with open(path, encoding="utf8") as f: raw = f.read()
        results = os.path.join(scratch, "results") if c["results"] else None
        tester = FileTaggerTester(path, results)
        for k in range(2):
            tagger = Tagger(c["seed"] + k)
            got = tester.test(tagger, c["name"])
            hidden(gold, tagger.given)
            out = list(Tagger(c["seed"] + k).tag(iter(tagger.given)))
            ensure(rows(got) == rows(conll17.evaluate(conll17.load_conllu(StringIO(raw)), load(out))), "the scores are those of the tagger's output against the file")
            if results:
                with open(os.path.join(results, c["name"]), encoding="utf8") as f:
                    ensure(f.read() == CoNLLUWriter().write_to_str(*out), "the saved results are the tagger's output")
        with open(path, encoding="utf8") as f: ensure(f.read() == raw, "the gold file is not changed")
    finally: shutil.rmtree(scratch)
