"""C16: annotators keep text, tokens and sentences."""
import copy
import os
import pickle
import shutil
import tempfile
from pydv.speclib import *
from rt.core import check, stub_heavy, gen_str
from specs.gen import *
stub_heavy()
from babylondigger.tagger import StubTagger, StubTaggerTrainer
from babylondigger.parser import StubParser
from babylondigger.processor import DocumentComplexProcessor, DocumentProcessorInteface
from babylondigger.wrappers.udpipe1_2 import UDPipeTagger, UDPipeParser, UDPipeTaggerParser
from babylondigger.neural.tagger import neural_tagger
from babylondigger.neural.tagger.neural_tagger import NeuralTagger

FRAME = ("start", "end", "sub_index", "text_replacement", "is_multiword", "extras", "text")
MORPH, SYN = ("pos", "lemma"), ("deprel", "has_head", "is_root", "head")


def gen_docs(rng, kinds=("tree", "tree", "none", "functional")):
    return [gen_doc(rng, nmax=rng.choice([0, 1, 3, 8, 14]), kinds=kinds) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]


def norm(d):
    """an empty value and an absent value are the same annotation in the UD formats"""
    d = copy.deepcopy(d)
    for t in d["tokens"]:
        if t["pos"] is not None:
            p = tuple(x or None for x in t["pos"][:2]) + (t["pos"][2] or {},)
            t["pos"] = None if p == (None, None, {}) else p
        t["lemma"] = t["lemma"] or None
        t["deprel"] = t["deprel"] or None
    return d


def frame(before, after, fields):
    ensure(before["text"] == after["text"], "the text is kept")
    ensure(before["sentences"] == after["sentences"], "the sentence boundaries are kept")
    ensure(len(before["tokens"]) == len(after["tokens"]), "the number of tokens is kept")
    for a, b in zip(before["tokens"], after["tokens"]):
        for f in fields: ensure(a[f] == b[f], "the %s of every token is kept" % f)


def same_inputs(docs, before):
    ensure([doc_data(d) for d in docs] == before, "the documents given are not changed")


@check("C16", gen=lambda rng, i: {"docs": gen_docs(rng, ("tree", "none", "wild", "near")), "pos": gen_pos(rng)}, n=250)
def stub_tagger(c):
    docs = [mk_doc(d) for d in c["docs"]]
    before = [doc_data(d) for d in docs]
    for name in ("tag", "process"):
        tagger = StubTagger(mk_pos(c["pos"]))
        out = list(getattr(tagger, name)(iter(docs)))
        ensure(len(out) == len(docs), "one document per input")
        for b, o in zip(before, out):
            a = doc_data(o)
            frame(b, a, FRAME + SYN)
            ensure(a["sentence_heads"] == b["sentence_heads"], "the tagger keeps the heads")
            for t in a["tokens"]: ensure(t["pos"] == spec_pos(c["pos"]) and t["lemma"] == t["text"], "every token gets the constant tag and its text as lemma")
    same_inputs(docs, before)


@check("C16", gen=lambda rng, i: {"docs": gen_docs(rng, ("tree", "none", "wild", "near")), "rel": rng.choice([None, "dep", "x:y"])}, n=250)
def stub_parser(c):
    docs = [mk_doc(d) for d in c["docs"]]
    before = [doc_data(d) for d in docs]
    for name in ("parse", "process"):
        out = list(getattr(StubParser(c["rel"]), name)(iter(docs)))
        ensure(len(out) == len(docs), "one document per input")
        for b, o in zip(before, out):
            a = doc_data(o)
            frame(b, a, FRAME + MORPH)
            ensure(all(t["deprel"] == c["rel"] for t in a["tokens"]), "every token gets the relation")
            ensure(a["sentence_heads"] == [list(range(-1, y - x - 1)) for x, y in a["sentences"]], "every sentence is a chain from its first token")
    same_inputs(docs, before)


@check("C16", gen=lambda rng, i: gen_docs(rng), n=100)
def stub_trainer(ds):
    docs = [mk_doc(d) for d in ds]
    poss = [t.pos for d in docs for t in d.tokens]
    assume(bool(poss))
    taggers = StubTaggerTrainer().train(docs)
    ensure(len(taggers) == 1, "one tagger is trained")
    out = list(taggers[0].tag(iter(docs)))
    ensure(len(out) == len(docs), "one document per input")
    for d in out:
        for t in d.tokens: ensure(poss.count(t.pos) == max(poss.count(p) for p in poss), "the constant tag is a most frequent one")


# ---------------------------------------------------------------- pipelines

class Stage(DocumentProcessorInteface):
    def __init__(self, name, log): self.name, self.log = name, log
    def process(self, documents):
        for d in documents:
            self.log.append((self.name, d.text))
            toks = [Token.with_morphology(t, t.pos, (t.lemma or "") + self.name) for t in d.tokens]
            yield Document.from_document(d, toks)
    def __enter__(self): self.log.append(("enter", self.name)); return self
    def __exit__(self, *a): self.log.append(("exit", self.name))


@check("C16", gen=lambda rng, i: {"docs": gen_docs(rng), "stages": [rng.choice("abcd") for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))], "nested": rng.random() < 0.3}, n=200)
def pipeline(c):
    docs = [mk_doc(d) for d in c["docs"]]
    log = []
    stages = [Stage(s, log) for s in c["stages"]]
    procs = [DocumentComplexProcessor(stages[:2])] + stages[2:] if c["nested"] else stages
    before = [doc_data(d) for d in docs]
    with DocumentComplexProcessor(procs) as p:
        ensure([x for x in log if x[0] == "enter"] == [("enter", s) for s in c["stages"]], "every stage is entered once")
        for _ in range(2):
            out = list(p.process(iter(docs)))
            ensure(len(out) == len(docs), "one document per input")
            for b, o in zip(before, out):
                a = doc_data(o)
                frame(b, a, FRAME + SYN + ("pos",))
                for x, y in zip(b["tokens"], a["tokens"]):
                    ensure(y["lemma"] == ((x["lemma"] or "") + "".join(c["stages"]) if c["stages"] else x["lemma"]), "the stages are applied in the order given, each once")
        ensure(not any(x[0] == "exit" for x in log), "no stage is left before the end")
    ensure(sorted(x[1] for x in log if x[0] == "exit") == sorted(c["stages"]), "every stage is left once")
    same_inputs(docs, before)


# ---------------------------------------------------------------- UDPipe

def gen_ud(rng, i):
    docs = gen_docs(rng)
    pred = []
    for d in docs:
        for a, b in (d["sentences"] or []):
            hs = gen_heads(rng, b - a, rng.choice(["tree", "functional", "wild1"][:2]))
            pred.append([{"lemma": rng.choice([None, gen_str(rng, nonempty=True)]), "pos": gen_pos(rng), "head": h if h is not None and rng.random() < 0.95 else None,
                          "deprel": rng.choice([None] + RELS)} for h in hs])
    return {"docs": docs, "pred": pred, "kind": rng.choice(["tag", "parse", "both"]), "options": rng.choice(["", "x=y"])}


class FakeUd(object):
    def __init__(self, pred, options): self.pred, self.options, self.seen, self.k = pred, options, [], {"tag": 0, "parse": 0}

    def step(self, kind, sent, options):
        ensure(options == self.options, "the options are passed on")
        p = self.pred[self.k[kind]]
        self.k[kind] += 1
        words = [sent.words[j] for j in range(1, len(sent.words))]
        ensure(len(words) == len(p), "the model sees the tokens of one sentence")
        self.seen.append([w.form for w in words])
        for w, x in zip(words, p):
            if kind == "tag":
                w.lemma = x["lemma"] or ""
                w.upostag = (x["pos"] and x["pos"][0]) or ""
                w.xpostag = (x["pos"] and x["pos"][1]) or ""
                w.feats = "|".join("%s=%s" % kv for kv in sorted((x["pos"][2] or {}).items())) if x["pos"] else ""
            else:
                w.head = -1 if x["head"] is None else x["head"] + 1
                w.deprel = x["deprel"] or ""

    def tag(self, sent, options): self.step("tag", sent, options)
    def parse(self, sent, options): self.step("parse", sent, options)


@check("C16", gen=gen_ud, n=350)
def udpipe(c):
    docs = [mk_doc(d) for d in c["docs"]]
    before = [doc_data(d) for d in docs]
    model = FakeUd(c["pred"], c["options"])
    cls = {"tag": UDPipeTagger, "parse": UDPipeParser, "both": UDPipeTaggerParser}[c["kind"]]
    out = list(cls(model, c["options"]).process(iter(docs)))
    ensure(len(out) == len(docs), "one document per input")
    forms = [[t.text for t in s.tokens] for d in docs for s in d.sentences]
    ensure(model.seen == [f for f in forms for _ in range(2 if c["kind"] == "both" else 1)], "the model sees every sentence in order with its words")
    k = 0
    for b, o in zip(before, out):
        b, a = norm(b), norm(doc_data(o))
        frame(b, a, FRAME + (SYN if c["kind"] == "tag" else MORPH if c["kind"] == "parse" else ()))
        for si, (x, y) in enumerate(b["sentences"]):
            for j, p in enumerate(c["pred"][k]):
                t = a["tokens"][x + j]
                if c["kind"] != "parse":
                    ensure(t["lemma"] == (p["lemma"] or None), "the predicted lemma is on its token")
                    want = None if p["pos"] is None else (p["pos"][0] or None, p["pos"][1] or None, p["pos"][2] or {})
                    ensure(t["pos"] == (None if want == (None, None, {}) else want), "the predicted tag is on its token")
                if c["kind"] != "tag":
                    ensure(a["sentence_heads"][si][j] == p["head"], "the predicted head is on its token")
                    ensure(t["deprel"] == (p["deprel"] or None), "the predicted relation is on its token")
            if c["kind"] == "tag": ensure(a["sentence_heads"][si] == b["sentence_heads"][si], "a tagger keeps the heads")
            k += 1
    same_inputs(docs, before)


# ---------------------------------------------------------------- neural tagger

class Extractor(object):
    def get_features(self, sentences, **kw):
        ensure(not kw.get("sparse_rate"), "no sparsening when tagging")
        return {"words": [[t.text for t in s] for s in sentences]}


class Interp(object):
    def interpret(self, sentences, prediction):
        res = []
        for s, p in zip(sentences, prediction):
            res.append([Token.with_morphology(t, mk_pos(("T%d" % x, None, {})), "L%d" % x) for t, x in zip(s, p)])
        return res


class FakeModel(object):
    def __init__(self): self.seen, self.n, self.closed = [], 0, 0
    def predict(self, features):
        res = []
        for ws in features["words"]:
            self.seen.append(ws)
            res.append(list(range(self.n, self.n + len(ws))))
            self.n += len(ws)
        return res
    def save(self, path): pass
    def close(self): self.closed += 1


@check("C16", gen=lambda rng, i: {"docs": gen_docs(rng, ("tree", "none", "wild", "near")), "lazy": rng.random() < 0.25}, n=250)
def neural(c):
    docs = [mk_doc(d) for d in c["docs"]]
    before = [doc_data(d) for d in docs]
    model = FakeModel()
    tagger = NeuralTagger(Extractor(), model, Interp())
    if c["lazy"]:
        scratch = tempfile.mkdtemp(prefix="c16-")
        old = neural_tagger.Model
        neural_tagger.Model = type("M", (), {"load": staticmethod(lambda path: model)})
        try:
            lazy = tagger.save(os.path.join(scratch, "m"))
            out = list(lazy.tag(iter(docs)))
        finally:
            neural_tagger.Model = old
            shutil.rmtree(scratch)
    else: out = list(tagger.tag(iter(docs)))
    ensure(len(out) == len(docs), "one document per input")
    ensure([w for s in model.seen for w in s] == [t.text for d in docs for t in d.tokens], "the model sees the words in order")
    n = 0
    for b, o in zip(before, out):
        a = doc_data(o)
        frame(b, a, FRAME + SYN)
        ensure(a["sentence_heads"] == b["sentence_heads"], "the tagger keeps the heads")
        for t in a["tokens"]:
            ensure(t["pos"] == ("T%d" % n, None, {}) and t["lemma"] == "L%d" % n, "every prediction is on its token")
            n += 1
    same_inputs(docs, before)
