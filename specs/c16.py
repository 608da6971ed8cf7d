"""C16: the stub annotators keep what they do not annotate; a pipeline applies its stages in order."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from specs.docgen import gen_document
from specs.contracts import partition
from specs.gen import gen_pos
from babylondigger.datamodel import Document, Pos
from babylondigger.processor import DocumentComplexProcessor
from babylondigger.tagger import StubTagger


def place(t):
    return t.start, t.end, t.sub_index


def gen_tagged(rng):
    p = gen_pos(rng, none=0)
    return dict(gen_document(rng), pos=Pos(*p))


def accepted(text, tokens, sentences):
    a = attempt(lambda: Document(text, tokens, sentences))
    assume(a.ok)
    d = a.value
    b = list(d.sentences_boundaries)
    ensure(len(tokens) == 0 or partition(b, len(tokens)), "the sentences cover the given tokens")
    ensure(len(tokens) == 0 or partition(b, d.tokens_count), "the sentences cover the tokens")
    m = len(b)
    induct(0, m, lambda k: forall(0, k, lambda a: b[a].end <= b[k].start), "sentences follow one another")
    ensure(forall(0, m, lambda a: 0 <= b[a].start and b[a].start < b[a].end and b[a].end <= d.tokens_count), "sentences lie in the document")
    return d


def kept(x, d, text, tokens):
    """text, tokens and sentences are kept"""
    n = d.tokens_count
    s = sorted(tokens, key=place)
    ensure(x.tokens_count == n and x.text == text, "the same text and number of tokens")
    ensure(forall(0, n, lambda i: x.get_token(i).start == s[i].start and x.get_token(i).end == s[i].end), "spans")
    ensure(forall(0, n, lambda i: x.get_token(i).sub_index == s[i].sub_index and x.get_token(i).text_replacement == s[i].text_replacement), "multiword structure")
    b, c = list(d.sentences_boundaries), list(x.sentences_boundaries)
    ensure(len(b) == len(c) and forall(0, len(b), lambda k: b[k].start == c[k].start and b[k].end == c[k].end), "sentences")


@lemma("C16", gen=gen_tagged, text=Str, tokens=List(TokenR), sentences=List(SentenceR), pos=PosR)
def stub_tagger(text, tokens, sentences, pos):
    d = accepted(text, tokens, sentences)
    r = attempt(lambda: list(StubTagger(pos).tag(iter([d]))))
    ensure(r.ok and len(r.value) == 1, "one document for one document")
    x, n = r.value[0], d.tokens_count
    kept(x, d, text, tokens)
    ensure(forall(0, n, lambda i: x.get_token(i).pos == pos and x.get_token(i).lemma == d.get_token(i).text), "every token gets its tag and lemma")
    ensure(forall(0, n, lambda i: x.get_token(i).head_index == d.get_token(i).head_index), "heads are left alone")
    ensure(forall(0, n, lambda i: x.get_token(i).has_head == d.get_token(i).has_head and x.get_token(i).deprel == d.get_token(i).deprel), "relations are left alone")
    ensure(forall(0, n, lambda i: x.get_token(i).extras == d.get_token(i).extras), "extras are kept")


class Stage(object):
    """a stage that leaves its mark on what passes through it"""
    def __init__(self, mark): self.mark = mark

    def process(self, documents): return list(documents) + [self.mark]


def gen_marks(rng):
    return dict(documents=[rng.randrange(5) for _ in range(rng.randrange(3))], marks=[rng.randrange(9) for _ in range(rng.randrange(5))])


@lemma("C16", gen=gen_marks, documents=List(Int), marks=List(Int))
def stages_in_order(documents, marks):
    n = len(documents)
    invariant(lambda k, result: len(result) == n + k, depth=0, result="ListT(IntT")
    invariant(lambda k, result: forall(0, n, lambda i: result[i] == documents[i]), depth=0, result="ListT(IntT")
    invariant(lambda k, result: forall(0, k, lambda i: result[n + i] == marks[i]), depth=0, result="ListT(IntT")
    r = attempt(lambda: DocumentComplexProcessor([Stage(m) for m in marks]).process(documents))
    ensure(r.ok, "a pipeline of any length processes")
    ensure(len(r.value) == n + len(marks), "every stage is applied once")
    ensure(forall(0, n, lambda i: r.value[i] == documents[i]), "the input goes through every stage")
    ensure(forall(0, len(marks), lambda i: r.value[n + i] == marks[i]), "the stages are applied in their order")
