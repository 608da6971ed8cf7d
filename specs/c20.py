"""C20: the tagger under test sees no gold annotation."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from specs.docgen import gen_document
from specs.contracts import partition
from babylondigger.datamodel import Document
from babylondigger.evaluation.evaluation import DataSetTaggerTester


class Seen(Exception):
    pass


class Spy(object):
    """a tagger that only looks at what it is given"""
    def __init__(self): self.documents = None

    def tag(self, documents):
        self.documents = list(documents)
        raise Seen()


def place(t):
    return t.start, t.end, t.sub_index


def shown(text, tokens, sentences):
    """an accepted document, and the document a tagger is given when it is tested on that one"""
    a = attempt(lambda: Document(text, tokens, sentences))
    assume(a.ok)
    d = a.value
    b = list(d.sentences_boundaries)
    ensure(len(tokens) == 0 or partition(b, len(tokens)), "the sentences cover the given tokens")
    ensure(len(tokens) == 0 or partition(b, d.tokens_count), "the sentences cover the tokens")
    spy = Spy()
    r = attempt(lambda: DataSetTaggerTester([d]).test(spy, "test"))
    ensure(not r.ok and spy.documents is not None, "the tagger is given the documents")
    ensure(len(spy.documents) == 1, "one document for one document")
    return d, spy.documents[0]


@lemma("C20", gen=gen_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def tested_taggers_see_no_annotation(text, tokens, sentences):
    d, x = shown(text, tokens, sentences)
    n = d.tokens_count
    ensure(x.tokens_count == n and x.text == text, "the same text and number of tokens")
    ensure(forall(0, n, lambda i: x.get_token(i).pos is None and x.get_token(i).lemma is None), "no part of speech and no lemma")
    ensure(forall(0, n, lambda i: not x.get_token(i).has_head and x.get_token(i).deprel is None), "no head and no relation")


@lemma("C20", gen=gen_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def tested_taggers_see_the_tokens(text, tokens, sentences):
    d, x = shown(text, tokens, sentences)
    n = d.tokens_count
    s = sorted(tokens, key=place)
    ensure(forall(0, n, lambda i: x.get_token(i).start == s[i].start and x.get_token(i).end == s[i].end), "spans")
    ensure(forall(0, n, lambda i: x.get_token(i).sub_index == s[i].sub_index and x.get_token(i).text_replacement == s[i].text_replacement), "multiword structure")
    b, c = list(d.sentences_boundaries), list(x.sentences_boundaries)
    ensure(len(b) == len(c) and forall(0, len(b), lambda k: b[k].start == c[k].start and b[k].end == c[k].end), "sentences")
