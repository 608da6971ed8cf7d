"""C03: validation of the syntax."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Document, Sentence
from specs.docgen import gen_any_document


def place(t):
    return t.start, t.end, t.sub_index


def boundaries(s):
    return s.start, s.end


@lemma("C03", gen=gen_any_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def documents_without_syntax(text, tokens, sentences):
    plain = attempt(lambda: Document(text, tokens, sentences))
    assume(plain.ok)
    n, m = len(tokens), len(sentences)
    t, s = sorted(tokens, key=place), sorted(sentences, key=boundaries)
    induct(0, m, lambda b: forall(0, b, lambda a: s[a].end <= s[b].start), "sentences follow one another")
    induct(0, m, lambda a: s[a].end <= n, "sentences lie in the document")
    assume(forall(0, m, lambda k: not t[s[k].start].has_head))
    d = plain.value
    ensure(forall(0, m, lambda k: not d.get_token(s[k].start).has_head), "the same before the first sentence")
    r = attempt(lambda: Document(text, tokens, sentences, True))
    ensure(r.ok == forall(0, m, lambda k: forall(s[k].start, s[k].end, lambda i: not t[i].has_head)), "accepted exactly when no token has a head")
    ensure(r.ok or r.refused(), "refused with ValueError")
