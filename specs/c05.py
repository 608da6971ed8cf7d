"""C05: navigation is a view of the document."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Document
from specs.docgen import gen_document, gen_place, gen_sentence_place


def same(a, b):
    """the same token: span, structure and annotation"""
    return a.start == b.start and a.end == b.end and a.sub_index == b.sub_index and a.text_replacement == b.text_replacement and a.lemma == b.lemma \
        and a.deprel == b.deprel and a.pos == b.pos and a.head_index == b.head_index and a.is_root == b.is_root


def same_place(a, b):
    """the same token, seen from two containers"""
    return a.start == b.start and a.end == b.end and a.sub_index == b.sub_index and a.text_replacement == b.text_replacement and a.lemma == b.lemma \
        and a.deprel == b.deprel and a.is_root == b.is_root and a.has_head == b.has_head


def accepted(text, tokens, sentences):
    d = attempt(lambda: Document(text, tokens, sentences))
    assume(d.ok)
    return d.value


@lemma("C05", gen=gen_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def token_neighbours(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    n = d.tokens_count
    assume(0 <= i and i < n)
    t = d.get_token(i)
    ensure(t.is_first == (i == 0) and t.is_last == (i == n - 1), "first and last")
    if i > 0:
        ensure(same(t.previous, d.get_token(i - 1)), "previous")
    else:
        ensure(t.previous is None, "no previous")
    if i < n - 1:
        ensure(same(t.next, d.get_token(i + 1)), "next")
    else:
        ensure(t.next is None, "no next")


@lemma("C05", gen=gen_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def token_views(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    n = d.tokens_count
    assume(0 <= i and i < n)
    t = d.get_token(i)
    ensure(same(t, d[i]), "the two ways of indexed access agree")
    ensure(t.doc_text == text[t.start:t.end], "covered text")
    r = t.text_replacement
    if r is not None:
        ensure(t.is_multiword and t.text == r, "text of a multiword token is its replacement")
    else:
        ensure(not t.is_multiword and t.text == text[t.start:t.end], "text of an ordinary token is what it covers")
    ensure(d.text == text and d.document_text == text, "text of the document")
    if t.is_root:
        ensure(t.head is None, "the root has no head")
    elif t.has_head:
        h = t.head_index
        ensure(h is not None, "a head has a position")
        if 0 <= h and h < n:
            ensure(same(t.head, d.get_token(h)), "the head is the token at the head position")


@lemma("C05", gen=gen_sentence_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def sentence_views(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    m = d.sentences_count
    assume(0 <= i and i < m)
    b = list(d.sentences_boundaries)[i]
    s = d.get_sentence(i)
    n = s.tokens_count
    ensure(n == b.end - b.start and n > 0, "as many tokens as the sentence covers")
    ensure(s.is_first == (i == 0) and s.is_last == (i == m - 1), "first and last")
    ensure(s.document_text == text and s.text == text[d.get_token(b.start).start:d.get_token(b.end - 1).end], "text from the first to the last token")
    ensure(forall(0, n, lambda j: same_place(s.get_token(j), d.get_token(b.start + j))), "the tokens of the sentence")


@lemma("C05", gen=gen_sentence_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def next_sentences(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    assume(0 <= i and i < d.sentences_count - 1)
    s, t = d.get_sentence(i).next, d.get_sentence(i + 1)
    ensure(s.tokens_count == t.tokens_count and s.text == t.text, "the next sentence")


@lemma("C05", gen=gen_sentence_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def previous_sentences(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    assume(0 < i and i < d.sentences_count)
    s, t = d.get_sentence(i).previous, d.get_sentence(i - 1)
    ensure(s.tokens_count == t.tokens_count and s.text == t.text, "the previous sentence")


@lemma("C05", gen=gen_sentence_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def outer_sentences(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    m = d.sentences_count
    assume(0 <= i and i < m)
    s = d.get_sentence(i)
    ensure(i > 0 or s.previous is None, "no previous")
    ensure(i < m - 1 or s.next is None, "no next")


@lemma("C05", gen=gen_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def tokens_are_enumerated_in_order(text, tokens, sentences):
    d = accepted(text, tokens, sentences)
    n = d.tokens_count
    ts = list(d.tokens)
    ensure(len(ts) == n and forall(0, n, lambda k: same(ts[k], d.get_token(k))), "all tokens in order")


@lemma("C05", gen=gen_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int)
def spacing(text, tokens, sentences, i):
    d = accepted(text, tokens, sentences)
    assume(0 <= i and i < d.tokens_count)
    t = d.get_token(i)
    ensure(t.space_after == (t.end == len(text) or text[t.end:t.end + 1].isspace()), "space after the token")
