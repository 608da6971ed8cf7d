"""C02: head views agree and are filled consistently (contracts of Token.fill_heads and of the views)."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Token, Document
from specs.docgen import gen_word_place
from specs.c01 import place


@lemma("C02", token=TokenR, start=Int)
def views_of_an_unfilled_token(token, start):
    doc, sen = token._head_document_index, token._head_sentence_index
    ensure(token.has_head == (doc is not None or sen is not None), "a token has a head exactly when a view is given")
    ensure(implies(token.is_root, token.has_head), "the root has a head")
    ensure(token.is_root == (token.has_head and (doc is None or doc == -1) and (sen is None or sen == -1)), "the root is what every given view calls the root")


@lemma("C02", token=TokenR, start=Int)
def filled_heads_agree(token, start):
    assume(start >= 0)
    doc, sen = token._head_document_index, token._head_sentence_index
    r = attempt(lambda: token.fill_heads(token, start))
    ensure(r.ok or r.refused(), "filling succeeds or refuses with ValueError")
    if r.ok:
        t = r.value
        d, s = t._head_document_index, t._head_sentence_index
        ensure((d is None) == (s is None), "both views are present or none is")
        ensure(t.has_head == token.has_head, "a head is neither added nor dropped")
        if d is not None and s is not None:
            if doc is None and sen is not None:
                ensure(s == sen, "the given sentence view is kept")
            if sen is None and doc is not None:
                ensure(d == doc, "the given document view is kept")
            if doc is not None and sen is not None:
                ensure(d == doc and s == sen, "given views are kept")
            ensure((d == -1 and s == -1 and t.is_root) or d == s + start, "the views name the same token")
            ensure(implies(token.is_root, d == -1 and s == -1 and t.is_root), "the root stays the root")
            ensure(implies(t.is_root and s == -1 and d == -1, (doc is None or doc == -1) and (sen is None or sen == -1)), "a head position is never turned into the root")
    else:
        ensure(doc is not None and sen is not None, "only two given views can be refused")
        if doc is not None and sen is not None:
            ensure(not (doc == -1 and sen == -1) and doc != sen + start, "only views that disagree are refused")


@lemma("C02", token=TokenR, start=Int)
def disagreeing_views_are_refused(token, start):
    assume(start >= 0)
    doc, sen = token._head_document_index, token._head_sentence_index
    r = attempt(lambda: token.fill_heads(token, start))
    if doc is not None and sen is not None:
        if doc != sen + start and not (doc == -1 and sen == -1):
            ensure(r.refused(), "two views that disagree are refused")
    if doc is None and sen is not None: ensure(r.ok, "a single view is completed")
    if doc is not None and sen is None: ensure(r.ok, "a single view is completed")
    if doc is None and sen is None: ensure(r.ok, "a token without head is accepted")


@lemma("C02", token=TokenR, start=Int)
def filling_changes_only_heads(token, start):
    assume(start >= 0)
    r = attempt(lambda: token.fill_heads(token, start))
    if r.ok:
        t = r.value
        ensure(t.start == token.start and t.end == token.end, "the span is kept")
        ensure(t.pos == token.pos and t.lemma == token.lemma, "morphology is kept")
        ensure(t.deprel == token.deprel, "the relation is kept")
        ensure(t.sub_index == token.sub_index and t.text_replacement == token.text_replacement, "the multiword structure is kept")
        ensure(t.extras == token.extras, "extras are kept")


@lemma("C02", gen=gen_word_place, text=Str, tokens=List(TokenR), sentences=List(SentenceR), i=Int, j=Int)
def views_of_a_document(text, tokens, sentences, i, j):
    r = attempt(lambda: Document(text, tokens, sentences))
    assume(r.ok)
    d = r.value
    assume(0 <= i and i < d.sentences_count)
    b = list(d.sentences_boundaries)[i]
    s = d.get_sentence(i)
    assume(0 <= j and j < s.tokens_count)
    inner, outer = s.get_token(j), d.get_token(b.start + j)
    ensure(inner.has_head == outer.has_head and inner.is_root == outer.is_root, "the same kind of head in both views")
    if outer.is_root:
        ensure(inner.head_index == -1 and outer.head_index == -1, "the head of the root is -1 in both views")
    elif outer.has_head:
        ensure(outer.head_index == inner.head_index + b.start, "the views differ by the start of the sentence")
    else:
        ensure(inner.head_index is None and outer.head_index is None, "no head in both views")
    t = sorted(tokens, key=place)[b.start + j]
    ensure(outer.has_head == t.has_head and outer.is_root == t.is_root, "heads are neither dropped nor added")
    if t.has_head and not t.is_root:
        ensure(t._head_document_index is None or t._head_document_index == outer.head_index, "a given document view is kept")
        ensure(t._head_sentence_index is None or t._head_sentence_index == inner.head_index, "a given sentence view is kept")
