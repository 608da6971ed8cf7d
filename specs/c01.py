"""C01: construction of documents."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Document, Sentence
from specs.docgen import gen_any_document, gen_replacement, gen_text_and_tokens
from specs.contracts import disagree


def place(t):
    return t.start, t.end, t.sub_index


@lemma("C01", gen=gen_any_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def accepted_documents_hold_the_given_tokens(text, tokens, sentences):
    r = attempt(lambda: Document(text, tokens, sentences))
    assume(r.ok)
    d = r.value
    n = len(tokens)
    s = sorted(tokens, key=place)
    ensure(d.tokens_count == n, "as many tokens as given")
    ensure(forall(0, n, lambda i: d.get_token(i).start == s[i].start and d.get_token(i).end == s[i].end and d.get_token(i).sub_index == s[i].sub_index), "the given spans in textual order")
    ensure(forall(0, n, lambda i: d.get_token(i).lemma == s[i].lemma and d.get_token(i).deprel == s[i].deprel and d.get_token(i).text_replacement == s[i].text_replacement), "with their annotation")


def clash(a, b):
    """two tokens intersect: their spans overlap, unless they are different words of one multiword token"""
    overlap = a.start < b.end and b.start < a.end
    one = a.start == b.start and a.end == b.end and a.text_replacement is not None and b.text_replacement is not None and a.sub_index != b.sub_index
    return overlap and not one


def gap(a, b):
    """a word of a multiword token does not follow the one before it"""
    sibling = a.text_replacement is not None and a.start == b.start and a.end == b.end
    return b.text_replacement is not None and b.sub_index != (a.sub_index + 1 if sibling else 0)


def boundaries(s):
    return s.start, s.end


@lemma("C01", gen=gen_any_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def refused_exactly_when_malformed(text, tokens, sentences):
    n, m = len(tokens), len(sentences)
    t, s = sorted(tokens, key=place), sorted(sentences, key=boundaries)
    if n == 0:
        covered = m == 0
    else:
        covered = m > 0 and s[0].start == 0 and s[m - 1].end == n and forall(0, m - 1, lambda k: s[k].end == s[k + 1].start)
    broken = exists(0, n - 1, lambda i: clash(t[i], t[i + 1])) or exists(0, n - 1, lambda i: gap(t[i], t[i + 1])) or (n > 0 and t[0].sub_index != 0) or not covered \
        or exists(0, m, lambda a: exists(s[a].start, min(s[a].end, n), lambda b: disagree(t[b], s[a].start)))
    r = attempt(lambda: Document(text, tokens, sentences))
    induct(0, n, lambda i: implies(r.ok, t[i].sub_index >= 0), "the words of a multiword token are counted from 0")
    ensure(r.ok == (not broken), "refused exactly when malformed")
    ensure(r.ok or r.refused(), "with ValueError")


@lemma("C01", gen=gen_any_document, text=Str, tokens=List(TokenR), sentences=List(SentenceR))
def accepted_documents_are_well_formed(text, tokens, sentences):
    r = attempt(lambda: Document(text, tokens, sentences))
    assume(r.ok)
    d, n, m = r.value, len(tokens), len(sentences)
    t, s = sorted(tokens, key=place), sorted(sentences, key=boundaries)
    induct(0, n, lambda j: t[j].sub_index >= 0, "counted from 0")
    induct(0, n, lambda j: forall(0, j, lambda i: t[i].end <= t[j].start or (t[i].start == t[j].start and t[i].end == t[j].end and t[i].sub_index < t[j].sub_index)), "one after another")
    ensure(forall(0, n, lambda j: forall(0, j, lambda i: not clash(t[i], t[j]))), "no two tokens intersect")
    ensure(forall(0, n, lambda j: t[j].sub_index >= 0 and implies(t[j].sub_index > 0, lambda: t[j - 1].start == t[j].start and t[j - 1].end == t[j].end and t[j - 1].sub_index == t[j].sub_index - 1)), "multiword tokens are numbered without gaps")
    b = list(d.sentences_boundaries)
    ensure(len(b) == m and d.sentences_count == m, "the given sentences")
    ensure(forall(0, m, lambda k: b[k].start == s[k].start and b[k].end == s[k].end), "in order")
    ensure(n == 0 or (m > 0 and b[0].start == 0 and b[m - 1].end == n), "from the first to the last token")
    ensure(forall(0, m - 1, lambda k: b[k].end == b[k + 1].start), "without holes and overlaps")


@lemma("C01", gen=gen_text_and_tokens, text=Str, tokens=List(TokenR))
def documents_without_sentences_get_one(text, tokens):
    r = attempt(lambda: Document(text, tokens))
    assume(r.ok)
    b = list(r.value.sentences_boundaries)
    if len(tokens) == 0:
        ensure(len(b) == 0, "no sentence in an empty document")
    else:
        ensure(len(b) == 1 and b[0].start == 0 and b[0].end == len(tokens), "one sentence covers all tokens")
    x = attempt(lambda: Document(text, tokens, [Sentence(0, len(tokens))] if tokens else []))
    ensure(x.ok, "and that is the only difference")


def derive(text, tokens, sentences, new):
    """an accepted document and an attempt to derive another one from it"""
    r = attempt(lambda: Document(text, tokens, sentences))
    assume(r.ok)
    return r.value, attempt(lambda: Document.from_document(r.value, new))


def coincide(t, u):
    return forall(0, min(len(t), len(u)), lambda i: t[i].start == u[i].start and t[i].end == u[i].end)


@lemma("C01", gen=gen_replacement, text=Str, tokens=List(TokenR), sentences=List(SentenceR), new=List(TokenR))
def derived_documents_replace_annotation(text, tokens, sentences, new):
    d, x = derive(text, tokens, sentences, new)
    assume(x.ok)
    n = len(tokens)
    t, u = sorted(tokens, key=place), sorted(new, key=place)
    ensure(coincide(t, u), "the new tokens coincide with the old ones")
    ensure(len(new) == n and x.value.tokens_count == n and x.value.text == text, "as many tokens, the same text")
    ensure(forall(0, n, lambda i: x.value.get_token(i).start == t[i].start and x.value.get_token(i).end == t[i].end), "the same spans")
    ensure(forall(0, n, lambda i: x.value.get_token(i).lemma == u[i].lemma and x.value.get_token(i).deprel == u[i].deprel and x.value.get_token(i).sub_index == u[i].sub_index and x.value.get_token(i).text_replacement == u[i].text_replacement), "the new annotation")
    b, c = list(d.sentences_boundaries), list(x.value.sentences_boundaries)
    ensure(len(b) == len(c) and forall(0, len(b), lambda k: b[k].start == c[k].start and b[k].end == c[k].end), "the same sentences")
    ensure(attempt(lambda: Document(text, new, sentences)).ok, "the new tokens fit the text and the sentences")


@lemma("C01", gen=gen_replacement, text=Str, tokens=List(TokenR), sentences=List(SentenceR), new=List(TokenR))
def fitting_tokens_are_accepted(text, tokens, sentences, new):
    assume(coincide(sorted(tokens, key=place), sorted(new, key=place)))
    assume(attempt(lambda: Document(text, new, sentences)).ok)
    d, x = derive(text, tokens, sentences, new)
    ensure(x.ok, "accepted")


@lemma("C01", gen=gen_replacement, text=Str, tokens=List(TokenR), sentences=List(SentenceR), new=List(TokenR))
def other_tokens_are_refused_with_an_error(text, tokens, sentences, new):
    d, x = derive(text, tokens, sentences, new)
    ensure(x.ok or x.refused(), "refused with ValueError")
