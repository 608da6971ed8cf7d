"""Contracts of functions of the repository that are used in place of their bodies."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from specs.docgen import gen_sorted_parts


@contract("babylondigger.datamodel:Token.fill_heads", props=("C01", "C02", "C03", "C05", "C16", "C20"), returns=TokenR, token=TokenR, sentence_start=Int)
def fill_heads(ret, token, sentence_start):
    doc, sen = token._head_document_index, token._head_sentence_index
    root = (doc is None or doc == -1) and (sen is None or sen == -1)
    require(sentence_start >= 0)
    refuse(doc is not None and sen is not None and not root and doc != sen + sentence_start)
    promise(ret.start == token.start and ret.end == token.end and ret.sub_index == token.sub_index, "span")
    promise(ret.text_replacement == token.text_replacement and ret.lemma == token.lemma and ret.deprel == token.deprel, "annotation")
    promise(identical(ret.pos, token.pos), "part of speech")
    promise(identical(ret.extras, token.extras), "extras")
    d, s = ret._head_document_index, ret._head_sentence_index
    promise((d is None) == (doc is None and sen is None) and (s is None) == (doc is None and sen is None), "both views or none")
    promise(d is None or d == (-1 if root else doc if doc is not None else sen + sentence_start), "document view")
    promise(s is None or s == (-1 if root else sen if sen is not None else doc - sentence_start), "sentence view")


def disagree(token, start):
    """the two views of the head disagree"""
    doc, sen = token._head_document_index, token._head_sentence_index
    return doc is not None and sen is not None and not (doc == -1 and sen == -1) and doc != sen + start


def partition(sentences, n):
    """the sentences cover 0..n one after another"""
    m = len(sentences)
    return m > 0 and sentences[0].start == 0 and sentences[m - 1].end == n and forall(0, m - 1, lambda k: sentences[k].end == sentences[k + 1].start)


def kept(new, old):
    """the same span and annotation; the head is given in both views or not at all; a given view is kept"""
    none = old._head_document_index is None and old._head_sentence_index is None
    return new.start == old.start and new.end == old.end and new.sub_index == old.sub_index and new.text_replacement == old.text_replacement \
        and new.lemma == old.lemma and new.deprel == old.deprel and identical(new.pos, old.pos) and identical(new.extras, old.extras) \
        and (new._head_document_index is None) == none and (new._head_sentence_index is None) == none \
        and (old._head_document_index is None or new._head_document_index == old._head_document_index) \
        and (old._head_sentence_index is None or new._head_sentence_index == old._head_sentence_index)


@contract("babylondigger.datamodel:_WordList.__fill_token_heads", props=("C01", "C02", "C03", "C05", "C16", "C20"), returns=List(TokenR), gen=gen_sorted_parts, sorted_tokens=List(TokenR), sorted_sentences=List(SentenceR))
def fill_token_heads(ret, sorted_tokens, sorted_sentences):
    n, m, s, t = len(sorted_tokens), len(sorted_sentences), sorted_sentences, sorted_tokens
    part = partition(s, n)
    cases(part)
    induct(0, m, lambda b: implies(part, lambda: forall(0, b, lambda a: s[a].end <= s[b].start)), "sentences follow one another")
    induct(0, m, lambda a: implies(part, lambda: s[a].end <= n), "sentences lie in the document")
    invariant(lambda k, filled: forall(0, k, lambda a: forall(s[a].start, min(s[a].end, n), lambda b: not disagree(t[b], s[a].start))), depth=0, filled="ListT")
    invariant(lambda k, filled: implies(part, lambda: len(filled) == (0 if k == 0 else s[k - 1].end)), depth=0, filled="ListT")
    invariant(lambda k, filled: implies(part, lambda: forall(0, k, lambda a: forall(s[a].start, s[a].end, lambda b: identical(filled[b], result_of("fill_heads", t[b], s[a].start))))), depth=0, filled="ListT")
    invariant(lambda k, filled: implies(part, lambda: forall(0, len(filled), lambda b: kept(filled[b], t[b]))), depth=0, filled="ListT")
    refuse(exists(0, m, lambda a: exists(s[a].start, min(s[a].end, n), lambda b: disagree(t[b], s[a].start))))
    promise(implies(part, lambda: len(ret) == n), "as many tokens")
    promise(implies(part, lambda: forall(0, n, lambda b: kept(ret[b], t[b]))), "span and annotation are kept")
    promise(implies(part, lambda: forall(0, m, lambda a: forall(s[a].start, s[a].end, lambda b: identical(ret[b], result_of("fill_heads", t[b], s[a].start))))), "every token is filled in its sentence")


@contract("babylondigger.lemmas.transformation_rules:LemmaSuffixTransformation.get_rule", props=("C11",), returns=Rule, word=Str, lemma=Str)
def get_rule(ret, word, lemma):
    promise(word.endswith(ret.word_suffix), "the rule is applicable to its word")
    promise(word.removesuffix(ret.word_suffix) + ret.lemma_suffix == lemma, "and gives the lemma")
