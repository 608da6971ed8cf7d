"""C04: derivations change only what they name."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Pos, Token, TokenExtras, DocumentToken


def same_place(t, o):
    return t.start == o.start and t.end == o.end and t.sub_index == o.sub_index and t.text_replacement == o.text_replacement


def same_morphology(t, o):
    return t.pos == o.pos and t.lemma == o.lemma


def same_syntax(t, o):
    return t.deprel == o.deprel and t._head_document_index == o._head_document_index and t._head_sentence_index == o._head_sentence_index


@lemma("C04", token=TokenR, pos=Opt(PosR), lem=Opt(Str))
def new_morphology(token, pos, lem):
    t = token.with_morphology(token, pos, lem)
    ensure(type(t) is Token, "the kind of token is kept")
    ensure(same_place(t, token), "place is kept")
    ensure(same_syntax(t, token), "syntax is kept")
    ensure(t.extras == token.extras, "extras are kept")
    ensure(t.pos == pos and t.lemma == lem, "exactly the given morphology is set")


@lemma("C04", token=TokenR, rel=Opt(Str), d=Opt(Int), s=Opt(Int))
def new_syntax(token, rel, d, s):
    t = token.with_syntax(token, rel, head_document_index=d, head_sentence_index=s)
    ensure(type(t) is Token, "the kind of token is kept")
    ensure(same_place(t, token), "place is kept")
    ensure(same_morphology(t, token), "morphology is kept")
    ensure(t.extras == token.extras, "extras are kept")
    ensure(t.deprel == rel and t._head_document_index == d and t._head_sentence_index == s, "exactly the given syntax is set")


@lemma("C04", token=TokenR, extras=Opt(ExtrasR))
def new_extras(token, extras):
    t = token.with_extras(token, extras)
    ensure(type(t) is Token, "the kind of token is kept")
    ensure(same_place(t, token) and same_morphology(t, token) and same_syntax(t, token), "everything else is kept")
    if extras is not None: ensure(t.extras == extras, "exactly the given extras are set")
    else: ensure(t.extras.as_dict() == {}, "extras are cleared")


@lemma("C04", token=TokenR, updates=Dict(Str, Any("extra")), key=Str)
def updated_extras(token, updates, key):
    t = token.update_extras(token, updates)
    ensure(type(t) is Token, "the kind of token is kept")
    ensure(same_place(t, token) and same_morphology(t, token) and same_syntax(t, token), "everything else is kept")
    ensure((key in t.extras) == (key in updates or key in token.extras), "exactly the updated and the old keys are present")
    if key in updates: ensure(t.extras[key] == updates[key], "updates win")
    elif key in token.extras: ensure(t.extras[key] == token.extras[key], "other extras are kept")


@lemma("C04", token=DocTokenR, pos=Opt(PosR), lem=Opt(Str))
def document_token_new_morphology(token, pos, lem):
    t = token.with_morphology(token, pos, lem)
    ensure(type(t) is DocumentToken, "the kind of token is kept")
    ensure(t.text == token.text and t.doc_text == token.doc_text and t.space_after == token.space_after, "the document text is kept")
    ensure(same_place(t, token) and same_syntax(t, token) and t.extras == token.extras, "everything else is kept")
    ensure(t.pos == pos and t.lemma == lem, "exactly the given morphology is set")


@lemma("C04", token=DocTokenR, rel=Opt(Str), d=Opt(Int), s=Opt(Int))
def document_token_new_syntax(token, rel, d, s):
    t = token.with_syntax(token, rel, head_document_index=d, head_sentence_index=s)
    ensure(type(t) is DocumentToken, "the kind of token is kept")
    ensure(t.text == token.text and t.doc_text == token.doc_text and t.space_after == token.space_after, "the document text is kept")
    ensure(same_place(t, token) and same_morphology(t, token) and t.extras == token.extras, "everything else is kept")
    ensure(t.deprel == rel and t._head_document_index == d and t._head_sentence_index == s, "exactly the given syntax is set")


@lemma("C04", token=DocTokenR, extras=Opt(ExtrasR))
def document_token_new_extras(token, extras):
    t = token.with_extras(token, extras)
    ensure(type(t) is DocumentToken, "the kind of token is kept")
    ensure(t.text == token.text and t.doc_text == token.doc_text and t.space_after == token.space_after, "the document text is kept")
    ensure(same_place(t, token) and same_morphology(t, token) and same_syntax(t, token), "everything else is kept")
    if extras is not None: ensure(t.extras == extras, "exactly the given extras are set")
    else: ensure(t.extras.as_dict() == {}, "extras are cleared")


@lemma("C04", token=DocTokenR, updates=Dict(Str, Any("extra")), key=Str)
def document_token_updated_extras(token, updates, key):
    t = token.update_extras(token, updates)
    ensure(type(t) is DocumentToken, "the kind of token is kept")
    ensure(t.text == token.text and t.doc_text == token.doc_text and t.space_after == token.space_after, "the document text is kept")
    ensure(same_place(t, token) and same_morphology(t, token) and same_syntax(t, token), "everything else is kept")
    ensure((key in t.extras) == (key in updates or key in token.extras), "exactly the updated and the old keys are present")
    if key in updates: ensure(t.extras[key] == updates[key], "updates win")
    elif key in token.extras: ensure(t.extras[key] == token.extras[key], "other extras are kept")


@lemma("C04", upos=Opt(Str), xpos=Opt(Str), feats=Dict(Str, Str), k=Str, v=Str, q=Str)
def part_of_speech_is_isolated_from_its_dictionaries(upos, xpos, feats, k, v, q):
    had, old = q in feats, feats.get(q)
    p = Pos(upos, xpos, feats)
    feats[k] = v
    ensure(p.feature(q) == old, "changing the argument dictionary does not change the part of speech")
    f = p.feats
    f[k] = v
    ensure(p.feature(q) == old, "changing the obtained dictionary does not change the part of speech")
    ensure((q in p.feats) == had and p.feats.get(q) == old, "the features are the given ones")
    ensure(p.upos == upos and p.xpos == xpos, "the tags are the given ones")


@lemma("C04", d=Dict(Str, Any("extra")), k=Str, v=Any("extra"), q=Str)
def extras_are_isolated_from_their_dictionaries(d, k, v, q):
    had, old = q in d, d.get(q)
    x = TokenExtras(d)
    d[k] = v
    ensure((q in x) == had, "changing the argument dictionary does not change the extras")
    if had: ensure(x[q] == old, "changing the argument dictionary does not change the extras")
    f = x.as_dict()
    f[k] = v
    ensure((q in x) == had, "changing the obtained dictionary does not change the extras")
    if had: ensure(x[q] == old, "changing the obtained dictionary does not change the extras")


@lemma("C04", d=Dict(Str, Any("extra")), u=Dict(Str, Any("extra")), q=Str, k=Str, v=Any("extra"))
def updating_extras_leaves_the_original(d, u, q, k, v):
    had, old = q in d, d.get(q)
    x = TokenExtras(d)
    y = x.update(u)
    ensure((q in x) == had, "the original extras keep their keys")
    if had: ensure(x[q] == old, "the original extras keep their values")
    inu, uv = q in u, u.get(q)
    u[k] = v
    ensure((q in y) == (inu or had), "later changes of the updates do not change the result")
    if inu: ensure(y[q] == uv, "later changes of the updates do not change the result")


@lemma("C04", xs=List(Int), num=Int)
def extras_own_nested_values(xs, num):
    m = len(xs)
    d = {"k": xs}
    x = TokenExtras(d)
    xs.append(num)
    ensure(len(x["k"]) == m, "changing a nested list of the argument does not change the extras")
    x["k"].append(num)
    ensure(len(x["k"]) == m, "changing an obtained nested list does not change the extras")
    x.as_dict()["k"].append(num)
    ensure(len(x["k"]) == m, "changing an obtained nested list does not change the extras")
    u = [num]
    y = x.update({"u": u})
    u.append(num)
    ensure(len(y["u"]) == 1 and len(y["k"]) == m, "changing a nested list of the updates does not change the extras")
    y["k"].append(num)
    ensure(len(y["k"]) == m and len(x["k"]) == m, "updated extras own their nested values")
