"""C08: equality, ordering and hashing are coherent and exact."""
from pydv.speclib import *
from pydv.types import *
from specs.rectypes import *
from babylondigger.datamodel import Pos, Token, TokenExtras, Sentence
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation


def normalised(feats):
    return feats if feats is not None else {}


@lemma("C08", u1=Opt(Str), x1=Opt(Str), f1=Opt(Dict(Str, Str)), u2=Opt(Str), x2=Opt(Str), f2=Opt(Dict(Str, Str)))
def parts_of_speech_equality(u1, x1, f1, u2, x2, f2):
    a, b = Pos(u1, x1, f1), Pos(u2, x2, f2)
    same = u1 == u2 and x1 == x2 and normalised(f1) == normalised(f2)
    ensure((a == b) == same, "equal exactly when tags and features are equal")
    ensure((a != b) == (not same), "!= is the negation")
    ensure(implies(same, hash(a) == hash(b)), "equal values have equal hashes")


@lemma("C08", a=PosR, b=PosR)
def parts_of_speech_order_is_consistent(a, b):
    lt, gt, eq = a < b, b < a, a == b
    ensure(implies(lt, not gt and not eq), "at most one of <, ==, > holds")
    ensure(implies(gt, not lt and not eq), "at most one of <, ==, > holds")
    ensure(lt or gt or eq, "one of <, ==, > holds")
    ensure((a <= b) == (lt or eq) and (a >= b) == (gt or eq) and (a > b) == gt, "<=, >=, > agree")


@lemma("C08", a=PosR, b=PosR, c=PosR)
def parts_of_speech_order_is_transitive(a, b, c):
    ensure(implies(a < b and b < c, a < c), "< is transitive")


@lemma("C08", a=Rule, b=Rule)
def rule_equality(a, b):
    same = a.word_suffix == b.word_suffix and a.lemma_suffix == b.lemma_suffix and a.is_regular == b.is_regular
    ensure((a == b) == same, "equal exactly when suffixes and kind are equal")
    ensure((a != b) == (not same), "!= is the negation")
    ensure(implies(same, hash(a) == hash(b)), "equal values have equal hashes")


@lemma("C08", a=Rule, b=Rule)
def rule_order_is_consistent(a, b):
    lt, gt, eq = a < b, b < a, a == b
    ensure(implies(lt, not gt and not eq), "at most one of <, ==, > holds")
    ensure(lt or gt or eq, "one of <, ==, > holds")
    ensure((a <= b) == (lt or eq) and (a >= b) == (gt or eq) and (a > b) == gt, "<=, >=, > agree")


@lemma("C08", a=Rule, b=Rule, c=Rule)
def rule_order_is_transitive(a, b, c):
    ensure(implies(a < b and b < c, a < c), "< is transitive")


@lemma("C08", a=Int, b=Int, c=Int, d=Int)
def sentence_equality(a, b, c, d):
    assume(0 <= a and a < b and 0 <= c and c < d)
    x, y = Sentence(a, b), Sentence(c, d)
    ensure((x == y) == (a == c and b == d), "equal exactly when the boundaries are equal")
    ensure((x != y) == (a != c or b != d), "!= is the negation")


@lemma("C08", a=Dict(Str, Any("extra")), b=Dict(Str, Any("extra")))
def extras_equality(a, b):
    x, y = TokenExtras(a), TokenExtras(b)
    ensure((x == y) == (a == b), "equal exactly when the dictionaries are equal")
    ensure((x != y) == (not (a == b)), "!= is the negation")


@lemma("C08", a=TokenR, b=TokenR)
def token_equality_is_exact_up_to_the_sentence_view(a, b):
    same = a.start == b.start and a.end == b.end and a.pos == b.pos and a.lemma == b.lemma and a.deprel == b.deprel and \
        a.sub_index == b.sub_index and a.text_replacement == b.text_replacement and a.extras == b.extras and \
        a._head_document_index == b._head_document_index
    ensure(implies(a == b, same), "equal tokens have equal content")
    ensure(implies(same and a._head_sentence_index == b._head_sentence_index, a == b), "equal content is equal")
    ensure((a == b) == (b == a), "equality is symmetric")
    ensure((a != b) == (not (a == b)), "!= is the negation")


@lemma("C08", p=PosR, r=Rule, s=SentenceR, x=ExtrasR, t=TokenR, o=Str, i=Int)
def other_kinds_are_never_equal(p, r, s, x, t, o, i):
    ensure(not (p == o) and p != o and not (p == i) and not (p == None) and not (o == p), "a part of speech equals no other kind")
    ensure(not (r == o) and r != o and not (r == i) and not (r == None) and not (r == p), "a rule equals no other kind")
    ensure(not (s == o) and s != o and not (s == i) and not (s == None) and not (s == p), "a sentence equals no other kind")
    ensure(not (x == o) and x != o and not (x == i) and not (x == None) and not (x == p), "extras equal no other kind")
    ensure(not (t == o) and t != o and not (t == i) and not (t == None) and not (t == p), "a token equals no other kind")
