"""C09: lemma rules reproduce the lemma they were learned from."""
from pydv.speclib import *
from pydv.types import *
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation


@lemma("C09", word=Str, lem=Str)
def learned_rule_reproduces_lemma(word, lem):
    rule = LemmaSuffixTransformation.get_rule(word, lem)
    ensure(rule.is_applicable(word), "the derived rule is applicable to its word")
    ensure(rule.transform(word) == lem, "the derived rule transforms the word into the lemma")


@lemma("C09", word=Str, lem=Str)
def learned_rule_is_most_general(word, lem):
    rule = LemmaSuffixTransformation.get_rule(word, lem)
    kept = len(word) - len(rule.word_suffix)
    ensure(kept >= 0 and kept <= len(lem), "the kept part is a prefix of word and lemma")
    ensure(word[:kept] == lem[:kept], "the kept part is common to word and lemma")
    ensure(kept == len(word) or kept == len(lem) or word[kept] != lem[kept], "the kept part is the longest common prefix")
    ensure(rule.lemma_suffix == lem[kept:], "the lemma suffix is the rest of the lemma")
    ensure(rule.is_regular == (kept > 0), "the rule is an exception exactly when nothing is shared")


@lemma("C09", ws=Str, ls=Str, exc=Bool, word=Str)
def rule_application(ws, ls, exc, word):
    rule = LemmaSuffixTransformation(ws, ls, exc)
    ensure(rule.word_suffix == ws and rule.lemma_suffix == ls and rule.is_regular == (not exc), "a rule keeps its suffixes")
    ensure(rule.is_applicable(word) == word.endswith(ws), "applicable exactly to words ending with the word suffix")
    r = attempt(lambda: rule.transform(word))
    if word.endswith(ws):
        ensure(r.ok, "applicable words are transformed")
        ensure(r.value == word[:len(word) - len(ws)] + ls, "exactly the word suffix is replaced")
    else:
        ensure(r.refused(), "other words are refused with ValueError")
