from pydv.speclib import *
from rt.core import check, gen_str, size
from specs.c09 import learned_rule_reproduces_lemma, learned_rule_is_most_general, rule_application


def gen1(rng, i):
    al = rng.choice(["ab", "abc", "абв", "aä", "日本x", "aA"])
    stem = gen_str(rng, alphabet=al, small=6)
    return (stem + gen_str(rng, alphabet=al, small=3), stem + gen_str(rng, alphabet=al, small=3))


@check("C09", gen=gen1, n=3000)
def related_words(c):
    learned_rule_reproduces_lemma(*c)
    learned_rule_is_most_general(*c)


@check("C09", gen=lambda rng, i: (gen_str(rng, alphabet="ab", small=3), gen_str(rng, alphabet="ab", small=3), rng.random() < 0.5, gen_str(rng, alphabet="ab")), n=2000)
def application(c):
    ws, ls, exc, word = c
    rule_application(ws, ls, exc, word)
    rule_application(ws, ls, exc, word + ws)


def words():
    import itertools
    w = ["".join(p) for n in range(5) for p in itertools.product("ab", repeat=n)]
    return [(a, b) for a in w for b in w]


@check("C09", cases=words)
def all_short_words(c):
    related_words(c)
