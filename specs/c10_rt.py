from collections import Counter
from pydv.speclib import *
from rt.core import check, gen_str, size
from specs.gen import *
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation, LemmaTransformationTrie
from babylondigger.features.extractors import ApplicableSuffixTransformationsBuilder, CachedSuffixRulesBuilder, LemmaSuffixTransformationFeatureExtractorBuilder


def gen1(rng, i):
    al = rng.choice(["a", "ab", "ab", "abc", "аб", "aA", "ςσ"])
    n = size(rng, 8)
    rules = []
    for k in range(n):
        if rules and rng.random() < 0.15: rules.append((rng.choice(rules)[0], k if rng.random() < 0.5 else 0))
        else: rules.append(((gen_str(rng, alphabet=al, small=3), gen_str(rng, alphabet=al, small=2), rng.random() < 0.4), k))
    words = [gen_str(rng, alphabet=al, small=4) for _ in range(4)] + [r[0][0] for r in rules[:3]] + [rng.choice(al) + r[0][0] for r in rules[:3]]
    return rules, words


def offered(rules, word):
    c = Counter()
    for (ws, ls, exc), k in rules:
        if (exc and ws == word) or (not exc and len(ws) < len(word) and word[len(word) - len(ws):] == ws): c[(ws, ls, exc, k)] += 1
    return c


@check("C10", gen=gen1, n=3000)
def trie(c):
    rules, words = c
    objs = [(LemmaSuffixTransformation(*r), k) for r, k in rules]
    t = LemmaTransformationTrie.build(iter(objs))
    for w in words:
        for _ in range(2):
            got = t.get_applicable_rules(w)
            ensure(all(r.is_applicable(w) for r, _ in got), "every offered rule is applicable")
            ensure(Counter((r.word_suffix, r.lemma_suffix, not r.is_regular, k) for r, k in got) == offered(rules, w),
                   "the trie offers exactly the applicable regular rules with a proper suffix and the exceptions for the whole word, as often as put in")
        if got: got.append(None); got.pop(0)                 # a caller may use the list
    t2 = LemmaTransformationTrie.build([])
    ensure(all(list(t2.get_applicable_rules(w)) == [] for w in words), "an empty trie offers nothing and tries share nothing")


def small():
    import itertools
    w = ["".join(p) for n in range(4) for p in itertools.product("ab", repeat=n)]
    rules = [((s, "x", e), k) for k, (s, e) in enumerate(itertools.product(w, [False, True]))]
    yield rules, w + ["aabb", "bbbb", "abab"]
    for a in range(0, len(rules), 1):
        for b in range(0, len(rules), 3): yield [rules[a], rules[b]], w


@check("C10", cases=small)
def all_small_rules(c):
    trie(c)


@check("C10", gen=lambda rng, i: [(gen_str(rng, alphabet=rng.choice(["ab", "aAb", "абА"]), nonempty=True, small=4), gen_str(rng, alphabet="ab", small=4)) for _ in range(max(1, size(rng, 6)))], n=2000)
def learned_rules_are_offered(pairs):
    rs = [LemmaSuffixTransformation.get_rule(w, l) for w, l in pairs]
    t = LemmaTransformationTrie.build([(r, k) for k, r in enumerate(rs)])
    for k, (w, l) in enumerate(pairs):
        got = t.get_applicable_rules(w)
        ensure(any(r == rs[k] and j == k for r, j in got), "the rule learned from a word is offered for it")


class Data(object):
    def __init__(self, docs): self.docs = docs
    def __iter__(self): return iter(self.docs)


def gen_train(rng, i):
    docs = []
    for _ in range(rng.randint(1, 2)):
        d = gen_doc(rng, kinds=("none",), empty=0, annotate=False)
        for t in d["tokens"]:
            w = t["text_replacement"] if t["text_replacement"] is not None else d["text"][t["start"]:t["end"]]
            t["lemma"] = w[:rng.randint(0, len(w))] + gen_str(rng, alphabet="ab", small=2)
        docs.append(d)
    return docs, rng.choice([0, 0, 1, 2])


@check("C10", gen=gen_train, n=1000)
def applicability_vector(c):
    docs, threshold = c
    assume(any(d["tokens"] for d in docs))
    data = Data([mk_doc(d) for d in docs])
    rb = CachedSuffixRulesBuilder(threshold)
    ext, _, ini = ApplicableSuffixTransformationsBuilder("f", rb).build(data)
    lext, lint, lini = LemmaSuffixTransformationFeatureExtractorBuilder("l", rb).build(data)
    n = ini.shapes()["f"][0]
    ensure(lini.shapes()["l"]["LEMMA"] == n, "one flag per rule")
    counts = Counter()
    toks = [t for d in data for t in d.tokens]
    for t in toks:
        r = LemmaSuffixTransformation.get_rule(t.text.lower(), t.lemma.lower())
        counts[r] += 1
    top = max(counts.values())
    vocab = set(r for r in counts if threshold <= 0 or counts[r] > threshold)
    ids = {}
    for t in toks:
        r = LemmaSuffixTransformation.get_rule(t.text.lower(), t.lemma.lower())
        k = lext.get_features(t)["l"][0]
        ensure(0 <= k < n, "label ids are indexes of the vector")
        if r in vocab or (len(vocab) < n and k != 0): ids[r] = k
    for t in toks:
        v = ext.get_features(t)["f"]
        ensure(len(v) == n, "the vector has one entry per rule")
        w = t.text.lower()
        for r, k in ids.items():
            want = (not r.is_regular and r.word_suffix == w) or (r.is_regular and len(r.word_suffix) < len(w) and w.endswith(r.word_suffix))
            ensure(bool(v[k]) == want, "flags mark exactly the offered rules")
        r = LemmaSuffixTransformation.get_rule(w, t.lemma.lower())
        if r in vocab: ensure(v[lext.get_features(t)["l"][0]] == True, "the rule of a training token is flagged for it")
