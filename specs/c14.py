"""C14: composing extractors, initializers and interpreters neither loses nor mixes features."""
from pydv.speclib import *
from pydv.types import *
from babylondigger.features.builder import EmptyFeatureExtractorBuilder, EmptyFeatureInitializer, FeatureExtractorBuilder, IterableFeatureExtractorBuilder, merge, CompositeFeatureExtractorBuilder, DoNothingInterpreter, CompositeFeatureExtractor, CompositeInitializer, CompositeInterpreter, IterableFeatureExtractor, IterableInterpreter

NAMES = ["a", "b", "c", "d", "e"]


class Part(object):
    """an extractor and initializer with given features"""
    def __init__(self, features):
        self.features = features

    def get_features(self, obj, **kwargs): return self.features
    def shapes(self): return self.features
    def initial_values(self): return self.features
    def build(self, dataset): return self, DoNothingInterpreter(), self


def gen_parts(rng):
    many = rng.random() < 0.3
    left = list(NAMES)
    rng.shuffle(left)
    parts = []
    for _ in range(rng.randint(0, 4)):
        k = rng.randint(0, 2)
        parts.append({n: rng.randint(0, 9) for n in (rng.sample(NAMES, k) if many else left[:k])})
        left = left[k:]
    return dict(parts=parts, name=rng.choice(NAMES))


def union(r, parts, name):
    """r is the union of the parts, or refused because two of them have a name in common"""
    n = len(parts)
    twice = exists(0, n, lambda i: exists(0, i, lambda j: not every_name(NAMES, lambda x: not (x in parts[i] and x in parts[j]))))
    ensure(r.ok or r.refused(), "union or refusal with ValueError")
    ensure(r.ok == (not twice), "refused exactly if two parts have a name in common")
    if r.ok:
        v = r.value
        ensure((name in v) == exists(0, n, lambda i: name in parts[i]), "exactly the names of the parts")
        ensure(forall(0, n, lambda i: implies(name in parts[i], name in v and v.get(name) == parts[i].get(name))), "every value is the one of its part")


@lemma("C14", gen=gen_parts, parts=List(Dict(Str, Int)), name=Str)
def composed_features(parts, name):
    invariant(lambda k, result: forall(0, k, lambda i: every_name(NAMES, lambda x: implies(x in parts[i], x in result and result.get(x) == parts[i].get(x)))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, exists(0, k, lambda i: x in parts[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: forall(0, k, lambda i: forall(0, i, lambda j: every_name(NAMES, lambda x: not (x in parts[i] and x in parts[j])))), depth=0, result="DictT(StrT")
    union(attempt(lambda: CompositeFeatureExtractor([Part(p) for p in parts]).get_features(None)), parts, name)


@lemma("C14", gen=gen_parts, parts=List(Dict(Str, Int)), name=Str)
def composed_shapes(parts, name):
    invariant(lambda k, result: forall(0, k, lambda i: every_name(NAMES, lambda x: implies(x in parts[i], x in result and result.get(x) == parts[i].get(x)))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, exists(0, k, lambda i: x in parts[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: forall(0, k, lambda i: forall(0, i, lambda j: every_name(NAMES, lambda x: not (x in parts[i] and x in parts[j])))), depth=0, result="DictT(StrT")
    union(attempt(lambda: CompositeInitializer([Part(p) for p in parts]).shapes()), parts, name)


@lemma("C14", gen=gen_parts, parts=List(Dict(Str, Int)), name=Str)
def composed_initial_values(parts, name):
    invariant(lambda k, result: forall(0, k, lambda i: every_name(NAMES, lambda x: implies(x in parts[i], x in result and result.get(x) == parts[i].get(x)))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, exists(0, k, lambda i: x in parts[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: forall(0, k, lambda i: forall(0, i, lambda j: every_name(NAMES, lambda x: not (x in parts[i] and x in parts[j])))), depth=0, result="DictT(StrT")
    union(attempt(lambda: CompositeInitializer([Part(p) for p in parts]).initial_values()), parts, name)


@lemma("C14", gen=gen_parts, parts=List(Dict(Str, Int)), name=Str)
def built_composition(parts, name):
    assume(len(parts) > 0)
    invariant(lambda k, result: forall(0, k, lambda i: every_name(NAMES, lambda x: implies(x in parts[i], x in result and result.get(x) == parts[i].get(x)))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, exists(0, k, lambda i: x in parts[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: forall(0, k, lambda i: forall(0, i, lambda j: every_name(NAMES, lambda x: not (x in parts[i] and x in parts[j])))), depth=0, result="DictT(StrT")
    built = attempt(lambda: CompositeFeatureExtractorBuilder([Part(p) for p in parts]).build([]))
    ensure(built.ok, "a composition can be built")
    extractor, interpreter, initializer = built.value
    union(attempt(lambda: extractor.get_features(None)), parts, name)
    union(attempt(lambda: initializer.shapes()), parts, name)


class Note(object):
    """an interpreter that notes its mark and the value it is handed"""
    def __init__(self, mark): self.mark = mark

    def interpret(self, obj, value): return obj + [(self.mark, value["a"], value["b"])]


def gen_notes(rng):
    return dict(obj=[(rng.randint(0, 3), 1, 2) for _ in range(rng.randint(0, 2))], marks=[rng.randint(0, 9) for _ in range(rng.randint(0, 4))], a=rng.randint(0, 9), b=rng.randint(0, 9))


@lemma("C14", gen=gen_notes, obj=List(Tup(Int, Int, Int)), marks=List(Int), a=Int, b=Int)
def composed_interpretation(obj, marks, a, b):
    n = len(obj)
    invariant(lambda k, result: len(result) == n + k, depth=0, result="ListT(TupT")
    invariant(lambda k, result: forall(0, n, lambda i: result[i] == obj[i]), depth=0, result="ListT(TupT")
    invariant(lambda k, result: forall(0, k, lambda i: result[n + i] == (marks[i], a, b)), depth=0, result="ListT(TupT")
    r = CompositeInterpreter([Note(m) for m in marks]).interpret(obj, {"a": a, "b": b})
    ensure(len(r) == n + len(marks), "every interpreter is applied once")
    ensure(forall(0, n, lambda i: r[i] == obj[i]), "the given object is interpreted")
    ensure(forall(0, len(marks), lambda i: r[n + i] == (marks[i], a, b)), "in order, with all values")


class Pair(object):
    """an element-wise interpreter, or extractor of two features"""
    def __init__(self, f=None, g=None): self.f, self.g = f, g
    def interpret(self, obj, value): return (obj, value["a"], value["b"])
    def get_features(self, obj, **kwargs): return {"a": self.f(obj), "b": self.g(obj)}


def gen_elements(rng):
    n = rng.randint(0, 5)
    return dict(objs=[rng.randint(0, 9) for _ in range(n)], a=[rng.randint(0, 9) for _ in range(n)], b=[rng.randint(0, 9) for _ in range(n)])


@lemma("C14", gen=gen_elements, objs=List(Int), a=List(Int), b=List(Int))
def elementwise_interpretation(objs, a, b):
    assume(len(a) == len(objs) and len(b) == len(objs))
    r = IterableInterpreter(Pair()).interpret(objs, {"a": a, "b": b})
    ensure(len(r) == len(objs), "one result for every element")
    ensure(forall(0, len(objs), lambda i: r[i] == (objs[i], a[i], b[i])), "every element gets its own values, in order")


def gen_functions(rng):
    c = [rng.randint(0, 9) for _ in range(4)]
    return dict(objs=[rng.randint(0, 9) for _ in range(rng.randint(0, 5))], f=lambda x: c[0] + c[1] * x, g=lambda x: c[2] - x * x, h=lambda x: c[3] * x)


@lemma("C14", gen=lambda rng: {k: v for k, v in gen_functions(rng).items() if k != "h"}, objs=List(Int), f=Fn([Int], Int), g=Fn([Int], Int))
def elementwise_extraction(objs, f, g):
    n = len(objs)
    assume(n > 0)
    invariant(lambda k, result: k == 0 or ("a" in result and "b" in result), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k > 0 or not ("a" in result or "b" in result), depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, x == "a" or x == "b")), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("a" in result and len(result["a"]) == k), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("b" in result and len(result["b"]) == k), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("a" in result and forall(0, k, lambda i: result["a"][i] == f(objs[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("b" in result and forall(0, k, lambda i: result["b"][i] == g(objs[i]))), depth=0, result="DictT(StrT")
    r = IterableFeatureExtractor(Pair(f, g)).get_features(objs)
    ensure("a" in r and "b" in r and every_name(NAMES, lambda x: implies(x in r, x == "a" or x == "b")), "the features of the elements")
    ensure(len(r["a"]) == n and len(r["b"]) == n, "one value for every element")
    ensure(forall(0, n, lambda i: r["a"][i] == f(objs[i]) and r["b"][i] == g(objs[i])), "every element keeps its own values, in order")


class Leaf(FeatureExtractorBuilder):
    """a builder of one feature"""
    def __init__(self, name, f): self.name, self.f = name, f
    def build(self, dataset): return self, DoNothingInterpreter(), EmptyFeatureInitializer()
    def get_features(self, obj, **kwargs): return {self.name: self.f(obj)}


class OtherLeaf(Leaf):
    pass


@lemma("C14", gen=gen_functions, objs=List(Int), f=Fn([Int], Int), g=Fn([Int], Int), h=Fn([Int], Int))
def merged_wrappers(objs, f, g, h):
    n = len(objs)
    assume(n > 0)
    invariant(lambda k, result: k > 0 or not ("a" in result or "b" in result or "c" in result), depth=0, result="DictT(StrT")
    invariant(lambda k, result: not "a" in result, depth=0, result="DictT(StrT")
    invariant(lambda k, result: not "b" in result, depth=0, result="DictT(StrT")
    invariant(lambda k, result: not "c" in result, depth=0, result="DictT(StrT")
    invariant(lambda k, result: every_name(NAMES, lambda x: implies(x in result, x == "a" or x == "b" or x == "c")), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("a" in result and len(result["a"]) == k and forall(0, k, lambda i: result["a"][i] == f(objs[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("b" in result and len(result["b"]) == k and forall(0, k, lambda i: result["b"][i] == g(objs[i]))), depth=0, result="DictT(StrT")
    invariant(lambda k, result: k == 0 or ("c" in result and len(result["c"]) == k and forall(0, k, lambda i: result["c"][i] == h(objs[i]))), depth=0, result="DictT(StrT")
    empty = EmptyFeatureExtractorBuilder
    sentences = IterableFeatureExtractorBuilder
    parts = [CompositeFeatureExtractorBuilder([sentences(Leaf("a", f)), empty()]), sentences(Leaf("b", g)), empty(),
             sentences(CompositeFeatureExtractorBuilder([OtherLeaf("c", h), empty()]))]
    r = merge(parts).build([])[0].get_features(objs)
    ensure("a" in r and "b" in r and "c" in r and every_name(NAMES, lambda x: implies(x in r, x == "a" or x == "b" or x == "c")), "the features of all parts")
    ensure(len(r["a"]) == n and len(r["b"]) == n and len(r["c"]) == n, "one value for every element")
    ensure(forall(0, n, lambda i: r["a"][i] == f(objs[i]) and r["b"][i] == g(objs[i]) and r["c"][i] == h(objs[i])), "every value is the one of its part, in order")
