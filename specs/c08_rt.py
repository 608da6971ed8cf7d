import copy
from pydv.speclib import *
from rt.core import check
from specs.gen import *
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation
from rt.core import gen_str


class Other(object):
    pass


OTHERS = [None, 1, "x", (), {}, [], Other(), object()]


def never_error(x):
    for o in OTHERS:
        ensure((x == o) is False and (x != o) is True and (o == x) is False, "comparison with another kind of object is False, never an error")


def exact(make, a, b, what, hashed=True):
    x, y, x2 = make(a), make(b), make(copy.deepcopy(a))
    ensure((x == y) == (a == b) and (y == x) == (a == b), what + ": equal exactly when the content is equal")
    ensure((x != y) == (a != b), what + ": != is the negation of ==")
    ensure(x == x2 and not (x != x2), what + ": equal content is equal")
    if hashed: ensure(hash(x) == hash(x2) and (a != b or hash(x) == hash(y)), what + ": equal values have equal hashes")
    never_error(x)


def order(xs, data, what):
    for i in range(len(xs)):
        for j in range(len(xs)):
            a, b = xs[i], xs[j]
            lt, gt, eq = a < b, b < a, a == b
            ensure(int(bool(lt)) + int(bool(gt)) + int(eq) == 1, what + ": exactly one of <, ==, > holds")
            ensure((a <= b) == (lt or eq) and (a >= b) == (gt or eq) and (a > b) == gt, what + ": <=, >=, > agree")
            for c in xs:
                if lt and b < c: ensure(a < c, what + ": transitive")
    s = sorted(xs)
    ensure(all(not (s[k + 1] < s[k]) for k in range(len(s) - 1)), what + ": sorting works")


def vary_pos(rng, p):
    p = [p[0], p[1], dict(p[2] or {})]
    r = rng.random()
    if r < 0.2: p[0] = rng.choice([None] + TAGS + [""])
    elif r < 0.4: p[1] = rng.choice([None] + TAGS + [""])
    elif r < 0.8:
        k = rng.choice(FKEYS)
        if k in p[2] and rng.random() < 0.4: del p[2][k]
        else: p[2][k] = rng.choice(FVALS + [""])
    elif r < 0.9 and p[2]:
        items = list(p[2].items()); rng.shuffle(items); p[2] = dict(items)
    return tuple(p)


def gen_p(rng, i):
    p = gen_pos(rng, none=0, tag_none=0.25)
    ps = [vary_pos(rng, p)]
    for _ in range(rng.randint(1, 4)): ps.append(vary_pos(rng, rng.choice(ps)))
    return ps


@check("C08", gen=gen_p, n=2500)
def parts_of_speech(ps):
    mk = lambda p: Pos(p[0], p[1], dict(p[2]))
    for a in ps[:2]:
        for b in ps: exact(mk, a, b, "Pos")
    order([mk(p) for p in ps], ps, "Pos")
    ensure(Pos(ps[0][0], ps[0][1]) == Pos(ps[0][0], ps[0][1], {}) and hash(Pos("a")) == hash(Pos("a", None, {})), "Pos: absent features are no features")
    try: Pos("a") < 3
    except TypeError: pass


def gen_r(rng, i):
    def one():
        return (gen_str(rng, alphabet="ab", small=2), gen_str(rng, alphabet="ab", small=2), rng.random() < 0.5)
    return [one() for _ in range(rng.randint(1, 5))]


@check("C08", gen=gen_r, n=2500)
def lemma_rules(rs):
    mk = lambda r: LemmaSuffixTransformation(*r)
    for a in rs[:2]:
        for b in rs: exact(mk, a, b, "rule")
    order([mk(r) for r in rs], rs, "rule")
    ensure(len({mk(r) for r in rs}) == len(set(rs)), "rule: sets keep one of each")


@check("C08", gen=lambda rng, i: (gen_extras(rng) or {}, gen_extras(rng) or {}), n=800)
def extras(c):
    exact(lambda d: TokenExtras(copy.deepcopy(d)), c[0], c[1], "extras", hashed=False)


@check("C08", gen=lambda rng, i: ((rng.randint(0, 2), rng.randint(3, 5)), (rng.randint(0, 2), rng.randint(3, 5))), n=400)
def sentences(c):
    exact(lambda s: Sentence(*s), c[0], c[1], "sentence", hashed=False)


def norm(t):
    return dict(spec_attrs(t), hd=t.get("hd"), hs=t.get("hs"))


def vary_token(rng, t):
    t = copy.deepcopy(t)
    r = rng.randrange(11)
    if r == 0: t["pos"] = gen_pos(rng)
    elif r == 1: t["lemma"] = gen_lemma(rng)
    elif r == 2: t["deprel"] = rng.choice([None] + RELS)
    elif r == 3: t["hd"] = rng.choice([None, -1, 0, 1])
    elif r == 4: t["hs"] = rng.choice([None, -1, 0, 1])
    elif r == 5: t["start"] = max(0, t["start"] - 1)
    elif r == 6: t["end"] += 1
    elif r == 7 and t.get("text_replacement") is not None: t["sub_index"] = t.get("sub_index", 0) + 1
    elif r == 8: t["text_replacement"] = (t.get("text_replacement") or "") + "q"
    elif r == 9: t["extras"] = gen_extras(rng)
    elif r == 10 and t.get("pos") is not None: t["pos"] = vary_pos(rng, t["pos"])
    return t


def gen_t(rng, i):
    d = gen_doc(rng, nmax=2, kinds=("tree", "none", "wild"), empty=0)
    t = d["tokens"][0] if d["tokens"] else {"start": 0, "end": 1}
    return (t, vary_token(rng, t))


@check("C08", gen=gen_t, n=4000)
def tokens(c):
    a, b = c
    na, nb = norm(a), norm(b)
    only_sentence_view = na != nb and dict(na, hs=0, has_head=0, is_root=0) == dict(nb, hs=0, has_head=0, is_root=0)
    x, y = mk_token(a), mk_token(b)
    assume(not only_sentence_view)        # see token_sentence_view
    ensure((x == y) == (na == nb) and (y == x) == (na == nb) and (x != y) == (na != nb), "token: equal exactly when the content is equal")
    ensure(x == mk_token(copy.deepcopy(a)), "token: equal content is equal")
    never_error(x)


@check("C08", cases=lambda: [(None, -1), (0, 1), (-1, 0)])
def token_sentence_view(c):
    x, y = Token(0, 1, head_sentence_index=c[0]), Token(0, 1, head_sentence_index=c[1])
    ensure((x == y) is False and (y == x) is False, "tokens that differ only in the sentence view of the head are not equal")


def gen_d(rng, i):
    d = gen_doc(rng, kinds=("tree", "none", "wild"), empty=0.3)
    e = copy.deepcopy(d)
    r = rng.random()
    if r < 0.15: e["text"] += "x"
    elif r < 0.3 and e["tokens"]: e["sentences"] = gen_cuts(rng, len(e["tokens"]))
    elif r < 0.8 and e["tokens"]:
        k = rng.randrange(len(e["tokens"]))
        e["tokens"][k] = vary_token(rng, e["tokens"][k])
    elif r < 0.9 and e["tokens"]: e["tokens"].pop()
    return (d, e)


@check("C08", gen=gen_d, n=3000)
def documents(c):
    a, b = c
    ea, eb = expect(a), expect(b)
    assume(ea is not None and eb is not None)
    x, y, x2 = mk_doc(a), mk_doc(b), mk_doc(copy.deepcopy(a))
    want = ea == eb
    strip = lambda e: dict(e, sentence_heads=0, tokens=[dict(t, is_root=0) for t in e["tokens"]])
    assume(want or strip(ea) != strip(eb))       # (heads differing in the sentence view alone: see tokens)
    ensure((x == y) == want and (y == x) == want and (x != y) == (not want), "document: equal exactly when the content is equal")
    ensure(x == x2, "document: equal content is equal")
    never_error(x)
    for u, v in zip(x.sentences, x2.sentences): ensure(u == v, "sentences of equal documents are equal")
    for u in x.sentences: never_error(u)
    for o in OTHERS: ensure((x == o) is False, "document: other kinds are not equal")
