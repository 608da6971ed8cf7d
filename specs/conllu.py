"""CoNLL-U texts as plain data: generator, renderer, expected content."""
from specs.gen import *
from rt.core import gen_str, size

ID, FORM, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL, DEPS, MISC = range(10)
MISCS = ["_", "_", "Gloss=x", "Ref=1|Lang=en", "Translit=a=b", "Typo", "NoSpaceAfter=x", "LSpaceAfter=No"]


def gen_form(rng, space=True):
    w = gen_str(rng, nonempty=True, small=4).replace("\t", "x")
    if rng.random() < 0.04: w = "_"
    if rng.random() < 0.03: w = "#" + w
    if space and rng.random() < 0.04: w = w + " " + gen_str(rng, nonempty=True, small=2)
    return w


def gen_misc(rng, no_space):
    m = rng.choice(MISCS)
    if not no_space: return m
    if m == "_": return "SpaceAfter=No"
    return rng.choice(["SpaceAfter=No|" + m, m + "|SpaceAfter=No"])


def gen_fstr(rng):
    f = gen_feats(rng, extra=("a=b", "", "x=y=z") if rng.random() < 0.15 else ())
    if not f: return "_", {}
    return "|".join("%s=%s" % kv for kv in f.items()), f


def gen_sentence(rng, n, heads, mwt=0.2, extra=True):
    """entries of a sentence with n words"""
    out, k = [], 0
    if extra:
        for _ in range(rng.choice([0, 0, 1, 2])): out.append(("comment", rng.choice(["# sent_id = 1", "#", "# text = a b", "#1\tx"])))

    def word():
        nonlocal k
        c = ["_"] * 10
        c[ID], c[FORM] = str(k + 1), gen_form(rng)
        c[LEMMA] = "_" if rng.random() < 0.15 else gen_form(rng)
        c[UPOS], c[XPOS] = [("_" if rng.random() < 0.15 else rng.choice(TAGS)) for _ in range(2)]
        c[FEATS] = gen_fstr(rng)[0]
        c[HEAD] = "_" if heads[k] is None else str(heads[k] + 1)
        c[DEPREL] = "_" if heads[k] is None or rng.random() < 0.1 else rng.choice(RELS)
        c[DEPS] = rng.choice(["_", "1:x", "0:root|2:y"])
        c[MISC] = gen_misc(rng, rng.random() < 0.3)
        k += 1
        return c

    def empty_node(first=True, m=0):
        c = ["_"] * 10
        m += 1 if first or rng.random() < 0.8 else rng.choice([2, 9, 30])
        c[ID], c[FORM], c[DEPS] = "%d.%d" % (k, m), gen_form(rng), "1:x"
        if rng.random() < 0.5: c[UPOS] = "NOUN"
        r = [("empty", c)]
        if rng.random() < 0.4: r += empty_node(False, m)
        return r
    while k < n:
        if extra and rng.random() < 0.05: out += empty_node()
        if extra and rng.random() < 0.03: out.append(("comment", "# inside"))
        if rng.random() < mwt:
            m = min(n - k, rng.choice([1, 2, 2, 3, 5, 12]))
            head = ["_"] * 10
            head[ID], head[FORM], head[MISC] = "%d-%d" % (k + 1, k + m), gen_form(rng), gen_misc(rng, rng.random() < 0.3)
            ws = []
            for j in range(m):
                ws.append(("word", word()))
                if extra and j < m - 1 and rng.random() < 0.04: ws += empty_node()
            out.append(("mwt", head, ws))
        else: out.append(("word", word()))
    if extra and rng.random() < 0.05: out += empty_node()
    if extra and rng.random() < 0.03: out.append(("comment", "# end"))
    return out


def gen_file(rng, nsent=None, kinds=("tree",), extra=True):
    n = size(rng, 5) if nsent is None else nsent
    out = []
    for _ in range(min(n, 60)):
        m = max(1, min(size(rng, 5), 40))
        out.append(gen_sentence(rng, m, gen_heads(rng, m, rng.choice(kinds)), extra=extra))
    return out


def render(sents, eol="\n"):
    out = []
    for s in sents:
        for e in s:
            if e[0] == "comment": out.append(e[1])
            elif e[0] == "mwt":
                out.append("\t".join(e[1]))
                out += ["\t".join(w[1]) for w in e[2]]
            else: out.append("\t".join(e[1]))
        out.append("")
    return "".join(x + eol for x in out)


def nospace(misc):
    return any(x == "SpaceAfter=No" for x in misc.split("|"))


def feats_of(s):
    if s == "_": return {}
    return {x.split("=")[0]: "=".join(x.split("=")[1:]) for x in s.split("|")}


def expected(sents, limit, columns):
    """documents that reading must give"""
    docs, i = [], 0
    columns = set(columns) | ({HEAD} if DEPREL in columns else set())
    while i < len(sents):
        text, toks, bounds, sheads = "", [], [], []
        for s in sents[i:i + limit]:
            a = len(toks)
            sheads.append([])

            def add(c, st, en, k, repl):
                def col(x): return c[x] if x in columns and c[x] != "_" else None
                pos = None
                if columns & {UPOS, XPOS, FEATS}: pos = (col(UPOS), col(XPOS), feats_of(c[FEATS]) if FEATS in columns else {})
                h = col(HEAD)
                h = None if h is None else int(h) - 1
                sheads[-1].append(h)
                toks.append({"start": st, "end": en, "pos": pos, "lemma": col(LEMMA), "deprel": col(DEPREL), "sub_index": k, "text_replacement": repl,
                             "has_head": h is not None, "is_root": h == -1, "is_multiword": repl is not None, "extras": {},
                             "head": None if h is None else -1 if h == -1 else h + a, "text": c[FORM]})
            for e in s:
                if e[0] == "word":
                    st = len(text); text += e[1][FORM]; en = len(text)
                    if not nospace(e[1][MISC]): text += " "
                    add(e[1], st, en, 0, None)
                elif e[0] == "mwt":
                    st = len(text); text += e[1][FORM]; en = len(text)
                    if not nospace(e[1][MISC]): text += " "
                    k = 0
                    for w in e[2]:
                        if w[0] == "word": add(w[1], st, en, k, w[1][FORM]); k += 1
            bounds.append((a, len(toks)))
        docs.append({"text": text, "tokens": toks, "sentences": bounds, "sentence_heads": sheads})
        i += limit
    return docs
