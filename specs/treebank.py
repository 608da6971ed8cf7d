"""Generator of treebanks (plain data), renderer and independent scoring oracle for C17, C18 and C20."""
import itertools

WFORMS = ["a", "b", "ab", "A", "B", "aB", "x", "ba", "İ", "ß"]
UPOSES, XPOSES, FEATSS = ["N", "V", "_"], ["x", "y"], ["_", "A=1", "A=2|B=1"]
RELS = ["nsubj", "obj", "aux", "punct", "case:loc", "nmod:poss", "nmod", "det", "root", "aux:pass"]


def gen_chars(rng):
    al = rng.choice(["ab", "abAB", "abc", "a"])
    return "".join(rng.choice(al) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])))


def gen_heads(rng, n):
    order = list(range(n))
    if rng.random() < 0.7: rng.shuffle(order)
    h = [0] * n
    for k in range(1, n): h[order[k]] = order[rng.randrange(k)] + 1 if rng.random() < 0.6 else order[k - 1] + 1
    return h


def gen_tokens(rng, chars, mwt, like=None):
    cuts = sorted(rng.sample(range(1, len(chars)), rng.randint(0, len(chars) - 1)))
    if like is not None and rng.random() < 0.7:
        cuts = [t["start"] for t in like if t["start"]]
        for _ in range(rng.choice([0, 1, 2, 3])):
            p = rng.randint(1, len(chars) - 1) if len(chars) > 1 else None
            if p is None: break
            if p in cuts: cuts.remove(p)
            else: cuts.append(p)
        cuts.sort()
    toks = []
    for a, b in zip([0] + cuts, cuts + [len(chars)]):
        words = None
        twin = next((t for t in like or [] if (t["start"], t["end"]) == (a, b)), None)
        if twin is not None and rng.random() < 0.6: words = None if twin["words"] is None else [dict(w) for w in twin["words"]]
        elif rng.random() < mwt: words = [{"form": rng.choice(WFORMS) if rng.random() < 0.7 else chars[max(0, a - 2):b + 2][:rng.randint(1, 4)] or "a"} for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        form = chars[a:b]
        if b - a > 1 and rng.random() < 0.1: form = form[:1] + " " + form[1:]
        toks.append({"start": a, "end": b, "form": form, "words": words})
    return toks


def gen_treebank(rng, chars, mwt=0.3, like=None):
    toks = gen_tokens(rng, chars, mwt, None if like is None else [t for s in like for t in s["tokens"]])
    sents, i = [], 0
    while i < len(toks):
        k = rng.choice([1, 2, 3, 4, len(toks), len(toks)])
        sents.append({"tokens": toks[i:i + k]})
        i += k
    for s in sents:
        ws = list(words_of(s))
        hs = gen_heads(rng, len(ws))
        for (t, w), h in zip(ws, hs):
            w.update({"lemma": rng.choice(["l", "m"]), "upos": rng.choice(UPOSES), "xpos": rng.choice(XPOSES), "feats": rng.choice(FEATSS), "head": h, "rel": rng.choice(RELS)})
    return sents


def words_of(s):
    for t in s["tokens"]:
        if t["words"] is None: yield t, t
        else:
            for w in t["words"]: yield t, w


def annotate_like(rng, tb, ref):
    """give tb much of the annotation of ref, by word order"""
    src = [w for s in ref for _, w in words_of(s)]
    for s in tb:
        for (t, w), r in zip(words_of(s), src):
            for k in ("lemma", "upos", "xpos", "feats", "rel"):
                if rng.random() < 0.75: w[k] = r[k]


def line(i, w, form=None):
    return "\t".join([str(i), form or w["form"], w["lemma"], w["upos"], w["xpos"], w["feats"], str(w["head"]), w["rel"], "_", "_"])


def render(tb):
    out = []
    for s in tb:
        i = 1
        for t in s["tokens"]:
            if t["words"] is None:
                out.append(line(i, t))
                i += 1
            else:
                out.append("\t".join(["%d-%d" % (i, i + len(t["words"]) - 1), t["form"]] + ["_"] * 8))
                for w in t["words"]:
                    out.append(line(i, w))
                    i += 1
        out.append("")
    return "\n".join(out + [""]) if out else ""


# ---------------------------------------------------------------- scoring oracle

METRICS = ("Words", "UPOS", "XPOS", "Feats", "AllTags", "Lemmas", "UAS", "LAS", "CLAS")
FUNCTIONAL = {"aux", "case", "cc", "clf", "cop", "det", "mark", "punct"}


def flat(tb):
    out, base = [], 0
    for s in tb:
        ws = list(words_of(s))
        for t, w in ws:
            out.append({"span": (t["start"], t["end"]), "mw": t["words"] is not None, "form": w["form"].lower() if t["words"] is not None else w["form"].replace(" ", "").lower(), "w": w,
                        "parent": None if w["head"] == 0 else base + w["head"] - 1, "rel": w["rel"].split(":")[0]})
        base += len(ws)
    return out


def all_lcs(xs, ys, cap=200):
    """every longest common subsequence alignment (list of index pairs), or None when there are too many"""
    n, m = len(xs), len(ys)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            L[i][j] = max(L[i + 1][j], L[i][j + 1], 1 + L[i + 1][j + 1] if xs[i] == ys[j] else 0)
    res = [((), 0, 0)]
    for step in range(L[0][0]):
        new = []
        for pairs, i, j in res:
            for a in range(i, n):
                for b in range(j, m):
                    if xs[a] == ys[b] and 1 + L[a + 1][b + 1] == L[0][0] - step: new.append((pairs + ((a, b),), a + 1, b + 1))
        res = new
        if len(res) > cap: return None
    return [p for p, _, _ in res]


def alignments(gold, system, cap=200):
    g, s = flat(gold), flat(system)
    spans = sorted({w["span"] for w in g + s if w["mw"]})
    comps = []
    for a, b in spans:
        if comps and a < comps[-1][1]: comps[-1][1] = max(comps[-1][1], b)
        else: comps.append([a, b])
    fixed, choices = [], []
    touch = lambda w: any(w["span"][0] < b and a < w["span"][1] for a, b in comps)
    by_span = {w["span"]: j for j, w in enumerate(s) if not touch(w)}
    for i, w in enumerate(g):
        if not touch(w) and w["span"] in by_span: fixed.append((i, by_span[w["span"]]))
    for a, b in comps:
        gi = [i for i, w in enumerate(g) if a <= w["span"][0] and w["span"][1] <= b]
        si = [i for i, w in enumerate(s) if a <= w["span"][0] and w["span"][1] <= b]
        al = all_lcs([g[i]["form"] for i in gi], [s[i]["form"] for i in si], cap)
        if al is None: return None
        choices.append([[(gi[x], si[y]) for x, y in p] for p in al])
    tot = 1
    for c in choices: tot *= len(c)
    if tot > cap: return None
    return g, s, [fixed + [p for part in c for p in part] for c in itertools.product(*choices)]


def ratio(correct, gold, system, aligned=None):
    return (correct / system if system else 0.0, correct / gold if gold else 0.0, 2 * correct / (gold + system) if gold + system else 0.0,
            None if aligned is None else correct / aligned if aligned else 0)


def spans_score(gold, system):
    return ratio(len(set(gold) & set(system)), len(gold), len(system))


def scores(gold, system, weights=None, cap=200):
    """the list of possible score tables (one per choice of longest common subsequences), or None"""
    al = alignments(gold, system, cap)
    if al is None: return None
    g, s, options = al
    sent = lambda tb: [(x["tokens"][0]["start"], x["tokens"][-1]["end"]) for x in tb]
    toks = lambda tb: [(t["start"], t["end"]) for x in tb for t in x["tokens"]]
    base = {"Tokens": spans_score(toks(gold), toks(system)), "Sentences": spans_score(sent(gold), sent(system))}
    res = []
    for pairs in options:
        back = {j: i for i, j in pairs}
        gp = lambda i: "root" if g[i]["parent"] is None else g[i]["parent"]
        sp = lambda j: "root" if s[j]["parent"] is None else back.get(s[j]["parent"])
        col = lambda *ks: (lambda i, j: all(g[i]["w"][k] == s[j]["w"][k] for k in ks))
        las = lambda i, j: gp(i) == sp(j) and g[i]["rel"] == s[j]["rel"]
        one = lambda w: 1
        clas = lambda w: 0.0 if w["rel"] in FUNCTIONAL else 1.0
        table = {"UPOS": (col("upos"), one), "XPOS": (col("xpos"), one), "Feats": (col("feats"), one), "AllTags": (col("upos", "xpos", "feats"), one), "Lemmas": (col("lemma"), one),
                 "UAS": (lambda i, j: gp(i) == sp(j), one), "LAS": (las, one), "CLAS": (las, clas)}
        if weights is not None: table["WeightedLAS"] = (las, lambda w: weights.get(w["rel"], 1.0))
        out = dict(base)
        out["Words"] = ratio(len(pairs), len(g), len(s))
        for m, (ok, wt) in table.items():
            out[m] = ratio(sum(wt(g[i]) for i, j in pairs if ok(i, j)), sum(map(wt, g)), sum(map(wt, s)), sum(wt(g[i]) for i, j in pairs))
        res.append(out)
    return res


def close(a, b):
    return (a is None and b is None) or (a is not None and b is not None and abs(a - b) < 1e-9)


def same_table(scores_obj, table):
    return set(scores_obj) == set(table) and all(all(close(x, y) for x, y in zip((s.precision, s.recall, s.f1, s.aligned_accuracy), table[m])) for m, s in scores_obj.items())
