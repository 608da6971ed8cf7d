"""C18: the scoring loader accepts exactly valid treebanks."""
from io import StringIO
from pydv.speclib import *
from rt.core import check
from specs.treebank import *
from babylondigger.evaluation import conll17_ud_eval as conll17

NUM = ["0", "1", "2", "3", "5", "9", "-1", "-2", "_", "x", "", "1.5", "1-2", "12"]


def gen1(rng, i):
    chars = gen_chars(rng)
    tb = gen_treebank(rng, chars, rng.choice([0, 0.3, 0.6]))
    lines = []
    for s in tb:
        for _ in range(rng.choice([0, 0, 1, 2])): lines.append(rng.choice(["# text = x", "#", "#1\t2", "# a\tb\tc\td\te\tf\tg\th\ti\tj"]))
        for x in render([s]).split("\n")[:-2]:
            lines.append(x)
            if rng.random() < 0.05: lines.append("\t".join([x.split("\t")[0].split("-")[0] + ".1", rng.choice(["e", ""])] + ["_"] * 8))
        lines.append("")
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])): lines = mutate(rng, lines)
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    text = nl.join(lines)
    if lines: text += nl
    if rng.random() < 0.08: text = text[:-len(nl)]
    return text


def mutate(rng, lines):
    lines = list(lines)
    if not lines: return lines
    i = rng.randrange(len(lines))
    cols = lines[i].split("\t")
    r = rng.random()
    if r < 0.4 and len(cols) == 10:
        k = rng.choice([0, 1, 6, 6, 6, 6])
        cols[k] = rng.choice(NUM) if k != 1 else rng.choice(["", " ", "  ", "ab"])
        lines[i] = "\t".join(cols)
    elif r < 0.5: del lines[i]
    elif r < 0.6: lines.insert(i, rng.choice(["", "# c", "x", " "]))
    elif r < 0.7: lines.insert(i, lines[rng.randrange(len(lines))])
    elif r < 0.8: lines[i] = lines[i] + "\t_"
    elif r < 0.9 and len(cols) > 1: lines[i] = "\t".join(cols[:-1])
    else: lines.append(rng.choice(["# end", "", "1"]))
    return lines


def number(s):
    """value of a canonical decimal number, None otherwise"""
    return int(s) if s.lstrip("-").isdigit() and s.count("-") <= 1 and s[:1] != "+" and s.isascii() else None


def expected(text):
    """what must be loaded, None if the text must be refused; Skip for texts the property does not speak about"""
    if text and not text.endswith("\n"): text += "\n"      # the last line may lack a line end
    lines = [l.rstrip("\r\n") for l in text.split("\n")[:-1]]
    words, tokens, sents, chars = [], [], [], ""
    i, n = 0, len(lines)
    while i < n:
        if lines[i].startswith("#"): i += 1; continue
        start, first = len(words), len(chars)
        pending = 0
        while i < n and lines[i] != "":
            cols = lines[i].split("\t")
            i += 1
            if len(cols) != 10: return None
            if "." in cols[0]: continue
            if pending:
                pending -= 1
                h = number(cols[6])
                if h is None or h < 0: return None
                words.append({"span": tokens[-1], "cols": cols, "mw": True})
                continue
            form = cols[1].replace(" ", "")
            if not form: return None
            tokens.append((len(chars), len(chars) + len(form)))
            chars += form
            if "-" in cols[0]:
                ab = cols[0].split("-")
                if len(ab) != 2 or number(ab[0]) is None or number(ab[1]) is None: return None
                pending = int(ab[1]) - int(ab[0]) + 1
                assume(pending > 0 and int(ab[0]) == len(words) - start + 1)      # ranges that do not fit are not claimed
            else:
                if number(cols[0]) != len(words) - start + 1: return None
                h = number(cols[6])
                if h is None or h < 0: return None
                cols[1] = form
                words.append({"span": tokens[-1], "cols": cols, "mw": False})
        if i == n or pending: return None                  # no empty line, or a multiword token is cut short
        i += 1
        ws = words[start:]
        heads = [int(w["cols"][6]) for w in ws]
        if any(h > len(ws) for h in heads) or heads.count(0) != 1: return None
        reach, todo = set(), [heads.index(0) + 1]
        while todo:
            x = todo.pop()
            if x in reach: continue
            reach.add(x)
            todo += [k + 1 for k, h in enumerate(heads) if h == x]
        if len(reach) != len(ws): return None
        for w, h in zip(ws, heads): w["parent"] = None if h == 0 else start + h - 1
        sents.append((first, len(chars)))
    return {"chars": chars, "tokens": tokens, "words": words, "sents": sents}


@check("C18", gen=gen1, n=3000)
def loader(text):
    want = expected(text)
    try: ud = conll17.load_conllu(StringIO(text))
    except conll17.UDError:
        ensure(want is None, "a valid treebank is loaded")
        return
    ensure(want is not None, "an invalid treebank is refused")
    compare(ud, want)


def compare(ud, want):
    assume(all(hasattr(ud, a) for a in ("characters", "tokens", "sentences", "words")))     # the representation is internal
    assume(all(hasattr(w, a) for w in ud.words for a in ("span", "is_multiword", "columns", "parent")))
    ensure("".join(ud.characters) == want["chars"], "the characters of the tokens")
    ensure([(t.start, t.end) for t in ud.tokens] == want["tokens"], "the token spans")
    ensure([(t.start, t.end) for t in ud.sentences] == want["sents"], "the sentence spans")
    ensure(len(ud.words) == len(want["words"]), "the number of words")
    for w, x in zip(ud.words, want["words"]):
        ensure((w.span.start, w.span.end) == x["span"], "the span of every word")
        ensure(bool(w.is_multiword) == x["mw"], "which words belong to multiword tokens")
        ensure(w.columns[:7] == x["cols"][:7] and w.columns[7] == x["cols"][7].split(":")[0] and w.columns[8:] == x["cols"][8:], "the columns of every word")
        ensure(w.parent is (None if x["parent"] is None else ud.words[x["parent"]]), "the head of every word")


def chain(n, kind):
    """a long sentence: chains and cycles"""
    heads = {"up": lambda i: i - 1, "down": lambda i: 0 if i == n else i + 1, "cycle": lambda i: 0 if i == 1 else n if i == 2 else i - 1}[kind]
    return "".join("\t".join([str(i), "w", "_", "_", "_", "_", str(heads(i)), "dep", "_", "_"]) + "\n" for i in range(1, n + 1)) + "\n"


@check("C18", cases=lambda: [(n, k) for n in (1, 2, 3, 4, 50, 400, 3000) for k in ("up", "down", "cycle")])
def long_sentences(c): loader(chain(*c))


def small_trees():
    import itertools
    for n in range(1, 5):
        for hs in itertools.product(range(-1, n + 2), repeat=n): yield hs


@check("C18", cases=small_trees)
def all_small_head_assignments(hs):
    n = len(hs)
    plain = ["\t".join([str(i + 1), "w", "_", "_", "_", "_", str(h), "dep", "_", "_"]) for i, h in enumerate(hs)]
    good = "1\tw\t_\t_\t_\t_\t0\troot\t_\t_\n\n"
    loader("\n".join(plain + ["", ""]))
    loader(good + "\n".join(plain + ["", ""]) + good)
    loader(good + "\n".join(["1-%d\tww\t_\t_\t_\t_\t_\t_\t_\t_" % n] + plain + ["", ""]))
