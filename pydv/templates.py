"""Generic loop-invariant candidates.  A candidate is used only if the prover shows that it holds
on entry and is preserved by the loop body of the current source; wrong candidates are dropped."""
import itertools
import z3
from .values import *
from .engine import Scope, UNDEF, zb


def visible(info):
    s = info.fr.scope
    seen = {}
    while s is not None:
        for k, v in s.vars.items():
            if k not in seen and v is not UNDEF: seen[k] = v
        s = s.parent
    return seen


def string_prefix(info):
    """two strings that agree on every position compared so far agree as prefixes"""
    e = info.e
    vs = [(k, v) for k, v in visible(info).items() if is_zstr(v)]
    out = []
    for i in range(len(vs)):
        for j in range(i + 1, len(vs)):
            (na, a), (nb, b) = vs[i], vs[j]
            if a.eq(b): continue
            out.append(("common prefix of %s and %s" % (na, nb),
                        lambda k, a=a, b=b: prefix_eq(e, a, b, k)))
    return out[:6]


def prefix_eq(e, a, b, k):
    str_step(e, a, z3.simplify(k - 1)); str_step(e, b, z3.simplify(k - 1))
    return z3.SubString(a, 0, k) == z3.SubString(b, 0, k)


def str_step(e, a, k):
    """a[:k+1] == a[:k] + a[k]: proved once per run for all a, k, then instantiated"""
    def f(a, k): return z3.Implies(z3.And(k >= 0, k < z3.Length(a)), z3.SubString(a, 0, k + 1) == z3.Concat(z3.SubString(a, 0, k), z3.SubString(a, k, 1)))
    if not e.hints_on: return
    e.theorem("string prefix step", f(z3.String("ax_a"), z3.Int("ax_k")))
    e.assume(f(a, k))


def prefix_steps(e, x):
    """the step of every prefix s[:n] that a formula mentions"""
    seen, todo = set(), [x]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        todo += t.children()
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_string(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
            a = t.arg(0)
            str_step(e, a, z3.simplify(t.arg(2) - 1))
            ends = lambda s, k: z3.And(z3.Implies(k >= z3.Length(s), z3.SubString(s, 0, k) == s), z3.Implies(k <= 0, z3.SubString(s, 0, k) == z3.StringVal("")))
            e.theorem("the shortest and the longest prefix", ends(z3.String("ax_a"), z3.Int("ax_k")))
            e.assume(ends(a, t.arg(2)))


def int_bounds(info):
    """an integer loop variable stays non-negative / does not fall below its start value"""
    out = []
    for q, (cell, key) in info.mod.items():
        if not isinstance(info.types[q], IntT): continue
        i0 = info.init[q]
        if i0 is UNDEF: continue
        rd = info.read
        out.append(("%s#%d does not fall below its start" % (key, len(out)), lambda k, cell=cell, key=key, i0=i0: info.e.zi(rd(cell, key)) >= info.e.zi(i0)))
    return out


def spec_invariants(info):
    """invariants written in the specification: every assignment of modified state to their slots is tried"""
    e = info.e
    out = []
    slots = [("%s#%d" % (key if not isinstance(cell, (PList, PDict)) else "container", i), cell, key) for i, (q, (cell, key)) in enumerate(info.mod.items())]

    def cand(fn, combo, nm):
        def f(k):
            vals = [info.read(c, kx) for _, c, kx in combo]
            if any(v is UNDEF for v in vals): return None
            try:
                x = e.merged(lambda: zb(e.truth(e.call(fn, [norm(k)] + vals, {}))))
                prefix_steps(e, x)
                return x
            except (Unsupported, PyRaise, PathEnd):
                return None
        return (nm + "(" + ", ".join(c[0] for c in combo) + ")", f)
    dead = {id(info.held.get(q)) for q in info.mod}      # containers that a modified variable held at the start: the variable is the slot
    slots = [(nm, cell, key, repr(info.types[q])) for (nm, cell, key), q in zip(slots, info.mod) if id(cell) not in dead]
    for i, (fn, kinds) in enumerate(e.spec_invs):
        if kinds.get("depth", info.depth) != info.depth: continue
        ps = [a.arg for a in fn.node.args.args[1:]]
        pools = [[s[:3] for s in slots if s[3].startswith(kinds.get(p, ""))] for p in ps]
        for combo in itertools.product(*pools):
            if len({c[0] for c in combo}) < len(combo): continue
            out.append(cand(fn, combo, "spec invariant %d" % i))
            if len(out) > 200: return out
    return out


GENERIC = [string_prefix, int_bounds, spec_invariants]
