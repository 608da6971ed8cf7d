"""Ground instances of quantified hypotheses at the terms a goal speaks about.

Every quantified subformula is replaced by a Boolean of its own (an abstraction: unsatisfiable
afterwards means unsatisfiable before); for each of them the valid formulas  forall x. F(x) -> F(t)
and  F(t) -> exists x. F(x)  are added for the index terms t of the goal."""
import itertools
import z3

_abs, _atom, _simp = {}, {}, {}
INT = z3.IntSort()


def simp(h):
    r = _simp.get(h.get_id())
    if r is None:
        r = (h, z3.simplify(h))
        _simp[h.get_id()] = r
    return r[1]


def abstract(h, has_quant):
    """h without quantifiers, and the quantified subformulas replaced (as (Boolean, quantifier) pairs)"""
    r = _abs.get(h.get_id())
    if r is not None: return r[1], r[2]
    if not has_quant(h): out = (h, h, ())
    else:
        qs, seen, st = {}, set(), [h]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen or not has_quant(x): continue
            seen.add(i)
            if z3.is_quantifier(x): qs[i] = x
            else: st.extend(x.children())
        pairs = [(atom(q), q) for q in qs.values()]
        out = (h, z3.substitute(h, [(q, a) for a, q in pairs]), tuple(pairs))
    _abs[h.get_id()] = out
    return out[1], out[2]


def atom(q):
    key = (q.is_forall(), q.is_exists(), tuple(q.var_sort(k).get_id() for k in range(q.num_vars())), q.body().get_id())
    r = _atom.get(key)
    if r is None:
        r = (z3.Bool("quant!%d" % len(_atom)), q)
        _atom[key] = r
    return r[0]


def split(goal, n=0):
    """the goal with its outermost universal variables replaced by constants, and what may be assumed for it"""
    hyps, consts = [], []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const("sk!%d" % (n + k), goal.var_sort(k)) for k in range(goal.num_vars())]
            n += len(vs)
            consts += vs
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        else: return hyps, goal, consts


STR = z3.StringSort()


def indices(e, out, limit):
    """ground integer terms used as positions and strings used as keys"""
    st, seen = [e], set()
    while st and len(out) < limit:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            k = x.decl().kind()
            t = None
            if k == z3.Z3_OP_SELECT and x.arg(1).sort() in (INT, STR): t = x.arg(1)
            elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name().startswith("kpos!"): t = x
            if t is not None:
                t = simp(t)
                if not any(t.eq(o) for o in out): out.append(t)
            st.extend(x.children())


def grounded(hyps, goal, has_quant, limit=6, rounds=2, most=1500):
    """quantifier-free formulas that are unsatisfiable only if the hypotheses imply the goal; None if there is nothing to instantiate"""
    extra, goal, terms = split(simp(goal))
    if any(t.sort() not in (INT, STR) for t in terms): return None
    terms = list(terms)
    for x in [goal] + extra: indices(x, terms, limit)
    strings = any(t.sort() == STR for t in terms)
    out, todo = [], []
    for h in itertools.chain(hyps, extra, [z3.Not(goal)]):
        a, qs = abstract(simp(h), has_quant)
        out.append(a)
        todo += qs
    if not terms or not todo: return None
    first, count = list(terms), 0
    if strings: rounds += 2
    done = {}          # quantifier -> instances made
    for r in range(rounds):
        new, fresh = [], []
        for a, q in todo:
            n = q.num_vars()
            if q.is_lambda() or n > 2 or any(q.var_sort(k) not in (INT, STR) for k in range(n)): continue
            made = done.setdefault(a.get_id(), set())
            pool = terms if n == 1 else first
            for ts in itertools.product(*[[t for t in pool if t.sort() == q.var_sort(k)] for k in range(n)]):
                key = tuple(t.get_id() for t in ts)
                if key in made: continue
                made.add(key)
                inst, qs = abstract(simp(z3.substitute_vars(q.body(), *reversed(ts))), has_quant)
                out.append(z3.Implies(a, inst) if q.is_forall() else z3.Implies(inst, a))
                if strings and len(fresh) < 12: indices(inst, fresh, 12)
                new += qs
                count += 1
            if count > most: return out
        if strings:
            for t in fresh:
                if len(terms) < limit + 16 and not any(t.eq(o) for o in terms): terms.append(t)
            ids = {a.get_id() for a, _ in todo}
            todo = todo + [(a, q) for a, q in new if a.get_id() not in ids]
        else:
            todo = [(a, q) for a, q in new if a.get_id() not in done]
    return out


_str = {}
STR_OPS = {z3.Z3_OP_SEQ_AT, z3.Z3_OP_SEQ_LENGTH, z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_CONTAINS,
           z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX, z3.Z3_OP_SEQ_REPLACE, z3.Z3_OP_SEQ_INDEX, z3.Z3_OP_SEQ_NTH,
           getattr(z3, "Z3_OP_STRING_LT", -1), getattr(z3, "Z3_OP_STRING_LE", -1)}


def no_strings(f):
    """string operations replaced by uninterpreted functions (quantifier-free formulas)"""
    r = _str.get(f.get_id())
    if r is not None: return r[1]
    st = [f]
    while st:
        x = st[-1]
        if x.get_id() in _str: st.pop(); continue
        todo = [c for c in x.children() if c.get_id() not in _str]
        if todo: st.extend(todo); continue
        st.pop()
        args = [_str[c.get_id()][1] for c in x.children()]
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() in STR_OPS or x.decl().name() in ("str.<", "str.<="):
                g = z3.Function("op!%s!%d" % (x.decl().name(), len(args)), *[a.sort() for a in args], x.sort())
                y = g(*args)
            elif any(not a.eq(c) for a, c in zip(args, x.children())): y = x.decl()(*args)
            else: y = x
        else: y = x
        _str[x.get_id()] = (x, y)
    return _str[f.get_id()][1]
