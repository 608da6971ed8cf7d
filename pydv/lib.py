"""Library contracts: Python builtins and the standard-library functions the repository uses.
Each entry states (executably) what the verifier assumes about the library function."""
import z3
from .values import *
from . import engine as E


def make_builtins(eng):
    b = {}

    def reg(name):
        def deco(f):
            b[name] = Native(name, f)
            return f
        return deco

    @reg("len")
    def _len(e, a, k):
        v = e.force(a[0])
        if isinstance(v, (tuple, PList)):
            if isinstance(v, PList) and v.kind == "iter": e.raise_("TypeError")
            return e.length(v)
        if isinstance(v, str): return len(v)
        if is_zstr(v): return z3.Length(v)
        if isinstance(v, PDict): return dict_len(e, v)
        if isinstance(v, PSet):
            if v.concrete: return len(v.items)
            raise Unsupported("len of symbolic set")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__len__")
            if f is not None: return e.call(Bound(v, f), [], {})
            if v.cls.fields is not None: return len(v.cls.fields)
        if v is None: e.raise_("TypeError")
        raise Unsupported("len of %r" % (v,))

    @reg("range")
    def _range(e, a, k):
        a = [e.force(x) for x in a]
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if all(isinstance(x, int) for x in (lo, hi, step)):
            if len(range(lo, hi, step)) > 5000: raise Unsupported("long range")
            return e.new(PList(items=list(range(lo, hi, step)), kind="tuple"))
        if step not in (1, -1): raise Unsupported("range step")
        zlo, zhi = e.zi(lo), e.zi(hi)
        d = zhi - zlo if step == 1 else zlo - zhi
        d = z3.simplify(d)
        n = norm(z3.simplify(z3.If(d < 0, z3.IntVal(0), d))) if e.feasible(d < 0) else norm(d)
        return e.new(PList(n=n, get=lambda i: norm(z3.simplify(zlo + i if step == 1 else zlo - i)), kind="tuple"))

    @reg("enumerate")
    def _enum(e, a, k):
        s = e.to_seq(a[0])
        st = a[1] if len(a) > 1 else k.get("start", 0)
        r = map_idx(e, s, lambda i, x: (norm(z3.simplify(e.zi(st) + e.zi(i))) if is_z(i) or is_z(st) else st + i, x))
        kd = keyed(s)
        if kd is not None and kd.pos is None:
            set_keyed(r, Keyed(kd.kt, 1, kd.has, lambda k: (norm(z3.simplify(e.zi(st) + kd.at(k))), e.dec(k, kd.kt)), kd.at))
        return r

    @reg("zip")
    def _zip(e, a, k):
        if len(a) == 1 and isinstance(a[0], E.StarSeq): return unzip(e, a[0].l)
        ss = [e.to_seq(x) for x in a]
        if not ss: return e.new(PList(items=[], kind="iter"))
        if all(s.concrete for s in ss):
            return e.new(PList(items=[tuple(t) for t in zip(*[s.items for s in ss])], kind="iter"))
        n = e.zi(e.length(ss[0]))
        for s in ss[1:]:
            m = e.zi(e.length(s))
            if n.eq(m): continue
            if not e.feasible(n != m): continue
            n = n if e.branch(n <= m) else m
        snaps = [e.snapshot(s) for s in ss]
        return e.new(PList(n=norm(n), get=lambda i: tuple(e.list_get_raw(s, i) for s in snaps), kind="iter"))

    @reg("map")
    def _map(e, a, k):
        f = a[0]
        if len(a) == 2: r = map_seq(e, lambda x: e.call(f, [x], {}), e.to_seq(a[1]))
        else:
            z = _zip(e, a[1:], {})
            r = map_seq(e, lambda x: e.call(f, list(x), {}), z)
        r.kind = "iter"
        return r

    @reg("filter")
    def _filter(e, a, k):
        f = a[0]
        return filter_seq(e, lambda x: e.truth(x if f is None else e.call(f, [x], {})), e.to_seq(a[1]))

    @reg("any")
    def _any(e, a, k):
        s = e.to_seq(a[0])
        if s.concrete: return norm(E.disj([E.zb(e.truth(x)) for x in s.items]))
        return e.forall_idx(0, s.n, lambda i: e.truth(e.list_get_raw(s, i)), exists=True)

    @reg("all")
    def _all(e, a, k):
        s = e.to_seq(a[0])
        if s.concrete: return norm(E.conj([E.zb(e.truth(x)) for x in s.items]))
        return e.forall_idx(0, s.n, lambda i: e.truth(e.list_get_raw(s, i)))

    @reg("list")
    def _list(e, a, k):
        if not a: return e.new(PList(items=[]))
        s = e.to_seq(a[0])
        if s.concrete: return e.new(PList(items=list(s.items)))
        s = e.materialize(s)
        return e.new(PList(n=s.n, arr=s.arr, off=s.off, etype=s.etype, get=s.get_, kind="list"))

    @reg("tuple")
    def _tuple(e, a, k):
        if not a: return ()
        s = e.to_seq(a[0])
        if s.concrete: return tuple(s.items)
        s = e.materialize(s)
        r = e.new(PList(n=s.n, arr=s.arr, off=s.off, etype=s.etype, get=s.get_, kind="tuple"))
        return copy_canon(r, s)

    @reg("iter")
    def _iter(e, a, k):
        o = e.force(a[0])
        if isinstance(o, Obj) and o.cls.lookup("__iter__")[0] is not None:
            r = e.force(e.call(e.getattr_(o, "__iter__"), [], {}))
            if isinstance(r, Obj) or isinstance(r, PList) and r.kind == "iter": return r
            raise Unsupported("iter of %r" % (o,))
        s = e.to_seq(o)
        r = e.snapshot(s)
        r.kind = "iter"
        return e.new(r)

    @reg("next")
    def _next(e, a, k):
        s = e.force(a[0])
        if not isinstance(s, PList) or s.kind != "iter": raise Unsupported("next")
        if s.concrete:
            if not s.items:
                if len(a) > 1: return a[1]
                e.raise_("StopIteration")
            e.list_write(s)
            x = s.items[0]; s.items = s.items[1:]
            return x
        if e.branch(e.zi(s.n) <= 0):
            if len(a) > 1: return a[1]
            e.raise_("StopIteration")
        x = e.list_get_raw(s, 0)
        r = e.list_slice(e.snapshot(s), E.SliceV(1, None, None))
        e.list_write(s)
        s.items, s.n, s.arr, s.off, s.etype, s.get_ = r.items, r.n, r.arr, r.off, r.etype, r.get_
        return x

    @reg("dict")
    def _dict(e, a, k):
        if not a:
            return e.new(PDict(items=[[x, y] for x, y in k.items()]))
        v = e.force(a[0])
        if isinstance(v, PDict): return dict_copy(e, v)
        if isinstance(v, PList) and getattr(v, "canon_t", None) is not None:
            e.lib_used.add("dict(sorted(d.items())) == d")
            return e.new(PDict(map=v.canon, kt=v.canon_t.k, vt=v.canon_t.v))
        return dict_from_pairs(e, e.to_seq(v))

    @reg("set")
    def _set(e, a, k):
        if not a: return e.new(PSet(items=[]))
        return make_set(e, e.to_seq(a[0]))

    @reg("isinstance")
    def _isinstance(e, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        v = a[0]
        if isinstance(v, UVal):
            return norm(z3.simplify(E.disj([E.conj([g, E.zb(_isinstance(e, [x, a[1]], {}))]) for g, x in v.alts])))
        for c in cs:
            if isinstance(c, Cls):
                if isinstance(v, Obj) and c in v.cls.mro(): return True
            elif isinstance(c, Native):
                n = c.name
                if n == "str" and (isinstance(v, str) or is_zstr(v)): return True
                if n == "int" and (isinstance(v, (int, bool)) or is_zint(v) or is_zbool(v)): return True
                if n == "bool" and (isinstance(v, bool) or is_zbool(v)): return True
                if n == "list" and isinstance(v, PList) and v.kind == "list": return True
                if n == "tuple" and (isinstance(v, tuple) or isinstance(v, PList) and v.kind == "tuple"): return True
                if n == "dict" and isinstance(v, PDict): return True
                if n == "float" and (isinstance(v, float) or is_zreal(v)): return True
                if n == "collections.Counter": return isinstance(v, PDict) and getattr(v, "counter", False)
                if n == "set" and isinstance(v, PSet): return True
            else: raise Unsupported("isinstance of %r" % (c,))
        if is_z(v) and v.sort().name().startswith("Any_"): raise Unsupported("isinstance of an opaque value")
        return False

    @reg("type")
    def _type(e, a, k):
        v = e.force(a[0])
        if isinstance(v, Obj): return v.cls
        for n in ("str", "bool", "int", "list", "tuple", "dict", "float"):
            if _isinstance(e, [v, b[n]], {}) is True: return b[n]
        raise Unsupported("type()")

    @reg("str")
    def _str(e, a, k): return to_str(e, a[0]) if a else ""

    @reg("repr")
    def _repr(e, a, k): raise Unsupported("repr")

    @reg("int")
    def _int(e, a, k):
        if not a: return 0
        v = e.force(a[0])
        if isinstance(v, str):
            try: return int(v)
            except ValueError: e.raise_("ValueError")
        if isinstance(v, (int, bool, float)): return int(v)
        if is_zint(v): return v
        if is_zbool(v): return e.zi(v)
        if is_zstr(v):
            w = int_of_str(e, v)
            if w is not None: return w
            raise Unsupported("int() of an unconstrained string")
        if is_zreal(v): return norm(z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))
        if v is None: e.raise_("TypeError")
        raise Unsupported("int of %r" % (v,))

    @reg("float")
    def _float(e, a, k):
        if not a: return 0.0
        v = e.force(a[0])
        if isinstance(v, (int, float)): return float(v)
        if is_zint(v): return z3.ToReal(v)
        raise Unsupported("float")

    @reg("bool")
    def _bool(e, a, k): return e.truth(a[0]) if a else False

    @reg("abs")
    def _abs(e, a, k):
        v = e.force(a[0])
        if not is_z(v): return abs(v)
        return z3.If(v < 0, -v, v)

    def minmax(name):
        def f(e, a, k):
            if k: raise Unsupported(name + " with key")
            if len(a) == 1:
                s = e.to_seq(a[0])
                if s.concrete:
                    a = s.items
                    if not a: e.raise_("ValueError")
                else:
                    n = e.zi(s.n)
                    if e.branch(n <= 0): e.raise_("ValueError")
                    p = e.fresh(z3.IntSort(), "arg" + name)
                    e.assume(z3.And(0 <= p, p < n))
                    m = e.list_get_raw(s, p)
                    c = e.forall_idx(0, n, lambda i: e.le(e.list_get_raw(s, i), m) if name == "max" else e.le(m, e.list_get_raw(s, i)))
                    e.assume(E.zb(c))
                    return m
            r = a[0]
            for x in a[1:]:
                def pick(r=r, x=x):
                    if name == "min": return x if e.branch(e.lt(x, r)) else r
                    return x if e.branch(e.lt(r, x)) else r
                r = e.merged(pick)
            return r
        return f
    b["min"] = Native("min", minmax("min"))
    b["max"] = Native("max", minmax("max"))

    @reg("sum")
    def _sum(e, a, k):
        s = e.to_seq(a[0])
        st = a[1] if len(a) > 1 else 0
        if s.concrete:
            import ast
            for x in s.items: st = e.binop(ast.Add(), st, x)
            return st
        return prefix_sum(e, s, st)

    @reg("sorted")
    def _sorted(e, a, k):
        return sort_list(e, e.to_seq(a[0]), k.get("key"), k.get("reverse", False))

    @reg("reversed")
    def _reversed(e, a, k): return reversed_seq(e, e.to_seq(a[0]), "iter")

    @reg("print")
    def _print(e, a, k): return None

    @reg("hash")
    def _hash(e, a, k):
        v = e.force(a[0])
        return hash_of(e, v)

    @reg("getattr")
    def _getattr(e, a, k):
        if not isinstance(a[1], str): raise Unsupported("getattr")
        return e.getattr_(a[0], a[1])

    @reg("callable")
    def _callable(e, a, k): return isinstance(a[0], (Func, Native, Bound, Cls, UFun))

    @reg("iskeyword")
    def _x(e, a, k): raise Unsupported("x")

    for n in E._EXC_BASES: b[n] = None
    b["object"] = Cls("object", None)
    b["NotImplemented"] = NotImplemented
    b["__name__"] = "module"
    return LazyExc(b, eng)


class LazyExc(dict):
    def __init__(self, b, eng):
        dict.__init__(self, b)
        self.eng = eng

    def __getitem__(self, k):
        if k in E._EXC_BASES: return self.eng.exc_class(k)
        return dict.__getitem__(self, k)


# ---------------------------------------------------------------- hashing

def hash_of(e, v):
    """hash is modelled as a function of the structural value: equal structure, equal hash"""
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__hash__")
        if f is not None: return e.call(Bound(v, f), [], {})
        raise Unsupported("identity hash")
    if isinstance(v, UVal): v = e.force(v)
    if isinstance(v, tuple) and any(isinstance(x, (PList, tuple, Obj)) for x in v):
        # tuple hash: a function of the hashes of its elements
        f = z3.Function("hash_tuple_%d" % len(v), *[z3.IntSort()] * (len(v) + 1))
        return f(*[e.zi(hash_of(e, x)) for x in v])
    if isinstance(v, PList) and getattr(v, "canon", None) is not None and v.kind == "tuple":
        c = v.canon
        return z3.Function("hash_items_%d" % abs(hash(c.sort().sexpr())), c.sort(), z3.IntSort())(c)
    t = e.typeof(v)
    if isinstance(t, DictT) or isinstance(t, ListT) and getattr(v, "kind", "") == "list": e.raise_("TypeError")
    s = sort_of(t)
    f = z3.Function("hash_" + s.name(), s, z3.IntSort())
    return f(e.enc(v, t, freeze=False))


# ---------------------------------------------------------------- strings

def to_str(e, v):
    v = e.force(v)
    if isinstance(v, str) or is_zstr(v): return v
    if isinstance(v, bool): return str(v)
    if isinstance(v, int): return str(v)
    if is_zint(v):
        if not e.feasible(v < 0): return z3.IntToStr(v)
        return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v)))
    if v is None: return "None"
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__str__")
        if f is not None: return e.call(Bound(v, f), [], {})
    # the text of other values is not modelled
    return e.fresh(z3.StringSort(), "str")


def int_of_str(e, v):
    """int(s) for s known to be the decimal text of an int"""
    v = z3.simplify(v)
    if v.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return norm(v.arg(0))
    if v.decl().kind() == z3.Z3_OP_ITE:
        a, b = int_of_str(e, v.arg(1)), int_of_str(e, v.arg(2))
        if a is not None and b is not None: return z3.If(v.arg(0), e.zi(a), e.zi(b))
    if z3.is_string_value(v):
        try: return int(zstr_py(v))
        except ValueError: e.raise_("ValueError")
    return None


def concat(e, parts):
    out = []
    for p in parts:
        p = e.force(p)
        if p is None: e.raise_("TypeError")
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        elif is_zstr(p): out.append(p)
        else: e.raise_("TypeError")
    if not out: return ""
    if len(out) == 1: return out[0]
    return z3.Concat(*[e.zs(p) for p in out])


def str_getitem(e, s, k):
    if isinstance(k, E.SliceV):
        if k.step not in (None, 1): raise Unsupported("string slice step")
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (k.lower, k.upper)):
            return s[k.lower:k.upper]
        zs = e.zs(s)
        n = norm(z3.simplify(z3.Length(zs)))
        lo, hi = e.clamp_fork(k.lower, n, 0), e.clamp_fork(k.upper, n, n)
        m = norm(z3.simplify(e.zi(hi) - e.zi(lo)))
        if is_z(m):
            if not (isinstance(lo, int) and lo == 0) and e.branch(e.zi(m) <= 0): return ""
        elif m <= 0: return ""
        return norm(z3.simplify(z3.SubString(zs, e.zi(lo), e.zi(m))))
    k = e.force(k)
    if isinstance(s, str) and isinstance(k, int):
        try: return s[k]
        except IndexError: e.raise_("IndexError")
    if not (isinstance(k, int) or is_zint(k)): e.raise_("TypeError")
    zs = e.zs(s)
    n = z3.Length(zs)
    i = e.zi(k)
    if e.branch(i < 0): i = i + n
    if e.branch(z3.Or(i < 0, i >= n)): e.raise_("IndexError")
    return z3.SubString(zs, i, 1)


_lower = None


def lower_fn():
    return z3.Function("py_lower", z3.StringSort(), z3.StringSort())


def str_method(e, s, name):
    conc = isinstance(s, str)

    def m(f): return Native("str." + name, f)
    if name in ("startswith", "endswith"):
        def f(e, a, k):
            p = e.force(a[0])
            if conc and isinstance(p, str): return getattr(s, name)(p)
            if isinstance(p, tuple): return norm(E.disj([E.zb(f(e, [x], {})) for x in p]))
            if not (isinstance(p, str) or is_zstr(p)): e.raise_("TypeError")
            return norm(z3.simplify((z3.PrefixOf if name == "startswith" else z3.SuffixOf)(e.zs(p), e.zs(s))))
        return m(f)
    if name in ("removesuffix", "removeprefix"):
        def f(e, a, k):
            p = e.force(a[0])
            if conc and isinstance(p, str): return getattr(s, name)(p)
            if not (isinstance(p, str) or is_zstr(p)): e.raise_("TypeError")
            x, p = e.zs(s), e.zs(p)
            d = z3.Length(x) - z3.Length(p)
            if name == "removesuffix": r = z3.If(z3.SuffixOf(p, x), z3.SubString(x, 0, d), x)
            else: r = z3.If(z3.PrefixOf(p, x), z3.SubString(x, z3.Length(p), d), x)
            return norm(z3.simplify(r))
        return m(f)
    if name == "lower":
        def f(e, a, k):
            if conc: return s.lower()
            e.assumptions.add("str.lower is an arbitrary function of the string (idempotence and length not used)")
            return lower_fn()(s)
        return m(f)
    if name == "isspace":
        def f(e, a, k):
            if conc: return s.isspace()
            p = z3.Function("py_isspace", z3.StringSort(), z3.BoolSort())
            e.assume(z3.Not(p(z3.StringVal(""))))
            e.assume(p(z3.StringVal(" ")))
            return p(s)
        return m(f)
    if name == "join":
        def f(e, a, k):
            l = e.to_seq(a[0])
            if not l.concrete: raise Unsupported("join of symbolic sequence")
            parts = []
            for i, x in enumerate(l.items):
                if i: parts.append(s)
                parts.append(x)
            return concat(e, parts)
        return m(f)
    if name == "split":
        def f(e, a, k):
            if not a: 
                if conc: return e.new(PList(items=s.split()))
                raise Unsupported("split()")
            sep = e.force(a[0])
            if conc and isinstance(sep, str): return e.new(PList(items=s.split(sep, *a[1:])))
            return str_split(e, s, sep, a[1] if len(a) > 1 else k.get("maxsplit", -1))
        return m(f)
    if name == "format":
        def f(e, a, k):
            if not conc: raise Unsupported("format of symbolic template")
            import string
            parts, auto = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(s):
                parts.append(lit)
                if fld is None: continue
                if spec or conv: return e.fresh(z3.StringSort(), "fmt")
                if fld == "": v = a[auto]; auto += 1
                elif fld.isdigit(): v = a[int(fld)]
                elif fld in k: v = k[fld]
                else: return e.fresh(z3.StringSort(), "fmt")
                if isinstance(v, E.StarSeq): raise Unsupported("format(*symbolic)")
                parts.append(to_str(e, v))
            return concat(e, parts)
        return m(f)
    if name in ("strip", "rstrip", "lstrip", "replace", "upper", "isdigit", "partition", "rpartition", "title", "count", "find", "index"):
        def f(e, a, k):
            if conc and all(not is_z(x) for x in a):
                r = getattr(s, name)(*a)
                return r
            if name in ("strip", "rstrip", "lstrip") and a and isinstance(a[0], str):
                return str_strip(e, s, a[0], name)
            if name == "replace" and len(a) == 2:
                raise Unsupported("replace on symbolic string")
            raise Unsupported("str.%s on a symbolic string" % name)
        return m(f)
    raise Unsupported("str." + name)


def str_strip(e, s, chars, name):
    """exact only when the ends provably contain none of the characters"""
    zs = e.zs(s)
    n = z3.Length(zs)
    r = s
    if name in ("strip", "rstrip"):
        last = z3.SubString(zs, n - 1, 1)
        if e.feasible(z3.And(n > 0, z3.Or(*[last == e.zs(c) for c in chars]))): raise Unsupported("strip of symbolic string")
    if name in ("strip", "lstrip"):
        first = z3.SubString(zs, 0, 1)
        if e.feasible(z3.And(n > 0, z3.Or(*[first == e.zs(c) for c in chars]))): raise Unsupported("strip of symbolic string")
    return r


def flat_concat(x):
    if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in x.children(): out.extend(flat_concat(c))
        return out
    return [x]


def str_split(e, s, sep, maxsplit):
    """split by a literal separator: the text is a concatenation of pieces; literal pieces are
    split, symbolic pieces must provably not contain the separator (else Unsupported)."""
    if not isinstance(sep, str) or maxsplit not in (-1, None, 1): raise Unsupported("split")
    parts = flat_concat(e.zs(s))
    fields = [[]]
    done = False
    for p in parts:
        if z3.is_string_value(p):
            t = zstr_py(p)
            if maxsplit == 1 and len(fields) == 2:
                fields[-1].append(t); continue
            bits = t.split(sep) if maxsplit != 1 else t.split(sep, 1)
            fields[-1].append(bits[0])
            for x in bits[1:]: fields.append([x])
        else:
            if maxsplit == 1 and len(fields) == 2:
                fields[-1].append(p); continue
            if len(sep) != 1: raise Unsupported("split by a long separator")
            g = z3.Not(z3.Contains(p, e.zs(sep)))
            if not e.entails([x for _, x in e.pc], g, 3000):
                raise Unsupported("split of a string that may contain the separator")
            fields[-1].append(p)
    return e.new(PList(items=[concat(e, [norm(x) if is_z(x) else x for x in f]) for f in fields]))


# ---------------------------------------------------------------- sequences

class Keyed:
    """what is known of a sequence that lists the keys of a dictionary: every key exactly once.
    pos: the element is the key itself (None) or a tuple with the key at this position;
    has(K): K is listed (formula); elem(K): the element of K, up to unknown components;
    at(K): its position."""
    def __init__(self, kt, pos, has, elem, at):
        self.kt, self.pos, self.has, self.elem, self.at = kt, pos, has, elem, at


def copy_canon(r, s):
    r.canon, r.canon_t = getattr(s, "canon", None), getattr(s, "canon_t", None)
    return r


def keyed(l):
    k = getattr(l, "keyed", None)
    if k is None or l.concrete: return None
    kd, n, arr, off, g = k
    return kd if (l.n is n and l.arr is arr and l.off is off and l.get_ is g) else None


def set_keyed(l, kd):
    if kd is not None and not l.concrete: l.keyed = (kd, l.n, l.arr, l.off, l.get_)
    return l


def keyed_facts(e, l):
    """every element is a key, at its own position (a consequence of listing every key once)"""
    kd = keyed(l)
    if kd is None or kd.pos is not None or l.arr is None or l.etype != kd.kt: return
    i = z3.Int("q_kf%d" % e.nq())
    x = l.arr[z3.simplify(e.zi(l.off) + i)]
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.zi(l.n)), z3.And(kd.has(x), kd.at(x) == i)), patterns=[x]))


def key_formula(e, kt, hyp, fn):
    """fn(K) as a formula in the key K, for the keys with hyp(K); None if it is not a pure total function"""
    K = z3.Const("q_key%d" % e.nq(), sort_of(kt))
    e.bound.append(K)
    try:
        def run():
            e.assume(hyp(K))
            return E.zb(e.truth(fn(K)))
        try: outs = e.explore(run, "pure")
        except (Unsupported, E.Impure): return None
    finally: e.bound.pop()
    if not outs or any(o.kind != "ok" for o in outs): return None
    if any(str(K) in E.consts_of(f) and not f.eq(hyp(K)) for o in outs for f in o.facts): return None
    body = E.disj([E.conj(list(o.guards) + [o.value]) for o in outs])
    body = z3.simplify(E.zb(body))
    return lambda k: z3.substitute(body, (K, k))


def map_keyed(e, fn, s):
    kd = keyed(s)
    if kd is None or kd.elem is None: return None
    K = z3.Const("q_key%d" % e.nq(), sort_of(kd.kt))
    e.bound.append(K)
    try:
        def run():
            e.assume(kd.has(K))
            return fn(kd.elem(K))
        try: outs = e.explore(run, "pure")
        except (Unsupported, E.Impure): return None
    finally: e.bound.pop()
    if len(outs) != 1 or outs[0].kind != "ok": return None
    v = outs[0].value
    def same(x):
        if isinstance(x, Obj) and x.rec is not None: x = x.rec[1]
        elif isinstance(x, (UVal, tuple, PList)):
            try: x = e.enc(x, kd.kt, freeze=False)
            except Unsupported: return False
        return is_z(x) and x.sort() == K.sort() and z3.simplify(x).eq(K)
    if same(v): return Keyed(kd.kt, None, kd.has, lambda k: e.dec(k, kd.kt), kd.at)
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            if same(x): return Keyed(kd.kt, i, kd.has, lambda k: fn(kd.elem(k)), kd.at)
    return None


def map_idx(e, s, fn):
    if s.concrete: return e.new(PList(items=[fn(i, x) for i, x in enumerate(s.items)], kind="iter"))
    src = e.snapshot(s)
    return e.new(PList(n=s.n, get=lambda i: fn(i, e.list_get_raw(src, i)), kind="iter"))


def map_seq(e, fn, s):
    if s.concrete: return e.new(PList(items=[fn(x) for x in s.items], kind="iter"))
    src = e.snapshot(s)
    r = e.new(PList(n=s.n, get=lambda i: fn(e.list_get_raw(src, i)), kind="iter"))
    return set_keyed(r, map_keyed(e, fn, src))


def unzip(e, l):
    """zip(*l) of a list of tuples of one length"""
    l = e.snapshot(l)
    if not e.branch(e.zi(l.n) > 0): return e.new(PList(items=[], kind="iter"))
    q = e.fresh(z3.IntSort(), "uz")

    def one():
        e.assume(z3.And(0 <= q, q < e.zi(l.n)))
        v = e.force(e.list_get_raw(l, q))
        if not isinstance(v, tuple): raise Unsupported("zip(*symbolic)")
        return len(v)
    ns = {o.value if o.kind == "ok" else None for o in e.explore(one)}
    if len(ns) != 1 or None in ns: raise Unsupported("zip(*symbolic)")
    return e.new(PList(items=[map_seq(e, lambda v, j=j: e.force(v)[j], l) for j in range(ns.pop())], kind="iter"))


def filter_seq(e, keep, s):
    """result: an order-preserving selection of exactly the elements that satisfy keep"""
    if s.concrete:
        out = [x for x in s.items if e.branch(e.truth(keep(x)))]
        return e.new(PList(items=out, kind="iter"))
    src = e.snapshot(s)
    n = e.zi(s.n)
    m = e.fresh(z3.IntSort(), "nsel")
    e.fresh_n += 1
    tag = e.fresh_n
    bs = [b.sort() for b in e.bound]
    sel_f = z3.Function("sel!%d" % tag, *bs, z3.IntSort(), z3.IntSort())
    inv_f = z3.Function("isel!%d" % tag, *bs, z3.IntSort(), z3.IntSort())
    snap = list(e.bound)
    sel = lambda i: sel_f(*snap, i)
    inv = lambda i: inv_f(*snap, i)
    i, j = z3.Ints("q_i%d q_j%d" % (tag, tag))
    e.assume(z3.And(m >= 0, m <= n))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= sel(i), sel(i) < n, inv(sel(i)) == i)), patterns=[sel(i)]))
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))]))
    c = e.forall_idx(0, m, lambda q: keep(e.list_get_raw(src, sel(q))))
    e.assume(E.zb(c))
    c = e.forall_idx(0, n, lambda q: norm(E.disj([E.zb(znot_(e.truth(keep(e.list_get_raw(src, q))))),
                                                  z3.And(0 <= inv(q), inv(q) < m, sel(inv(q)) == q)])))
    e.assume(E.zb(c))
    r = e.new(PList(n=m, get=lambda q: e.list_get_raw(src, sel(q)), kind="iter"))
    kd = keyed(src)
    if kd is not None and kd.elem is not None:
        f = key_formula(e, kd.kt, kd.has, lambda k: keep(kd.elem(k)))
        if f is not None: set_keyed(r, Keyed(kd.kt, kd.pos, lambda k: z3.And(kd.has(k), f(k)), kd.elem, lambda k: inv(kd.at(k))))
    return r


def znot_(x): return E.znot(x)


def reversed_seq(e, s, kind):
    if s.concrete: return e.new(PList(items=list(reversed(s.items)), kind=kind))
    src = e.snapshot(s)
    n = e.zi(s.n)
    return e.new(PList(n=s.n, get=lambda i: e.list_get_raw(src, norm(z3.simplify(n - 1 - i))), kind=kind))


def getitem_iter(e, o, f):
    """the sequence protocol: o[0], o[1], ... until IndexError"""
    cnt = None
    for nm in ("tokens_count", "sentences_count"):
        if o.cls.lookup(nm)[0] is not None:
            cnt = e.getattr_(o, nm); break
    if cnt is None: raise Unsupported("iteration by __getitem__")
    # prove that the count is where IndexError starts
    def at(i): return e.call(Bound(o, f), [i], {})
    if not is_z(cnt):
        items = []
        for i in range(cnt): items.append(at(i))
        try:
            at(cnt)
            raise Unsupported("__getitem__ iteration longer than the count")
        except PyRaise as x:
            if x.exc.cls.name != "IndexError": raise Unsupported("__getitem__ iteration ends with " + x.exc.cls.name)
        return PList(items=items, kind="iter")
    outs = e.explore(lambda: at(cnt), "pure")
    if not outs or any(x.kind != "raise" or x.value.cls.name != "IndexError" for x in outs):
        raise Unsupported("__getitem__ iteration does not stop at the count")
    q = e.fresh(z3.IntSort(), "idx")

    def ok():
        e.assume(z3.And(0 <= q, q < cnt))
        at(q)
    outs = e.explore(ok, "pure")
    for x in outs:
        if x.kind == "raise" and not e.entails([h for _, h in e.pc] + x.guards + x.facts, z3.BoolVal(False), 4000):
            raise Unsupported("__getitem__ iteration stops early")
    return e.new(PList(n=cnt, get=at, kind="iter"))


def prefix_sum(e, s, st):
    """sum: defined by its recurrence over the prefix; two sums of the same terms are the same function"""
    src = e.snapshot(s)
    snap = list(e.bound)
    n = e.zi(s.n)
    t = None
    k = e.fresh(z3.IntSort(), "ty")

    def elem(i):
        e.assume(z3.And(0 <= i, i < n))
        v = e.force(e.list_get_raw(src, i))
        if v is None: e.raise_("TypeError")
        return v
    for o in e.explore(lambda: e.typeof(elem(k))):
        if o.kind == "ok": t = e.join(t, o.value)
    if t is not None and not isinstance(t, (IntT, RealT, BoolT)): raise Unsupported("sum of %r" % (t,))
    real = isinstance(t, RealT)
    so = z3.RealSort() if real else z3.IntSort()
    conv = e.zr if real else e.zi
    q = z3.Int("q_ps%d" % len(e.bound))
    e.bound.append(q)
    try: outs = e.explore(lambda: conv(elem(q)))
    finally: e.bound.pop()
    rng = z3.And(0 <= q, q < n)
    for o in outs:
        for f in o.facts:
            if not f.eq(rng): e.assume_closed(q, rng, E.conj(o.guards), f)
    rs = [o for o in outs if o.kind == "raise"]
    if rs and e.branch(z3.Exists([q], z3.And(rng, E.disj([E.conj(o.guards) for o in rs])))): raise PyRaise(rs[0].value)
    oks = [(E.conj(o.guards), o.value) for o in outs if o.kind == "ok"]
    if not oks: return st
    body = conv(e.merge_values(oks)) if len(oks) > 1 else oks[0][1]
    body = z3.simplify(body)
    start = conv(st)
    key = (body.get_id(), start.get_id(), tuple(b.get_id() for b in snap))
    memo = e.__dict__.setdefault("psum_memo", {})
    if key not in memo: memo[key] = (len(memo), body, start, snap)     # keeps the terms alive
    f = z3.Function("psum!d%d" % memo[key][0], *[b.sort() for b in snap], z3.IntSort(), so)
    e.assume(f(*snap, z3.IntVal(0)) == start)
    p = z3.Int("q_pt%d" % len(e.bound))
    e.assume(z3.ForAll([p], z3.Implies(p >= 0, f(*snap, p + 1) == f(*snap, p) + z3.substitute(body, (q, p))), patterns=[f(*snap, p + 1)]))
    e.lib_used.add("sum(xs): the recurrence over prefixes; sums of pointwise equal terms are equal (induction)")
    if not snap:
        for f2, b2, q2, st2, so2 in e.psums:
            if so2 != so or f2.eq(f): continue
            same = z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.substitute(body, (q, p)) == z3.substitute(b2, (q2, p))))
            e.assume(z3.Implies(z3.And(start == st2, same), f(n) == f2(n)))
        e.psums = e.psums + [(f, body, q, start, so)]
    return f(*snap, n)


def chain_seqs(e, seqs):
    r = None
    for s in seqs:
        s = e.to_seq(s)
        r = s if r is None else e.list_concat(r, s)
    if r is None: return e.new(PList(items=[], kind="iter"))
    r = e.snapshot(r); r.kind = "iter"
    return e.new(r)


def flatten_key(e, n, inner_len):
    """the length of the i-th part as a term, if it is a pure total function of i"""
    if e.bound: return None
    i = z3.Int("q_flen")
    e.bound.append(i)
    try:
        def run():
            e.assume(z3.And(0 <= i, i < n))
            return inner_len(i)
        try: outs = e.explore(run, "pure")
        except (Unsupported, E.Impure): return None
    finally: e.bound.pop()
    if len(outs) != 1 or outs[0].kind != "ok": return None
    rng = z3.And(0 <= i, i < n)
    for f in outs[0].facts:
        if not f.eq(rng): e.assume_closed(i, rng, z3.And(list(outs[0].guards)) if outs[0].guards else z3.BoolVal(True), f)
    return z3.simplify(outs[0].value)


def same_lengths(e, n, n0, a, b):
    i = z3.Int("q_flen")
    pc = [h for _, h in e.pc]
    if not n.eq(n0) and not e.entails(pc, n == n0, 500): return False
    return e.entails(pc, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a == b)), 1500)


def flatten(e, outer, kind):
    """concatenation of a symbolic number of sequences: position functions (outer index, inner
    index) that are a bijection in lexicographic order."""
    if outer.concrete:
        r = chain_seqs(e, outer.items)
        r.kind = kind
        return r
    src = e.snapshot(outer)
    n = e.zi(outer.n)
    inner_len = lambda i: e.zi(e.length(e.to_seq(e.list_get_raw(src, i))))
    key = flatten_key(e, n, inner_len)
    for k, (n0, off, out, facts) in e.flat_memo:
        if key is not None and (n0.eq(n) and k.eq(key) or same_lengths(e, n, n0, key, k)):
            # the same lengths: the same positions
            for f in facts: e.assume(f)
            def get0(p):
                o = out(p)
                return e.list_get_raw(e.to_seq(e.list_get_raw(src, o)), norm(z3.simplify(p - off(o))))
            r = e.new(PList(n=off(n), get=get0, kind=kind))
            r.flat = (src, n, off, out)
            return r
    pcm = len(e.pc)
    e.fresh_n += 1
    tag = e.fresh_n
    snap = list(e.bound)
    bs = [b.sort() for b in snap]
    Iz = z3.IntSort()
    off_f = z3.Function("off!%d" % tag, *bs, Iz, Iz)
    out_f = z3.Function("outer!%d" % tag, *bs, Iz, Iz)
    off = lambda i: off_f(*snap, i)
    out = lambda i: out_f(*snap, i)
    q = z3.Int("q_f%d" % tag)
    tot = off(n)
    e.assume(off(z3.IntVal(0)) == 0)
    e.assume(E.zb(e.forall_idx(0, n, lambda i: z3.And(inner_len(i) >= 0, off(i + 1) == off(i) + inner_len(i)))))
    i, j = z3.Ints("q_a%d q_b%d" % (tag, tag))
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), off(i) <= off(j)), patterns=[z3.MultiPattern(off(i), off(j))]))
    e.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < tot), z3.And(0 <= out(q), out(q) < n, off(out(q)) <= q, q < off(out(q) + 1))), patterns=[out(q)]))
    e.assume(tot >= 0)
    if key is not None and all(k == "fact" for k, _ in e.pc[pcm:]):
        e.flat_memo = e.flat_memo + [(key, (n, off, out, [f for _, f in e.pc[pcm:]]))]

    def get(p):
        o = out(p)
        return e.list_get_raw(e.to_seq(e.list_get_raw(src, o)), norm(z3.simplify(p - off(o))))
    r = e.new(PList(n=tot, get=get, kind=kind))
    r.flat = (src, n, off, out)
    return r


# ---------------------------------------------------------------- sorting

def sort_list(e, s, key, reverse):
    """sorted(): a stable permutation of the input in non-decreasing key order."""
    kf = (lambda x: e.call(key, [x], {})) if key is not None else (lambda x: x)
    if reverse is not False: raise Unsupported("sorted(reverse)")
    if s.concrete:
        items = list(s.items)
        if len(items) <= 1: return e.new(PList(items=items))
        if len(items) <= 6:
            # insertion sort, forking on comparisons (stable)
            withkey = [(kf(x), x) for x in items]
            out = []
            for kx in withkey:
                j = len(out)
                while j > 0 and e.branch(e.lt(kx[0], out[j - 1][0])): j -= 1
                out.insert(j, kx)
            return e.new(PList(items=[x for _, x in out]))
        if all(e.const_key(x) for x in items) and key is None: return e.new(PList(items=sorted(items)))
        raise Unsupported("sorting a long concrete list")
    src = e.snapshot(e.materialize(s))
    n = e.zi(s.n)
    memo = sort_memo(e, src, n, kf)
    if memo is not None and memo[1] is not None:
        r0, facts = memo[1]
        for f in facts: e.assume(f)
        r = e.new(PList(n=r0.n, arr=r0.arr, off=r0.off, etype=r0.etype))
        r.perm = r0.perm
        copy_canon(r, r0)
        set_keyed(r, keyed(r0))
        return r
    if memo is not None and already_sorted(e, src, n, kf, memo[0]):
        e.lib_used.add("sorted(): a sorted input is returned as is (stability)")
        r = e.new(PList(n=s.n, arr=src.arr, off=src.off, etype=src.etype))
        return set_keyed(r, keyed(src))
    pcm = len(e.pc)
    e.fresh_n += 1
    tag = e.fresh_n
    snap = list(e.bound)
    bs = [b.sort() for b in snap]
    Iz = z3.IntSort()
    pf = z3.Function("perm!%d" % tag, *bs, Iz, Iz)
    qf = z3.Function("iperm!%d" % tag, *bs, Iz, Iz)
    p = lambda i: pf(*snap, i)
    q = lambda i: qf(*snap, i)
    i = z3.Int("q_s%d" % tag)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    if src.arr is not None:
        arr = e.fresh(src.arr.sort(), "sorted")
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), arr[i] == src.arr[z3.simplify(e.zi(src.off) + p(i))]), patterns=[arr[i]]))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), arr[q(i)] == src.arr[z3.simplify(e.zi(src.off) + i)]), patterns=[q(i)]))
        e.valid_elements(arr, n, src.etype)
        r = e.new(PList(n=s.n, arr=arr, off=0, etype=src.etype))
    else:
        r = e.new(PList(n=s.n, get=lambda i: e.list_get_raw(src, p(i))))
    r.perm = (p, q, src)
    io = getattr(s, "items_of", None)
    if io is not None and key is None and e.simple(io[1]) and e.simple(io[2]):
        # the keys of a dictionary are distinct, so its sorted items are determined by its content
        r.canon, r.canon_t = io[0], ItemsT(io[1], io[2])
        e.assumed.add("sorted(d.items()) is determined by the content of d, and determines it")
    # order (pairwise, and adjacent for instantiation)
    kr = lambda i: kf(e.list_get_raw(r, i))
    a = e.forall_idx(0, n, lambda x: e.forall_idx(norm(z3.simplify(x + 1)), n, lambda y: e.le(kr(x), kr(y))))
    e.assume(E.zb(a))
    kd = keyed(src)
    if kd is not None:
        set_keyed(r, Keyed(kd.kt, kd.pos, kd.has, kd.elem, lambda k: q(kd.at(k))))
        keyed_facts(e, r)
    # an already sorted input is returned as is (stability)
    ks = lambda i: kf(e.list_get_raw(src, i))
    issorted = e.forall_idx(0, n, lambda x: e.forall_idx(norm(z3.simplify(x + 1)), n, lambda y: e.le(ks(x), ks(y))))
    e.assume(z3.Implies(E.zb(issorted), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), p(i) == i), patterns=[p(i)])))
    e.lib_used.add("sorted(): stable permutation in key order")
    if memo is not None and r.arr is not None and all(k == "fact" for k, _ in e.pc[pcm:]):
        r0 = e.snapshot(r)
        r0.perm = r.perm
        copy_canon(r0, r)
        e.sort_memo.append((memo[0], (r0, [f for _, f in e.pc[pcm:]])))
    return r


def already_sorted(e, src, n, kf, key):
    """the result of a sort by the same key, or a sequence whose order follows from the hypotheses"""
    for k, v in e.sort_memo:
        if v is None or v[0].arr is None or not v[0].arr.eq(key[0]) or len(k) != len(key): continue
        if not (z3.is_int_value(key[2]) and key[2].as_long() == 0 and z3.is_int_value(k[2]) and k[2].as_long() == 0 and k[1].eq(key[1])): continue
        if all(z3.substitute(x, (k[0], key[0])).eq(y) for x, y in zip(k[3:], key[3:])): return True
    if all(c.startswith("arg_") for c in E.consts_of(src.arr)) or keyed(src) is not None: return False
    ks = lambda i: kf(e.list_get_raw(src, i))
    try: goal = e.forall_idx(0, n, lambda x: e.forall_idx(norm(z3.simplify(x + 1)), n, lambda y: e.le(ks(x), ks(y))))
    except Unsupported: return False
    return e.entails([x for _, x in e.pc], E.zb(goal), 1500)


def sort_memo(e, src, n, kf):
    """sorting the same sequence by the same key again gives the same result"""
    if src.arr is None or e.bound: return None
    i = z3.Int("q_key")
    def run():
        v = kf(e.list_get_raw(src, i))
        return [e.enc(x, e.typeof(x), freeze=False) for x in (v if isinstance(v, tuple) else (v,))]
    e.bound.append(i)
    try: outs = e.explore(run, "pure")
    except (Unsupported, E.Impure): return None
    finally: e.bound.pop()
    if len(outs) != 1 or outs[0].kind != "ok": return None
    key = [src.arr, n, e.zi(src.off)] + list(outs[0].value)
    for k, r in e.sort_memo:
        if len(k) == len(key) and all(x.eq(y) for x, y in zip(k, key)): return key, r
    return key, None


def comparable(t):
    """any two values of this type can be compared with <"""
    if isinstance(t, TupT): return all(comparable(x) for x in t.ts)
    if isinstance(t, ListT): return t.t is not None and comparable(t.t)
    return isinstance(t, (IntT, BoolT, StrT, RealT, ItemsT))


def list_order(e, a, b, strict):
    """lexicographic order on the sorted items of dictionaries: some strict total order on the contents"""
    ca, cb = getattr(a, "canon", None), getattr(b, "canon", None)
    if ca is None or cb is None or ca.sort() != cb.sort():
        # sequences of plain comparable values: comparing them cannot fail, the order is not known
        ts = [e.typeof(x).t for x in (a, b)]
        if ts[0] is None or ts[0] != ts[1] or not comparable(ts[0]): raise Unsupported("ordering of symbolic sequences")
        for x in (a, b): e.forall_idx(0, x.n if not x.concrete else len(x.items), lambda i: (e.list_get_raw(x, i), True)[1])
        return e.fresh(z3.BoolSort(), "listlt")
    s = ca.sort()
    f = z3.Function("itemslt_%d" % abs(hash(s.sexpr())), s, s, z3.BoolSort())
    # instances of the axioms of a strict total order for the contents compared so far
    key = ("items", s.sexpr())
    seen = e.keyseqs.setdefault(key, [])
    for c in (ca, cb):
        if not any(c.eq(d) for d in seen): seen.append(c)
    if len(seen) > 6: raise Unsupported("ordering of many dictionaries")
    for x in seen:
        for y in seen:
            if x.eq(y): e.assume(z3.Not(f(x, y))); continue
            e.assume(z3.And(z3.Implies(f(x, y), z3.And(x != y, z3.Not(f(y, x)))), z3.Or(f(x, y), f(y, x), x == y)))
            for z in seen:
                if not z.eq(x) and not z.eq(y): e.assume(z3.Implies(z3.And(f(x, y), f(y, z)), f(x, z)))
    e.assumed.add("tuples of sorted dictionary items are strictly totally ordered by <")
    return norm(z3.simplify(f(ca, cb) if strict else z3.Not(f(cb, ca))))


# ---------------------------------------------------------------- dicts and sets

def dict_copy(e, d):
    d.leaked = True
    r = e.new(PDict(items=[list(x) for x in d.items] if d.concrete else None, map=d.map, kt=d.kt, vt=d.vt, default=d.default))
    r.keyseq = d.keyseq
    if getattr(d, "counter", False): r.counter = True
    return r


def dict_keys(e, d):
    if d.concrete: return PList(items=[k for k, _ in d.items], kind="iter")
    if d.keyseq is None:
        n = e.fresh(z3.IntSort(), "nkeys")
        arr = e.fresh(z3.ArraySort(z3.IntSort(), sort_of(d.kt)), "keys")
        e.fresh_n += 1
        snap = list(e.bound)
        pos = z3.Function("kpos!%d" % e.fresh_n, *[b.sort() for b in snap], sort_of(d.kt), z3.IntSort())
        s = sort_of(OptT(d.vt))
        mp = d.map
        if mp.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            mp = e.fresh(d.map.sort(), "map")
            e.assume(mp == d.map)
        i = z3.Int("q_d%d" % e.fresh_n)
        k = z3.Const("q_dk%d" % e.fresh_n, sort_of(d.kt))
        e.assume(n >= 0)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Not(s.is_none(mp[arr[i]])), pos(*snap, arr[i]) == i)), patterns=[arr[i]]))
        e.assume(z3.ForAll([k], z3.Implies(z3.Not(s.is_none(mp[k])), z3.And(0 <= pos(*snap, k), pos(*snap, k) < n, arr[pos(*snap, k)] == k)),
                           patterns=[mp[k]]))
        d.keyseq = (n, arr, lambda k: pos(*snap, k))
    n, arr, at = d.keyseq
    r = e.new(PList(n=n, arr=arr, off=0, etype=d.kt, kind="iter"))
    mp, kt, so = d.map, d.kt, sort_of(OptT(d.vt))
    return set_keyed(r, Keyed(kt, None, lambda k: z3.Not(so.is_none(mp[k])), lambda k: e.dec(k, kt), at))


def dict_len(e, d):
    if d.concrete: return len(d.items)
    return dict_keys(e, d).n


def dict_from_pairs(e, l):
    l = e.to_seq(l)
    d = e.new(PDict(items=[]))
    if l.concrete:
        for p in l.items:
            k, v = e.unpack(p, 2)
            e.dict_set(d, k, v)
        return d
    # symbolic: for every key, the last pair with that key wins
    kd = keyed(l)
    l = e.snapshot(e.materialize(l))
    t = e.typeof(l).t
    if not isinstance(t, TupT) or len(t.ts) != 2: raise Unsupported("dict of pairs")
    kt, vt = t.ts
    n = e.zi(l.n)
    e.fresh_n += 1
    tag = e.fresh_n
    snap = list(e.bound)
    so = sort_of(OptT(vt))
    m = e.fresh(z3.ArraySort(sort_of(kt), so), "dmap")
    last = z3.Function("last!%d" % tag, *[b.sort() for b in snap], sort_of(kt), z3.IntSort())
    K = z3.Const("q_K%d" % tag, sort_of(kt))

    def pair(i):
        kv = e.list_get_raw(l, i)
        return e.enc(kv[0], kt), e.enc(kv[1], vt)
    q = z3.Int("q_p%d" % tag)
    # every pair's key is present, with the value of its last occurrence
    def body(i):
        k, v = pair(i)
        li = last(*snap, k)
        return z3.And(i <= li, li < n, z3.Not(so.is_none(m[k])))
    e.assume(E.zb(e.forall_idx(0, n, body)))
    lk = last(*snap, K)
    e.bound.append(K)
    try:
        kk, vv = pair(lk)
    finally:
        e.bound.pop()
    e.assume(z3.ForAll([K], z3.Implies(z3.Not(so.is_none(m[K])), z3.And(0 <= lk, lk < n, kk == K, so.val(m[K]) == vv)), patterns=[m[K]]))
    d = e.new(PDict(map=m, kt=kt, vt=vt))
    if kd is not None and (kd.pos != 0 or kd.kt != kt): kd = None
    if kd is not None:
        # every key exactly once
        ki = kd.at(K)
        e.bound.append(K)
        try: kk, vv = pair(ki)
        finally: e.bound.pop()
        e.assume(z3.ForAll([K], z3.Not(so.is_none(m[K])) == kd.has(K), patterns=[m[K]]))
        e.assume(z3.ForAll([K], z3.Implies(kd.has(K), z3.And(0 <= ki, ki < n, lk == ki, kk == K, so.val(m[K]) == vv)), patterns=[m[K]]))
    distinct = kd is not None
    if not distinct:
        distinct = e.forall_idx(0, n, lambda i: e.forall_idx(0, i, lambda j: z3.Not(pair(i)[0] == pair(j)[0])))
        distinct = e.entails([h for _, h in e.pc], E.zb(distinct), 3000)
    if distinct:
        # the keys are the first components, in this order
        ks = e.materialize(map_seq(e, lambda p: e.force(p)[0], l))
        if ks.arr is not None and z3.is_int_value(z3.simplify(e.zi(ks.off))) and z3.simplify(e.zi(ks.off)).as_long() == 0:
            d.keyseq = (n, ks.arr, lambda k: last(*snap, k))
    return d


def make_set(e, l):
    if l.concrete:
        out = []
        for x in l.items:
            x = e.hashable(x)
            if e.const_key(x) and all(e.const_key(y) for y in out):
                if x not in out: out.append(x)
            elif not e.branch(e.contains(e.new(PList(items=list(out))), x)): out.append(x)
        return e.new(PSet(items=out))
    raise Unsupported("symbolic set")


def set_has(e, s, x):
    if s.concrete: return norm(E.disj([E.zb(e.eq(y, x)) for y in s.items]))
    raise Unsupported("symbolic set")


def set_eq(e, a, b):
    raise Unsupported("set equality")


def method(e, o, name):
    if isinstance(o, str) or is_zstr(o): return str_method(e, o, name)
    if isinstance(o, PList): return list_method(e, o, name)
    if isinstance(o, tuple): return list_method(e, e.as_list(o), name)
    if isinstance(o, PDict): return dict_method(e, o, name)
    if isinstance(o, PSet): return set_method(e, o, name)
    if isinstance(o, Func) and name == "__name__": return o.name
    if isinstance(o, Native) and name == "from_iterable": return Native("chain.from_iterable", lambda e, a, k: flatten(e, e.to_seq(a[0]), "iter"))
    raise Unsupported("attribute %s of %r" % (name, o))


def set_method(e, s, name):
    if name == "add":
        def f(e, a, k):
            x = e.hashable(a[0])
            if e.branch(set_has(e, s, x)): return None
            old = s.items
            e.on_write(s, None, lambda: setattr(s, "items", old))
            s.items = s.items + [x]
        return Native("set.add", f)
    if name == "clear":
        def f(e, a, k):
            old = s.items
            e.on_write(s, None, lambda: setattr(s, "items", old))
            s.items = []
        return Native("set.clear", f)
    if name == "union":
        def f(e, a, k): return make_set(e, PList(items=list(s.items) + list(e.to_seq(a[0]).items)))
        return Native("set.union", f)
    raise Unsupported("set." + name)


def list_method(e, l, name):
    def m(f): return Native("list." + name, f)
    if name == "append": return m(lambda e, a, k: e.list_append(l, a[0]))
    if name == "extend": return m(lambda e, a, k: e.list_extend(l, a[0]))
    if name == "copy":
        def f(e, a, k):
            r = e.snapshot(l); r.kind = "list"
            return e.new(r)
        return m(f)
    if name == "insert":
        def f(e, a, k):
            if a[0] != 0: raise Unsupported("insert")
            r = e.list_concat(e.new(PList(items=[a[1]])), e.snapshot(l))
            if not r.concrete:
                r = e.materialize(r)
            kd, x = keyed(l), None
            if kd is not None and kd.pos is None:
                x = e.enc(a[1], kd.kt)
                if not e.entails([h for _, h in e.pc], z3.Not(kd.has(x)), 2000): x = None
            e.list_write(l)
            l.items, l.n, l.arr, l.off, l.etype, l.get_ = r.items, r.n, r.arr, r.off, r.etype, r.get_
            if x is not None:
                set_keyed(l, Keyed(kd.kt, None, lambda k: z3.Or(k == x, kd.has(k)), kd.elem, lambda k: z3.If(k == x, z3.IntVal(0), 1 + kd.at(k))))
                keyed_facts(e, l)
        return m(f)
    if name == "pop":
        def f(e, a, k):
            i = a[0] if a else -1
            if not l.concrete or not isinstance(i, int): raise Unsupported("pop of symbolic list")
            if not l.items: e.raise_("IndexError")
            e.list_write(l)
            its = list(l.items)
            x = its.pop(i)
            l.items = its
            return x
        return m(f)
    if name == "sort":
        def f(e, a, k):
            r = sort_list(e, e.snapshot(l), k.get("key"), k.get("reverse", False))
            e.list_write(l)
            l.items, l.n, l.arr, l.off, l.etype, l.get_ = r.items, r.n, r.arr, r.off, r.etype, r.get_
        return m(f)
    if name == "reverse":
        def f(e, a, k):
            r = reversed_seq(e, e.snapshot(l), "list")
            e.list_write(l)
            l.items, l.n, l.arr, l.off, l.etype, l.get_ = r.items, r.n, r.arr, r.off, r.etype, r.get_
        return m(f)
    raise Unsupported("list." + name)


def dict_method(e, d, name):
    if name not in ("keys", "__iter__", "__contains__"): d.leaked = True
    def m(f): return Native("dict." + name, f)
    if name == "get":
        return m(lambda e, a, k: e.dict_get_default(d, a[0], a[1] if len(a) > 1 else k.get("default")))
    if name == "copy": return m(lambda e, a, k: dict_copy(e, d))
    if name in ("keys", "__iter__"): return m(lambda e, a, k: dict_keys(e, d))
    if name == "__contains__": return m(lambda e, a, k: e.dict_has(d, a[0]))
    if name == "items":
        def f(e, a, k):
            if d.concrete: return e.new(PList(items=[(x, y) for x, y in d.items], kind="iter"))
            ks = dict_keys(e, d)
            mp, vt = d.map, d.vt
            so = sort_of(OptT(vt))
            r = e.new(PList(n=ks.n, get=lambda i: (e.list_get_raw(ks, i), e.dec(so.val(mp[e.enc(e.list_get_raw(ks, i), d.kt)]), vt)), kind="iter"))
            r.items_of = (mp, d.kt, vt)
            kd = keyed(ks)
            kt = d.kt
            if kd is not None: set_keyed(r, Keyed(kt, 0, kd.has, lambda k: (e.dec(k, kt), e.dec(so.val(mp[k]), vt)), kd.at))
            return r
        return m(f)
    if name == "values":
        def f(e, a, k):
            if d.concrete: return e.new(PList(items=[y for _, y in d.items], kind="iter"))
            it = dict_method(e, d, "items").fn(e, [], {})
            return map_seq(e, lambda p: p[1], it)
        return m(f)
    if name == "update":
        def f(e, a, k):
            if k: raise Unsupported("update(**)")
            o = e.force(a[0])
            if not isinstance(o, PDict):
                o = dict_from_pairs(e, e.to_seq(o))
            o.leaked, d.owned = True, False
            if o.concrete:
                for x, y in o.items: e.dict_set(d, x, y)
                return
            t = e.join(e.typeof(d), e.typeof(o))
            mo, md = e.dict_map(o, t), e.dict_map(d, t)
            so = sort_of(OptT(t.v))
            r = e.fresh(md.sort(), "upd")
            e.fresh_n += 1
            K = z3.Const("q_u%d" % e.fresh_n, sort_of(t.k))
            e.assume(z3.ForAll([K], r[K] == z3.If(so.is_none(mo[K]), md[K], mo[K])))
            e.dict_write(d)
            d.items, d.map, d.kt, d.vt = None, r, t.k, t.v
        return m(f)
    if name == "setdefault":
        def f(e, a, k):
            if e.branch(e.dict_has(d, a[0])): return e.dict_get(d, a[0])
            v = a[1] if len(a) > 1 else None
            e.dict_set(d, a[0], v)
            return v
        return m(f)
    if name == "pop":
        def f(e, a, k):
            if not d.concrete or not e.const_key(a[0]): raise Unsupported("dict.pop")
            for i, (kk, v) in enumerate(d.items):
                if kk == a[0]:
                    e.dict_write(d)
                    d.items = d.items[:i] + d.items[i + 1:]
                    return v
            if len(a) > 1: return a[1]
            e.raise_("KeyError")
        return m(f)
    if name == "most_common":
        def f(e, a, k):
            if a and a[0] != 1: raise Unsupported("most_common")
            if not a:
                e.lib_used.add("Counter.most_common(): the items, by decreasing count")
                items = dict_method(e, d, "items").fn(e, [], {})
                return sort_list(e, e.to_seq(items), Native("-count", lambda e, a, k: norm(z3.simplify(-e.zi(e.force(a[0])[1])))), False)
            it = e.to_seq(dict_method(e, d, "items").fn(e, [], {}))
            if it.concrete:
                if not it.items: return e.new(PList(items=[]))
                best = it.items[0]
                for x in it.items[1:]:
                    best = e.merged(lambda x=x, best=best: x if e.branch(e.lt(best[1], x[1])) else best)
                return e.new(PList(items=[best]))
            n = e.zi(it.n)
            if not e.entails([h for _, h in e.pc], n > 0, 1500) and e.branch(n <= 0): return e.new(PList(items=[]))
            p = e.fresh(z3.IntSort(), "best")
            e.assume(z3.And(0 <= p, p < n))
            best = e.list_get_raw(it, p)
            e.assume(E.zb(e.forall_idx(0, n, lambda i: e.le(e.list_get_raw(it, i)[1], best[1]))))
            kd, so = keyed(it), sort_of(OptT(d.vt))
            if kd is not None and isinstance(d.vt, IntT):
                K = z3.Const("q_best%d" % e.nq(), sort_of(kd.kt))
                mp = d.map
                x = e.enc(best[0], kd.kt)
                e.assume(z3.And(kd.has(x), kd.at(x) == p))
                e.assume(z3.ForAll([K], z3.Implies(kd.has(K), so.val(mp[K]) <= e.zi(best[1])), patterns=[mp[K]]))
            e.lib_used.add("Counter.most_common(1): an item of maximal count")
            return e.new(PList(items=[best]))
        return m(f)
    raise Unsupported("dict." + name)


# ---------------------------------------------------------------- other libraries

def deepcopy(e, v):
    """a structurally equal value sharing no mutable cell with the original"""
    v0 = v
    if isinstance(v, UVal): return e.try_merged(lambda: deepcopy(e, e.force(v)))
    if v is None or isinstance(v, (bool, int, str, float)): return v
    if isinstance(v, tuple): return tuple(deepcopy(e, x) for x in v)
    if isinstance(v, PDict):
        r = dict_copy(e, v)
        if r.concrete: r.items = [[k, deepcopy(e, x)] for k, x in r.items]
        return r
    if isinstance(v, PList):
        r = e.snapshot(v)
        if r.concrete: r.items = [deepcopy(e, x) for x in r.items]
        return e.new(r)
    if isinstance(v, Obj) and v.lazy: return v
    if is_z(v):
        return v
    raise Unsupported("deepcopy of %r" % (v,))


def make_extern(eng):
    x = {}

    def reg(*names):
        def deco(f):
            for n in names: x[n] = Native(n, f)
            return f
        return deco

    @reg("operator.attrgetter")
    def _ag(e, a, k):
        names = list(a)

        def get(e, b, k):
            vs = [e.getattr_(b[0], n) for n in names]
            return vs[0] if len(vs) == 1 else tuple(vs)
        return Native("attrgetter", get)

    @reg("operator.itemgetter")
    def _ig(e, a, k):
        return Native("itemgetter", lambda e, b, k: e.getitem(b[0], a[0]) if len(a) == 1 else tuple(e.getitem(b[0], i) for i in a))

    @reg("copy.deepcopy")
    def _dc(e, a, k): return deepcopy(e, a[0])

    @reg("copy.copy")
    def _cc(e, a, k):
        v = e.force(a[0])
        if isinstance(v, PDict): return dict_copy(e, v)
        if isinstance(v, PList): return list_method(e, v, "copy").fn(e, [], {})
        raise Unsupported("copy.copy")

    @reg("itertools.chain")
    def _chain(e, a, k):
        if len(a) == 1 and isinstance(a[0], E.StarSeq): return flatten(e, a[0].l, "iter")
        return chain_seqs(e, a)

    @reg("collections.OrderedDict")
    def _od(e, a, k): return e.builtins["dict"].fn(e, a, k)

    @reg("collections.defaultdict")
    def _dd(e, a, k):
        d = e.new(PDict(items=[]))
        d.owned = True
        d.default = a[0] if a else None
        return d

    @reg("collections.namedtuple")
    def _nt(e, a, k):
        names = a[1]
        if isinstance(names, PList): names = [n for n in names.items]
        elif isinstance(names, str): names = names.replace(",", " ").split()
        c = Cls(a[0], None)
        c.fields = list(names)
        return c

    @reg("collections.Counter")
    def _counter(e, a, k):
        return counter(e, a)

    @reg("random.random")
    def _random(e, a, k):
        r = e.fresh(z3.RealSort(), "rnd")
        e.assume(z3.And(0 <= r, r < 1))
        return r

    @reg("itertools.islice")
    def _islice(e, a, k):
        o = e.force(a[0])
        if len(a) != 2: raise Unsupported("islice")
        if isinstance(o, Obj) and o.cls.lookup("take")[0] is not None:
            e.lib_used.add("itertools.islice(it, k): the next min(k, rest) elements of the iterator")
            return e.call(e.getattr_(o, "take"), [a[1]], {})
        raise Unsupported("islice of %r" % (o,))

    @reg("random.Random")
    def _Random(e, a, k):
        o = e.new(Obj(Cls("Random", None)))
        o.native_attrs = {"randrange": Native("randrange", randrange), "shuffle": Native("shuffle", shuffle)}
        e.lib_used.add("random.Random: randrange(a, b) is some integer in [a, b), ValueError if there is none; shuffle permutes the list")
        return o

    def randrange(e, a, k):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        lo, hi = e.zi(lo), e.zi(hi)
        if e.branch(lo >= hi): e.raise_("ValueError")
        r = e.fresh(z3.IntSort(), "rnd")
        e.assume(z3.And(lo <= r, r < hi))
        return r

    def shuffle(e, a, k):
        l = e.force(a[0])
        if not isinstance(l, PList) or l.kind != "list": raise Unsupported("shuffle")
        if l.concrete and not l.items: return None
        src = e.snapshot(l)
        t = e.typeof(src).t if src.etype is None else src.etype
        n = e.zi(e.length(l))
        e.fresh_n += 1
        snap = list(e.bound)
        bs = [b.sort() for b in snap]
        Iz = z3.IntSort()
        perm_f, inv_f = z3.Function("perm!%d" % e.fresh_n, *bs, Iz, Iz), z3.Function("iperm!%d" % e.fresh_n, *bs, Iz, Iz)
        perm, inv = (lambda i: perm_f(*snap, i)), (lambda i: inv_f(*snap, i))
        q = z3.Int("q_sh%d" % e.fresh_n)
        arr = e.fresh(z3.ArraySort(Iz, sort_of(t)), "shuf")
        e.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= perm(q), perm(q) < n, inv(perm(q)) == q)), patterns=[perm(q)]))
        e.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= inv(q), inv(q) < n, perm(inv(q)) == q)), patterns=[inv(q)]))
        e.bound.append(q)
        try: at = e.enc(e.list_get_raw(src, perm(q)), t, freeze=False)
        finally: e.bound.pop()
        e.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), arr[q] == at), patterns=[arr[q]]))
        e.list_write(l)
        l.items, l.n, l.arr, l.off, l.etype, l.get_ = None, norm(n), arr, 0, t, None
        return None

    @reg("sys.stdout.write", "sys.stdout.flush", "sys.stderr.write", "sys.stderr.flush")
    def _out(e, a, k): return None

    @reg("time.time")
    def _time(e, a, k): return e.fresh(z3.RealSort(), "time")

    @reg("os.path.join")
    def _join(e, a, k):
        r = a[0]
        for p in a[1:]:
            if isinstance(r, str) and isinstance(p, str):
                import posixpath
                r = posixpath.join(r, p)
                continue
            x, y = e.zs(r), e.zs(p)
            sl = z3.StringVal("/")
            r = norm(z3.simplify(z3.If(z3.PrefixOf(sl, y), y, z3.If(z3.Or(x == z3.StringVal(""), z3.SuffixOf(sl, x)), z3.Concat(x, y), z3.Concat(x, sl, y)))))
        return r
    for n in ("typing.Generic", "typing.TypeVar", "typing.List", "typing.Dict"): pass
    x["typing.TypeVar"] = Native("TypeVar", lambda e, a, k: Opaque("typevar"))
    return x


def counter(e, a):
    if not a:
        d = e.new(PDict(items=[])); d.counter = True
        return d
    v = e.force(a[0])
    if isinstance(v, PDict):
        d = dict_copy(e, v); d.counter = True
        return d
    s = e.to_seq(v)
    d = e.new(PDict(items=[]))
    d.counter = True
    if s.concrete:
        import ast
        for x in s.items:
            e.dict_set(d, x, e.binop(ast.Add(), e.dict_get_default(d, x, 0), 1))
        return d
    # symbolic: keys are exactly the elements, counts are positive
    s = e.snapshot(e.materialize(s))
    t = s.etype if s.arr is not None else e.typeof(s).t
    if t is None: raise Unsupported("Counter")
    e.key_type(t)
    n = e.zi(s.n)
    so = sort_of(OptT(IntT()))
    m = e.fresh(z3.ArraySort(sort_of(t), so), "cnt")
    e.fresh_n += 1
    snap = list(e.bound)
    wit = z3.Function("wit!%d" % e.fresh_n, *[b.sort() for b in snap], sort_of(t), z3.IntSort())
    K = z3.Const("q_c%d" % e.fresh_n, sort_of(t))
    e.assume(E.zb(e.forall_idx(0, n, lambda i: z3.Not(so.is_none(m[e.enc(e.list_get_raw(s, i), t)])))))
    e.bound.append(K)
    try:
        at = e.enc(e.list_get_raw(s, wit(*snap, K)), t)
    finally:
        e.bound.pop()
    w = wit(*snap, K)
    e.assume(z3.ForAll([K], z3.Implies(z3.Not(so.is_none(m[K])), z3.And(so.val(m[K]) >= 1, so.val(m[K]) <= n, 0 <= w, w < n, at == K)), patterns=[m[K]]))
    d.items, d.map, d.kt, d.vt = None, m, t, IntT()
    if not snap:
        for m2, n2, s2, t2 in e.counters:
            if t2 != t: continue
            each = E.zb(e.forall_idx(0, n, lambda i: e.enc(e.list_get_raw(s, i), t) == e.enc(e.list_get_raw(s2, i), t)))
            pc = [h for _, h in e.pc]
            same = (n.eq(n2) or e.entails(pc, n == n2, 500)) and e.entails(pc, each, 2000)
            e.assume(m == m2 if same else z3.Implies(z3.And(n == n2, each), m == m2))
        e.counters = e.counters + [(m, n, s, t)]
    e.lib_used.add("Counter(xs): keys are exactly the elements of xs, counts between 1 and len(xs)")
    return d
