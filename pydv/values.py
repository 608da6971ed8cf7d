"""Types, sorts and symbolic values of the pydv deductive verifier."""
import z3


class Unsupported(Exception):
    """The construct is outside the verified subset: no verdict from the proof."""


class PathEnd(Exception):
    """The current symbolic path is finished (nothing left to check on it)."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, exc):
        Exception.__init__(self, str(exc))
        self.exc = exc


from .types import *


# ------------------------------------------------------------------ sorts

_sorts = {}


def _mangle(t):
    if isinstance(t, OptT): return "Opt_" + _mangle(t.t)
    if isinstance(t, TupT): return "Tup_" + "_".join(map(_mangle, t.ts))
    if isinstance(t, ListT): return "List_" + _mangle(t.t)
    if isinstance(t, ItemsT): return "Items_%s_%s" % (_mangle(t.k), _mangle(t.v))
    if isinstance(t, DictT): return "Dict_%s_%s" % (_mangle(t.k), _mangle(t.v))
    if isinstance(t, RecT): return t.ref.split(":")[1]
    if isinstance(t, AnyT): return "Any_" + t.name
    return type(t).__name__[:-1]


def sort_of(t):
    if t in _sorts: return _sorts[t]
    if isinstance(t, NTT): return sort_of(TupT(*t.ts))
    if isinstance(t, IntT): s = z3.IntSort()
    elif isinstance(t, BoolT): s = z3.BoolSort()
    elif isinstance(t, StrT): s = z3.StringSort()
    elif isinstance(t, RealT): s = z3.RealSort()
    elif isinstance(t, AnyT): s = z3.DeclareSort("Any_" + t.name)
    elif isinstance(t, NoneT):
        d = z3.Datatype("NoneSort"); d.declare("none"); s = d.create()
    elif isinstance(t, OptT):
        d = z3.Datatype(_mangle(t)); d.declare("none"); d.declare("some", ("val", sort_of(t.t))); s = d.create()
    elif isinstance(t, TupT):
        d = z3.Datatype(_mangle(t)); d.declare("mk", *[("f%d" % i, sort_of(x)) for i, x in enumerate(t.ts)]); s = d.create()
    elif isinstance(t, ListT):
        d = z3.Datatype(_mangle(t)); d.declare("mk", ("arr", z3.ArraySort(z3.IntSort(), sort_of(t.t))), ("len", z3.IntSort())); s = d.create()
    elif isinstance(t, (DictT, ItemsT)):
        s = z3.ArraySort(sort_of(t.k), sort_of(OptT(t.v)))
    elif isinstance(t, RecT):
        d = z3.Datatype(_mangle(t)); d.declare("mk", *[(n, sort_of(x)) for n, x in t.fields.items()]); s = d.create()
    else:
        raise Unsupported("no sort for type %r" % (t,))
    _sorts[t] = s
    return s


# ------------------------------------------------------------------ values
# concrete Python None/bool/int/str/float/tuple, z3 ExprRef, and the classes below

def is_z(v): return isinstance(v, z3.ExprRef)
def is_zint(v): return isinstance(v, z3.ArithRef) and v.is_int()
def is_zreal(v): return isinstance(v, z3.ArithRef) and v.is_real()
def is_zbool(v): return isinstance(v, z3.BoolRef)
def is_zstr(v): return isinstance(v, z3.SeqRef)


def norm(v):
    """z3 literal -> Python constant."""
    if isinstance(v, z3.ExprRef):
        if z3.is_int_value(v): return v.as_long()
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_string_value(v): return zstr_py(v)
    return v


def zstr_py(v):
    s = v.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16))); i = j + 1
        else:
            out.append(s[i]); i += 1
    return "".join(out)


class Ghost:
    pass


class Cell:
    """Mutable heap entity."""
    frozen = False


class UVal:
    """Guarded union: exactly one of the guards holds."""
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return "UVal(%r)" % (self.alts,)


class PList(Cell):
    """list/tuple/iterator view.  Concrete: items is a Python list.  Symbolic: n and
    either (arr, off, etype) or get (z3 Int -> value)."""
    def __init__(self, items=None, n=None, arr=None, off=0, etype=None, get=None, kind="list"):
        self.items, self.n, self.arr, self.off, self.etype, self.get_ = items, n, arr, off, etype, get
        self.kind = kind
        self.birth = 0
        self.src_fn = None

    @property
    def concrete(self): return self.items is not None

    def __repr__(self):
        return "PList(%s)" % (self.items if self.concrete else "n=%s arr=%s off=%s" % (self.n, self.arr, self.off))


class PDict(Cell):
    """dict. Concrete: items is a list of [key, value] with constant keys. Symbolic:
    map: Array(K, Opt V)."""
    def __init__(self, items=None, map=None, kt=None, vt=None, default=None):
        self.items, self.map, self.kt, self.vt = items, map, kt, vt
        self.default = default
        self.keyseq = None
        self.owned = False      # its list values were all created for it: d[k].append(x) changes nothing else
        self.leaked = False     # a list value was handed out
        self.birth = 0

    @property
    def concrete(self): return self.items is not None


class PSet(Cell):
    def __init__(self, items=None, pred=None, kt=None):
        self.items, self.pred, self.kt = items, pred, kt
        self.birth = 0

    @property
    def concrete(self): return self.items is not None


class Obj(Cell):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.rec = None      # (RecT, z3 expr) if the instance is denoted by constructor args
        self.lazy = False    # attrs come from the class layout applied to rec
        self.birth = 0
        self.args = ()       # exceptions

    def __repr__(self): return "<%s #%d>" % (self.cls.name, self.birth)


class Cls:
    def __init__(self, name, module, node=None, bases=(), builtin=None):
        self.name, self.module, self.node, self.bases, self.builtin = name, module, node, bases, builtin
        self.ns = {}
        self.qual = (module.name + ":" + name) if module is not None else name
        self.scope = None
        self.total_ordering = False
        self._mro = None
        self.fields = None    # namedtuple

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs: break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs): break
                else:
                    raise Unsupported("mro conflict for " + self.name)
                out.append(h)
                for s in seqs:
                    if s[0] is h: del s[0]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns: return c.ns[name], c
        return None, None

    def __repr__(self): return "<class %s>" % self.name


class Func:
    def __init__(self, node, module, scope, name, cls=None):
        self.node, self.module, self.scope, self.name, self.cls = node, module, scope, name, cls
        self.defaults = []
        self.kw_defaults = {}
        self.impure = False

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, (self.cls.name + ".") if self.cls else "", self.name)

    def __repr__(self): return "<func %s>" % self.qual


class Bound:
    def __init__(self, self_, fn): self.self_, self.fn = self_, fn


class ClassMethod:
    def __init__(self, fn): self.fn = fn


class StaticMethod:
    def __init__(self, fn): self.fn = fn


class Property:
    def __init__(self, fn): self.fn = fn


class Native:
    """Library function with an engine-level contract/definition."""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return "<native %s>" % self.name


class UFun:
    """Uninterpreted (arbitrary) pure function value."""
    def __init__(self, name, argts, rett):
        self.name, self.argts, self.rett = name, argts, rett
        self.decl = z3.Function(name, *[sort_of(t) for t in argts], sort_of(rett))


class Super:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class ModuleRef:
    def __init__(self, name): self.name = name


class Opaque:
    """A library value we know nothing about; using it is Unsupported."""
    def __init__(self, name): self.name = name
    def __repr__(self): return "<opaque %s>" % self.name
