"""Types of specification arguments (no solver dependency: shared by prover and run-time checker)."""


class T:
    def __eq__(self, o): return type(self) is type(o) and self.key() == o.key()
    def __hash__(self): return hash((type(self).__name__, self.key()))
    def key(self): return ()
    def __repr__(self): return type(self).__name__ + (repr(self.key()) if self.key() else "")


class IntT(T): pass
class BoolT(T): pass
class StrT(T): pass
class RealT(T): pass
class NoneT(T): pass


class AnyT(T):
    """Opaque values: an uninterpreted sort, only equality is known."""
    def __init__(self, name="any"): self.name = name
    def key(self): return (self.name,)


class OptT(T):
    def __init__(self, t): self.t = t
    def key(self): return (self.t,)


class TupT(T):
    def __init__(self, *ts): self.ts = ts
    def key(self): return self.ts


class NTT(TupT):
    """named tuples"""
    def __init__(self, cls, *ts): self.cls, self.ts = cls, ts
    def key(self): return (self.cls.name, self.ts)


class ListT(T):
    def __init__(self, t): self.t = t
    def key(self): return (self.t,)


class DictT(T):
    def __init__(self, k, v): self.k, self.v = k, v
    def key(self): return (self.k, self.v)


class ItemsT(T):
    """tuple(sorted(d.items())) of a dictionary d, represented by the content of d"""
    def __init__(self, k, v): self.k, self.v, self.t = k, v, TupT(k, v)
    def key(self): return (self.k, self.v)


class FnT(T):
    """An arbitrary pure function (uninterpreted)."""
    def __init__(self, args, ret): self.args, self.ret = tuple(args), ret
    def key(self): return (self.args, self.ret)


class RecT(T):
    """Instances of an immutable repository class, represented by the arguments of
    its constructor.  fields: ordered {param: type}."""
    def __init__(self, ref, **fields):
        self.ref = ref          # 'module:Class'
        self.fields = fields
    def key(self): return (self.ref, tuple(self.fields.items()))
    def __repr__(self): return "Rec(%s)" % self.ref



Int, Bool, Str, Real, NoneType = IntT(), BoolT(), StrT(), RealT(), NoneT()


def Opt(t): return OptT(t)
def List(t): return ListT(t)
def Tup(*ts): return TupT(*ts)
def Dict(k, v): return DictT(k, v)
def Fn(args, ret): return FnT(args, ret)
def Rec(ref, **f): return RecT(ref, **f)
def Any(name): return AnyT(name)
