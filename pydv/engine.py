"""pydv: symbolic execution + verification-condition generation for the repository's Python.

The code under verification is parsed from the repository's current working tree on every
run.  The interpreter below executes it on symbolic values; every path condition and every
obligation is an SMT formula.  Loops over unbounded data are cut by invariants (derived from
the loop body, or candidates from templates that are kept only if inductive)."""
import ast
import os
import time
import subprocess
import tempfile
import z3
from pydv.inst import grounded

EMATCH = {"mbqi": False, "auto_config": False, "string_solver": "none"}
NOEXT = dict(EMATCH, **{"array.extensional": False})
PATTERNS = {"mbqi": False}
SEQ = {"mbqi": False, "auto_config": False}
WEAK = (EMATCH, NOEXT, PATTERNS, SEQ)        # only a proof counts
from .values import *
from . import values as V

I = IntT(); B = BoolT(); S = StrT(); R = RealT(); N = NoneT()


class Impure(Exception):
    pass


class Restart(BaseException):
    pass


class Scope(Cell):
    def __init__(self, parent=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_ or set()
        self.nonlocals = set()
        self.birth = 0


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}
        self.values = {}
        self.stars = []


class Frame:
    def __init__(self, func, scope, module, cls=None, self_=None):
        self.func, self.scope, self.module, self.cls, self.self_ = func, scope, module, cls, self_
        self.yields = None


class Region:
    def __init__(self, prefix, work, mode, birth):
        self.dec = list(prefix)
        self.pos = 0
        self.work = work
        self.mode = mode
        self.mark = birth
        self.writes = []


class Outcome:
    __slots__ = ("kind", "value", "guards", "facts", "writes", "extra")


UNDEF = object()
RET, BRK, CONT = "ret", "brk", "cont"

_EXC_BASES = {c.__name__: c for c in (BaseException, Exception, ValueError, TypeError, KeyError, IndexError,
                                      AssertionError, RuntimeError, NotImplementedError, StopIteration,
                                      AttributeError, ZeroDivisionError, LookupError, ArithmeticError, UnicodeDecodeError,
                                      NameError, OSError, UnboundLocalError)}


def conj(xs):
    xs = [x for x in xs if not (x is True or (is_z(x) and z3.is_true(x)))]
    if any(x is False or (is_z(x) and z3.is_false(x)) for x in xs): return z3.BoolVal(False)
    if not xs: return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not (x is False or (is_z(x) and z3.is_false(x)))]
    if any(x is True or (is_z(x) and z3.is_true(x)) for x in xs): return z3.BoolVal(True)
    if not xs: return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def zb(x): return x if is_z(x) else z3.BoolVal(bool(x))


def znot(x):
    if not is_z(x): return not x
    return norm(z3.Not(x)) if not z3.is_not(x) else x.arg(0)


_hq, _co = {}, {}      # id -> (expression kept alive, answer)


def has_slice(t):
    """whether a formula takes parts of strings or joins them"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_CONCAT): return True
        todo += x.children()
    return False


def has_quant(e):
    r = _hq.get(e.get_id())
    if r is not None: return r[1]
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _hq: st.pop(); continue
        if z3.is_quantifier(x): _hq[i] = (x, True); st.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _hq]
        if todo: st.extend(todo); continue
        _hq[i] = (x, any(_hq[c.get_id()][1] for c in ch)); st.pop()
    return _hq[e.get_id()][1]


_qh = {}


def quant_height(e):
    """nesting depth of quantifiers"""
    if not has_quant(e): return 0
    r = _qh.get(e.get_id())
    if r is not None: return r[1]
    if z3.is_quantifier(e): v = 1 + quant_height(e.body())
    else: v = max(quant_height(c) for c in e.children())
    _qh[e.get_id()] = (e, v)
    return v


def canonical(q, body, exists):
    """a quantifier whose bound variable is named after its height: the same statement is the same expression"""
    c = z3.Const("Q!%s%d" % ("b" if q.sort() == z3.IntSort() else q.sort().name(), quant_height(body)), q.sort())
    body = z3.substitute(body, (q, c))
    return z3.Exists([c], body) if exists else z3.ForAll([c], body)


_EMPTY = frozenset()


def sorts_mentioned(e):
    """whether a formula speaks about the permutation of a sort"""
    return any(n.startswith(("perm!", "iperm!")) for n in consts_of(e))


def consts_of(e):
    r = _co.get(e.get_id())
    if r is not None: return r[1]
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _co: st.pop(); continue
        ch = [x.body()] if z3.is_quantifier(x) else x.children()
        todo = [c for c in ch if c.get_id() not in _co]
        if todo: st.extend(todo); continue
        out = _EMPTY
        for c in ch:
            o = _co[c.get_id()][1]
            if o is not out and o: out = out | o if not (out >= o) else out
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm not in out: out = out | {nm}
        _co[i] = (x, out); st.pop()
    return _co[e.get_id()][1]


class Obligation:
    def __init__(self, name, goal, hyps, loc):
        self.name, self.goal, self.hyps, self.loc = name, goal, hyps, loc
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None


class Engine:
    def __init__(self, root, timeout=10000, debug=False):
        self.root = root
        self.timeout = timeout
        self.debug = debug
        self.modules = {}
        self.classes = {}
        self.layouts = {}
        self.records = {}           # qual -> RecT
        self.axioms, self.axioms_on = [], set()      # of the contracts in use
        self.contracts = {}         # qual -> python callable(engine, args, kwargs)
        self.templates = []
        self.functions_seen = set()
        self.assumptions = set()
        self.assumed = set()
        self.obligations = []
        self.failed = []
        self.solver_time = 0.0
        self.deadline = None
        self.proved_memo = set()
        self.lib_used = set()
        self.loop_cache = {}
        self.no_merge = {}
        self.theorems = {}
        self.invariants_used = set()
        from . import lib
        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.extern = lib.make_extern(self)
        self.spec_natives = {}
        self.lively = {}         # loops that may be left early, by call chain
        self.struct = {}         # record types: is == equality of what denotes the values?
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self, prefix=(), work=None):
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.birth = 0
        self.fresh_n = 0
        self.bound = []
        self.loop_depth = 0
        self.valid_arrs = {}
        self.undo = []
        self.dry = 0
        self.regions = [Region(prefix, work if work is not None else [], "top", -1)]
        self.call_depth = 0
        self.stack = []
        self.havocked = set()
        self.keyseqs = {}
        self.ob_counter = 0
        self.loop_n = 0
        self.hints_on = False
        self.fresh_display = None
        self.counters = []
        self.flat_memo = []
        self.spec_invs = []
        self.psums = []
        self.sort_memo = []
        self.typing = 0
        self.rec_hooks = []

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("proof budget exhausted")

    def new(self, cell):
        self.birth += 1
        cell.birth = self.birth
        return cell

    def on_write(self, cell, key, restore):
        if cell.frozen:
            raise Unsupported("mutation of a value that was already stored by value")
        r = self.regions[-1]
        if cell.birth <= r.mark:
            for rr in self.regions:
                if rr.mode == "pure" and cell.birth <= rr.mark:
                    raise Impure()
            for rr in self.regions:
                if cell.birth <= rr.mark: rr.writes.append((cell, key))
            self.undo.append(restore)
        else:
            for rr in self.regions:
                if cell.birth <= rr.mark:
                    rr.writes.append((cell, key))

    def fresh(self, sort, hint="v"):
        self.fresh_n += 1
        name = "%s!%d" % (hint, self.fresh_n)
        if self.bound:
            f = z3.Function(name, *[b.sort() for b in self.bound], sort)
            return f(*self.bound)
        return z3.Const(name, sort)

    def fresh_val(self, t, hint="v"):
        """A fresh symbolic value of type t (with its type invariant assumed)."""
        if isinstance(t, NoneT): return None
        if isinstance(t, FnT):
            self.fresh_n += 1
            return UFun("%s!%d" % (hint, self.fresh_n), t.args, t.ret)
        e = self.fresh(sort_of(t), hint)
        return self.dec(e, t)

    def assume(self, e, kind="fact"):
        e = norm(e) if is_z(e) else e
        if e is True: return
        if e is False: raise PathEnd()
        if not is_z(e): raise Unsupported("assume of non-boolean")
        self.pc.append((kind, e))
        if not has_quant(e): self.solver.add(e)

    def feasible(self, e):
        t = time.time()
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        """Fork on a boolean; returns the Python bool taken on this path."""
        cond = norm(cond) if is_z(cond) else cond
        if not is_z(cond): return bool(cond)
        cond = norm(z3.simplify(cond))
        if not is_z(cond): return cond
        self.check_deadline()
        r = self.regions[-1]
        if r.pos < len(r.dec):
            c = r.dec[r.pos]
            r.pos += 1
            if c in (True, False):
                self.assume(cond if c else z3.Not(cond), "branch")
                return c
            return c == "T"      # forced
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond)) if ft else True
        if ft and ff:
            r.work.append(r.dec[:r.pos] + [False])
            r.dec.append(True); r.pos += 1
            self.assume(cond, "branch")
            return True
        r.dec.append("T" if ft else "F"); r.pos += 1
        return ft

    def choose(self, b, site=None, possible=None):
        """Fork on a fresh discriminator.  At sites where the first alternative was ruled out before, it is tried first."""
        r = self.regions[-1]
        if r.pos < len(r.dec):
            c = r.dec[r.pos]; r.pos += 1
            if c == "F": c = False
        else:
            if possible is not None and not self.dry and not self.bound and self.lively.get(site, 0) < 1:
                if not possible():
                    r.dec.append("F"); r.pos += 1
                    self.assume(z3.Not(b), "branch")
                    return False
                self.lively[site] = self.lively.get(site, 0) + 1
            r.work.append(r.dec[:r.pos] + [False])
            r.dec.append(True); r.pos += 1
            c = True
        self.assume(b if c else z3.Not(b), "branch")
        return c

    def explore(self, thunk, mode="pure", limit=200):
        """Run thunk on every path from here; state is rolled back after each one."""
        outs, work, cnt = [], [[]], 0
        while work:
            cnt += 1
            if cnt > limit: raise Unsupported("too many paths")
            prefix = work.pop()
            reg = Region(prefix, work, mode, self.birth)
            pcm, um = len(self.pc), len(self.undo)
            self.regions.append(reg)
            self.solver.push()
            o = Outcome()
            o.extra = None
            depth = self.call_depth
            known = self.counters
            try:
                o.value = thunk()
                o.kind = "ok"
            except PyRaise as e:
                o.kind, o.value = "raise", e.exc
            except PathEnd:
                o.kind = None
            finally:
                self.call_depth = depth
                new = self.pc[pcm:]
                while len(self.undo) > um: self.undo.pop()()
                del self.pc[pcm:]
                self.solver.pop()
                self.regions.pop()
            self.counters = known      # the facts about what was counted are rolled back
            o.guards = [e for k, e in new if k == "branch"]
            o.facts = [e for k, e in new if k != "branch"]
            o.writes = reg.writes
            if o.kind is not None: outs.append(o)
        return outs

    def sandbox(self, thunk, mode="track"):
        """Run thunk once (its forks belong to the current region) and roll back."""
        pcm, um = len(self.pc), len(self.undo)
        cur = self.regions[-1]
        reg = Region(cur.dec, cur.work, mode, self.birth)
        reg.pos = cur.pos
        self.regions.append(reg)
        self.solver.push()
        depth = self.call_depth
        try:
            return thunk(), reg
        finally:
            self.call_depth = depth
            while len(self.undo) > um: self.undo.pop()()
            del self.pc[pcm:]
            self.solver.pop()
            self.regions.pop()

    def lift_facts(self, outs):
        for o in outs:
            if o.facts:
                g = conj(o.guards)
                for f in o.facts:
                    self.assume(f if z3.is_true(g) else z3.Implies(g, f))

    def merged(self, thunk):
        """Run a side-effect free computation on all its paths and merge the results."""
        mark = self.birth
        outs = self.explore(thunk, "pure")
        if not outs: raise PathEnd()
        self.lift_facts(outs)
        if len(outs) == 1:
            for g in outs[0].guards: self.assume(g)
            if outs[0].kind == "raise": raise PyRaise(outs[0].value)
            return outs[0].value
        self.assume(disj([conj(o.guards) for o in outs]))
        rs = [o for o in outs if o.kind == "raise"]
        oks = [o for o in outs if o.kind == "ok"]
        if rs:
            rc = disj([conj(o.guards) for o in rs]) if oks else True
            if self.branch(rc):
                # which exception: classes are distinguished, instances are not
                for o in rs[:-1]:
                    if self.branch(conj(o.guards)): raise PyRaise(o.value)
                raise PyRaise(rs[-1].value)
        return self.merge_values([(conj(o.guards), o.value) for o in oks], mark)

    def try_merged(self, thunk):
        try:
            return self.merged(thunk)
        except Impure:
            return thunk()

    # ------------------------------------------------------------ merging
    def merge_values(self, alts, mark=None):
        if mark is None: mark = 1 << 60
        if len(alts) == 1: return alts[0][1]
        flat = []
        for g, v in alts:
            if isinstance(v, UVal):
                for g2, v2 in v.alts: flat.append((conj([g, g2]), v2))
            else:
                flat.append((g, v))
        # group same values
        groups = []
        for g, v in flat:
            for gr in groups:
                if self.same(gr[1], v):
                    gr[0].append(g); break
            else:
                groups.append([[g], v])
        alts = [(disj(gs), v) for gs, v in groups]
        if len(alts) == 1: return alts[0][1]
        vs = [v for _, v in alts]
        if all(isinstance(v, bool) or is_zbool(v) for v in vs):
            return norm(z3.simplify(self.ite(alts, zb)))
        if all((isinstance(v, int) and not isinstance(v, bool)) or is_zint(v) for v in vs):
            return self.ite(alts, lambda v: v if is_z(v) else z3.IntVal(v))
        if all(isinstance(v, str) or is_zstr(v) for v in vs):
            return self.ite(alts, self.zs)
        if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
            return tuple(self.merge_values([(g, v[i]) for g, v in alts], mark) for i in range(len(vs[0])))
        if all(isinstance(v, Obj) for v in vs) and all(v.rec is not None for v in vs) and len({v.rec[0] for v in vs}) == 1 \
                and len({v.cls for v in vs}) == 1:
            t = vs[0].rec[0]
            return self.dec(self.ite([(g, v.rec[1]) for g, v in alts], lambda x: x), t, inv=False)
        if all(isinstance(v, PList) for v in vs):
            try:
                t = None
                for v in vs: t = self.join(t, self.typeof(v))
                kinds = {v.kind for v in vs}
                if isinstance(t, ListT) and t.t is not None and len(kinds) == 1 and all(v.birth > mark or v.frozen or v.kind != "list" for v in vs):
                    e = self.ite([(g, self.enc(v, t, freeze=False)) for g, v in alts], lambda x: x)
                    r = self.dec(e, t, inv=False); r.kind = vs[0].kind
                    return r
            except Unsupported:
                pass
        if all(isinstance(v, PDict) and (v.birth > mark or v.frozen) for v in vs):
            try:
                t = None
                for v in vs: t = self.join(t, self.typeof(v))
                if isinstance(t, DictT) and t.k is not None and t.v is not None:
                    e = self.ite([(g, self.enc(v, t, freeze=False)) for g, v in alts], lambda x: x)
                    return self.dec(e, t, inv=False)
            except Unsupported:
                pass
        return UVal(alts)

    def same(self, a, b):
        if a is b: return True
        if is_z(a) and is_z(b): return a.sort() == b.sort() and a.eq(b)
        if is_z(a) or is_z(b): return False
        if isinstance(a, (int, str, float, bool, type(None))):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.rec is not None and b.rec is not None:
            return a.rec[0] == b.rec[0] and a.rec[1].eq(b.rec[1])
        return False

    def ite(self, alts, f):
        r = f(alts[-1][1])
        for g, v in reversed(alts[:-1]):
            r = z3.If(g, f(v), r)
        return r

    def force(self, v):
        """Resolve a guarded union by forking."""
        while isinstance(v, UVal):
            for g, x in v.alts[:-1]:
                if self.branch(g): v = x; break
            else:
                v = v.alts[-1][1]
        return v

    # ------------------------------------------------------------ types / encoding
    def typeof(self, v):
        if v is None: return N
        if isinstance(v, bool) or is_zbool(v): return B
        if isinstance(v, int) or is_zint(v): return I
        if isinstance(v, str) or is_zstr(v): return S
        if isinstance(v, float) or is_zreal(v): return R
        if isinstance(v, tuple): return TupT(*[self.typeof(x) for x in v])
        if isinstance(v, UVal):
            t = None
            for _, x in v.alts: t = self.join(t, self.typeof(x))
            return t
        if isinstance(v, PList):
            if v.kind == "tuple" and getattr(v, "canon_t", None) is not None: return v.canon_t
            if v.concrete:
                t = None
                for x in v.items: t = self.join(t, self.typeof(x))
                return ListT(t)
            if v.etype is not None: return ListT(v.etype)
            k = self.fresh(z3.IntSort(), "ty")
            o = self.explore(lambda: self.typeof(v.get_(k)))
            t = None
            for x in o:
                if x.kind == "ok": t = self.join(t, x.value)
            return ListT(t)
        if isinstance(v, PDict):
            if v.concrete:
                kt = vt = None
                for k, x in v.items: kt = self.join(kt, self.typeof(k)); vt = self.join(vt, self.typeof(x))
                return DictT(kt, vt)
            return DictT(v.kt, v.vt)
        if isinstance(v, Obj):
            if v.rec is not None: return v.rec[0]
            if v.cls.fields is not None: return NTT(v.cls, *[self.typeof(v.attrs[n]) for n in v.cls.fields])
            raise Unsupported("no type for object of class %s" % v.cls.name)
        if is_z(v):
            for t, s in V._sorts.items():
                if isinstance(t, AnyT) and s == v.sort(): return t
        raise Unsupported("no type for %r" % (v,))

    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        if a == b: return a
        if isinstance(a, NoneT): return b if isinstance(b, OptT) else OptT(b)
        if isinstance(b, NoneT): return self.join(b, a)
        if isinstance(a, OptT) and isinstance(b, OptT): return OptT(self.join(a.t, b.t))
        if isinstance(a, OptT): return OptT(self.join(a.t, b))
        if isinstance(b, OptT): return OptT(self.join(a, b.t))
        if isinstance(a, ListT) and isinstance(b, ListT): return ListT(self.join(a.t, b.t))
        if isinstance(a, DictT) and isinstance(b, DictT): return DictT(self.join(a.k, b.k), self.join(a.v, b.v))
        if isinstance(a, NTT) or isinstance(b, NTT):
            if type(a) is not type(b) or a.cls is not b.cls: raise Unsupported("cannot join types %r and %r" % (a, b))
            return NTT(a.cls, *[self.join(x, y) for x, y in zip(a.ts, b.ts)])
        if isinstance(a, TupT) and isinstance(b, TupT) and len(a.ts) == len(b.ts):
            return TupT(*[self.join(x, y) for x, y in zip(a.ts, b.ts)])
        if {type(a), type(b)} == {IntT, BoolT}: return I
        if {type(a), type(b)} <= {IntT, BoolT, RealT}: return R
        raise Unsupported("cannot join types %r and %r" % (a, b))

    def zs(self, v):
        if is_z(v): return v
        return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in v))

    def zi(self, v):
        if isinstance(v, UVal): v = self.force(v)
        if is_zint(v): return v
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if is_zbool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("not an int: %r" % (v,))

    def zr(self, v):
        if is_zreal(v): return v
        if isinstance(v, float):
            return z3.RealVal(repr(v))
        return z3.ToReal(self.zi(v))

    def enc(self, v, t, freeze=True):
        """Engine value -> z3 expression of sort_of(t)."""
        if isinstance(t, OptT):
            s = sort_of(t)
            if isinstance(v, UVal):
                if len(v.alts) == 2 and v.alts[0][1] is None and v.alts[0][0].decl().eq(s.is_none):
                    # an undecided optional value stays what it was decoded from
                    x = v.alts[0][0].arg(0)
                    w = v.alts[1][1]
                    try: w = w if is_z(w) else self.enc(w, t.t, freeze)
                    except Unsupported: w = None
                    if w is not None and w.eq(s.val(x)) and v.alts[1][0].eq(z3.Not(s.is_none(x))): return x
                return self.ite([(g, x) for g, x in v.alts], lambda x: self.enc(x, t, freeze))
            if v is None: return s.none
            return s.some(self.enc(v, t.t, freeze))
        if isinstance(v, UVal):
            return self.ite(v.alts, lambda x: self.enc(x, t, freeze))
        if isinstance(t, NoneT):
            if v is None: return sort_of(t).none
            raise Unsupported("encode")
        if v is None: raise Unsupported("None where %r expected" % (t,))
        if isinstance(t, IntT): return self.zi(v)
        if isinstance(t, BoolT):
            if isinstance(v, bool) or is_zbool(v): return zb(v)
            raise Unsupported("encode bool")
        if isinstance(t, StrT):
            if isinstance(v, str) or is_zstr(v): return self.zs(v)
            raise Unsupported("encode str %r" % (v,))
        if isinstance(t, RealT): return self.zr(v)
        if isinstance(t, AnyT):
            if is_z(v) and v.sort() == sort_of(t): return v
            raise Unsupported("encode opaque")
        if isinstance(t, TupT):
            if isinstance(v, PList): v = self.as_tuple(v)
            if isinstance(t, NTT) and isinstance(v, Obj) and v.cls is t.cls: v = tuple(v.attrs[n] for n in t.cls.fields)
            if not isinstance(v, tuple) or len(v) != len(t.ts): raise Unsupported("encode tuple")
            so, xs = sort_of(t), [self.enc(x, y, freeze) for x, y in zip(v, t.ts)]
            if xs and z3.is_app(xs[0]) and xs[0].num_args() == 1 and xs[0].arg(0).sort() == so:
                # the components of one value
                x = xs[0].arg(0)
                if all(y.eq(so.accessor(0, i)(x)) for i, y in enumerate(xs)): return x
            return so.mk(*xs)
        if isinstance(t, ListT):
            if isinstance(v, tuple): v = PList(items=list(v), kind="tuple")
            if not isinstance(v, PList): raise Unsupported("encode list")
            if freeze and v.kind == "list": v.frozen = True
            n, arr, off = self.list_repr(v, t.t)
            if not (isinstance(off, int) and off == 0):
                a2 = self.fresh(arr.sort(), "shift")
                k = z3.Int("q_sh")
                self.assume(z3.ForAll([k], a2[k] == arr[k + off]))
                arr = a2
            return sort_of(t).mk(arr, self.zi(n))
        if isinstance(t, ItemsT):
            if not isinstance(v, PList) or getattr(v, "canon_t", None) != t: raise Unsupported("encode items")
            return v.canon
        if isinstance(t, DictT):
            if not isinstance(v, PDict): raise Unsupported("encode dict")
            if freeze: v.frozen = True
            return self.dict_map(v, t)
        if isinstance(t, RecT):
            if isinstance(v, Obj) and v.rec is not None and v.rec[0] == t: return v.rec[1]
            raise Unsupported("object %r is not a %r" % (v, t))
        raise Unsupported("encode %r" % (t,))

    def dec(self, e, t, inv=True):
        """z3 expression -> engine value; assumes the type invariant when inv."""
        if isinstance(t, OptT):
            s = sort_of(t)
            c = norm(z3.simplify(s.is_none(e)))
            if c is True: return None
            if inv:
                val = self.dec_guarded(s.val(e), t.t, z3.Not(s.is_none(e)) if c is not False else None)
            else:
                val = self.dec(norm(z3.simplify(s.val(e))) if is_z(e) else e, t.t, inv=False)
            if c is False: return val
            return UVal([(s.is_none(e), None), (z3.Not(s.is_none(e)), val)])
        if isinstance(t, NoneT): return None
        if isinstance(t, (IntT, BoolT, StrT, RealT, AnyT)): return norm(e)
        if isinstance(t, TupT):
            s = sort_of(t)
            vs = tuple(self.dec(norm_acc(s, e, i), x, inv) for i, x in enumerate(t.ts))
            if not isinstance(t, NTT): return vs
            o = self.new(Obj(t.cls))
            for n, x in zip(t.cls.fields, vs): o.attrs[n] = x
            return o
        if isinstance(t, ListT):
            s = sort_of(t)
            n = norm(z3.simplify(s.len(e)))
            arr = z3.simplify(s.arr(e))
            if inv and is_z(n): self.assume(n >= 0)
            if inv: self.valid_elements(arr, n, t.t)
            return self.new(PList(n=n, arr=arr, off=0, etype=t.t))
        if isinstance(t, ItemsT):
            s, tag = sort_of(t), V._mangle(t)
            at = [z3.Function("%s_%d" % (tag, j), s, z3.IntSort(), sort_of(x)) for j, x in enumerate((t.k, t.v))]
            n = z3.Function(tag + "_len", s, z3.IntSort())(e)
            n = z3.If(n >= 0, n, z3.IntVal(0))
            r = self.new(PList(n=n, get=lambda i: tuple(self.dec(f(e, self.zi(i)), x, inv=False) for f, x in zip(at, (t.k, t.v))), kind="tuple"))
            r.canon, r.canon_t = e, t
            return r
        if isinstance(t, DictT):
            return self.new(PDict(map=e, kt=t.k, vt=t.v))
        if isinstance(t, RecT):
            o = self.new(Obj(self.resolve_class(t.ref)))
            o.rec = (t, e)
            o.lazy = True
            if inv:
                g = self.layout(t)[1]
                if g is not None:
                    self.assume(z3.substitute(g, *self.layout_subst(t, e)) if not z3.is_true(g) else z3.BoolVal(True))
            return o
        raise Unsupported("decode %r" % (t,))

    def valid_elements(self, arr, n, t):
        """the elements of a list satisfy their type invariant: assumed once for the whole list"""
        if self.bound or not isinstance(t, RecT) or arr.get_id() in self.valid_arrs: return
        g = self.layout(t)[1]
        if g is None or z3.is_true(g): return
        i = z3.Int("q_v")
        x = z3.Select(arr, i)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.zi(n)), z3.substitute(g, *self.layout_subst(t, x))), patterns=[x]))
        self.valid_arrs[arr.get_id()] = arr
        self.undo.append(lambda: self.valid_arrs.pop(arr.get_id(), None))

    def dec_guarded(self, e, t, guard):
        """Decode with the type invariant assumed only under guard."""
        if guard is None: return self.dec(e, t)
        pcm = len(self.pc)
        self.solver.push()
        try:
            v = self.dec(e, t)
        finally:
            fs = [x for _, x in self.pc[pcm:]]
            del self.pc[pcm:]
            self.solver.pop()
        for f in fs: self.assume(z3.Implies(guard, f))
        return v

    # ------------------------------------------------------------ records
    def record(self, t):
        self.records[t.ref] = t

    def layout(self, t):
        """Attributes of a record class as a function of its constructor arguments, obtained
        by symbolically running the real __init__; and the condition under which it returns."""
        if t.ref in self.layouts:
            l = self.layouts[t.ref]
            if l is None: raise Unsupported("recursive record layout")
            return l
        self.layouts[t.ref] = None
        cls = self.resolve_class(t.ref)
        consts = {n: z3.Const("lay!%s!%s" % (t.ref, n), sort_of(x)) for n, x in t.fields.items()}

        saved = (self.bound, self.pc, self.solver, self.regions)
        self.bound, self.pc, self.solver = [], [], z3.Solver()
        self.solver.set("timeout", 400)
        self.regions = [Region([], [], "top", -1)]
        try:
            invs = []

            def run():
                args = {n: self.dec(consts[n], x) for n, x in t.fields.items()}
                o = self.new(Obj(cls))
                init, c = cls.lookup("__init__")
                if init is not None:
                    params = {a.arg for a in init.node.args.args + init.node.args.kwonlyargs}
                    miss = [n for n in args if n not in params]
                    if miss: raise Unsupported("constructor of %s has no parameter %s" % (t.ref, miss))
                    self.call(init, [o], args)
                return o
            outs = self.explore(run, "pure")
            oks = [o for o in outs if o.kind == "ok"]
            if not oks: raise Unsupported("constructor of %s never returns" % t.ref)
            guard = disj([conj(o.guards) for o in oks])
            facts = [z3.Implies(conj(o.guards), f) if o.guards else f for o in oks for f in o.facts]
            names = set(oks[0].value.attrs)
            if any(set(o.value.attrs) != names for o in oks):
                raise Unsupported("attributes of %s differ by path" % t.ref)
            attrs = {n: self.merge_values([(conj(o.guards), o.value.attrs[n]) for o in oks], -1) for n in names}
            # the guards of alternatives are simplified under the invariant
            atoms = [a for n, x in t.fields.items() if isinstance(x, OptT) for a in (sort_of(x).is_none(consts[n]), z3.Not(sort_of(x).is_none(consts[n])))]
            if len(oks) > 1: attrs = {n: self.simpler_guards(v, guard, atoms) for n, v in attrs.items()}
            for v in attrs.values(): self.freeze(v)
            lay = (attrs, z3.simplify(conj([guard] + facts)), consts)
        finally:
            self.bound, self.pc, self.solver, self.regions = saved
            if self.layouts[t.ref] is None: del self.layouts[t.ref]
        self.layouts[t.ref] = lay
        return lay

    def simpler_guards(self, v, inv, atoms):
        if not isinstance(v, UVal): return v
        def simp(g):
            for a in atoms:
                s = z3.Solver()
                s.set("timeout", 1000)
                s.add(inv, zb(g) != a)
                if s.check() == z3.unsat: return a
            return g
        def possible(g):
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(inv, zb(g))
            return s.check() != z3.unsat
        alts = [(simp(g), x) for g, x in v.alts if possible(g)]
        if len(alts) == 1: return alts[0][1]
        rs = [x.rec if isinstance(x, Obj) else None for _, x in alts]
        if all(r is not None and r[0] == rs[0][0] for r in rs):
            return self.dec(z3.simplify(self.ite([(g, x.rec[1]) for g, x in alts], lambda x: x)), rs[0][0], inv=False)
        return UVal(alts)

    def freeze(self, v):
        if isinstance(v, Cell) and not isinstance(v, Obj): v.frozen = True
        if isinstance(v, UVal):
            for _, x in v.alts: self.freeze(x)
        if isinstance(v, tuple):
            for x in v: self.freeze(x)

    def layout_subst(self, t, e):
        s = sort_of(t)
        consts = self.layouts[t.ref][2]
        return [(consts[n], z3.simplify(getattr(s, n)(e))) for n in t.fields]

    def subst_val(self, v, sub):
        if is_z(v): return norm(z3.simplify(z3.substitute(v, *sub)))
        if isinstance(v, tuple): return tuple(self.subst_val(x, sub) for x in v)
        if isinstance(v, UVal):
            alts = []
            for g, x in v.alts:
                g2 = norm(z3.simplify(z3.substitute(g, *sub)))
                if g2 is True: return self.subst_val(x, sub)
                if g2 is False: continue
                alts.append((g2, self.subst_val(x, sub)))
            return alts[0][1] if len(alts) == 1 else UVal(alts)
        if isinstance(v, PDict):
            if v.concrete:
                d = self.new(PDict(items=[[k, self.subst_val(x, sub)] for k, x in v.items]))
            else:
                d = self.new(PDict(map=z3.simplify(z3.substitute(v.map, *sub)), kt=v.kt, vt=v.vt))
            d.frozen = True
            return d
        if isinstance(v, PList):
            if v.concrete: l = PList(items=[self.subst_val(x, sub) for x in v.items], kind=v.kind)
            elif v.arr is not None:
                l = PList(n=self.subst_val(v.n, sub), arr=z3.substitute(v.arr, *sub), off=self.subst_val(v.off, sub), etype=v.etype, kind=v.kind)
            else: raise Unsupported("lazy list in record")
            self.new(l); l.frozen = True
            return l
        if isinstance(v, Obj) and v.rec is not None:
            return self.dec(z3.simplify(z3.substitute(v.rec[1], *sub)), v.rec[0], inv=False)
        if v is None or isinstance(v, (bool, int, str, float, Func, Cls, Native)): return v
        raise Unsupported("record attribute %r" % (v,))

    # ------------------------------------------------------------ proving
    def prove(self, goal, name, loc=None):
        if self.dry: return
        if not is_z(goal): goal = z3.BoolVal(bool(goal))
        ob = Obligation(name, goal, [e for _, e in self.pc] + self.axioms, loc)
        self.ob_counter += 1
        memo = (tuple(map(str, self.regions[0].dec[:self.regions[0].pos])), self.ob_counter, name)
        if memo in self.proved_memo: return True
        self.obligations.append(ob)
        self.solve(ob)
        if ob.status == "proved":
            self.proved_memo.add(memo)
        else:
            self.failed.append(ob)
        return ob.status == "proved"

    def theorem(self, name, formula):
        """a fact of the logic used as a hint: proved once per run with no hypotheses"""
        if name in self.theorems: return
        ob = Obligation("theorem: " + name, formula, [], None)
        self.solve(ob)
        if ob.status != "proved": raise Unsupported("hint theorem not proved: " + name)
        self.theorems[name] = ob

    def entails(self, hyps, goal, timeout=None):
        ob = Obligation("aux", goal, list(hyps) + self.axioms, None)
        self.solve(ob, timeout=timeout or min(self.timeout, 5000), aux=True)
        return ob.status == "proved"

    def solve(self, ob, timeout=None, aux=False):
        """Discharge one obligation.  Weaker hypothesis sets are tried first (sound: proving from
        fewer hypotheses); only the full set can refute."""
        t0 = time.time()
        goal = ob.goal
        if z3.is_true(z3.simplify(goal)):
            ob.status, ob.backend = "proved", "simplify"
            return
        total = int(timeout or self.timeout)
        qf = [h for h in ob.hyps if not has_quant(h)]
        ob.status, ob.backend = "unknown", "z3-" + z3.get_version_string()
        plans = []
        if len(qf) < len(ob.hyps): plans.append((qf, min(total, 2000), {}))
        ghost = [h for h in ob.hyps if sorts_mentioned(h)]
        if ghost and not sorts_mentioned(goal):
            ghost = {h.get_id() for h in ghost}
            plans.append(([h for h in ob.hyps if h.get_id() not in ghost], min(total, 3000), {}))
        if len(qf) < len(ob.hyps):
            g = grounded(ob.hyps, goal, has_quant)
            if g is not None: plans.insert(1, (None, min(total, 2000), g))
        if len(qf) < len(ob.hyps):
            # pattern-driven instantiation, string operations left uninterpreted
            plans[1:1] = [(ob.hyps, min(total, 1500), NOEXT), (ob.hyps, min(total, 3000), EMATCH)]
            if not aux: plans.insert(3, (ob.hyps, min(total, 2000), PATTERNS))
        if len(qf) < len(ob.hyps) and (has_slice(goal) or not aux and z3.is_eq(goal) and z3.is_string(goal.arg(0))): plans.append((ob.hyps, total, SEQ))
        plans.append((ob.hyps, total, {}))
        if len(qf) < len(ob.hyps) and not aux: plans.append((ob.hyps, total, EMATCH))
        s = last = None
        for hyps, tmo, opts in plans:
            if any(opts is w for w in WEAK):
                s = z3.SimpleSolver()
                for k, v in opts.items(): s.set(k, v)
            else: s = z3.Solver()
            s.set("timeout", tmo)
            if hyps is None:
                for h in opts: s.add(h)
            else:
                for h in hyps: s.add(h)
                s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                ob.status = "proved"; break
            if any(opts is w for w in WEAK): continue
            last = s
            if r == z3.sat and hyps is ob.hyps:
                ob.status = "refuted"; ob.model = s.model()
                break
        s = last
        if ob.status == "unknown" and not aux:
            for be, cmd in (("cvc5", ["cvc5", "--strings-exp", "--tlimit=%d" % total]),
                            ("z3-4.8.12", ["z3", "-T:%d" % max(1, total // 1000)])):
                if self.external(s, cmd) == "unsat":
                    ob.status, ob.backend = "proved", be
                    break
        ob.time = time.time() - t0
        self.solver_time += ob.time
        if self.debug > 1 and aux and ob.time > 1: print("      slow %.1fs %s: %s" % (ob.time, ob.status, str(goal)[:300].replace("\n", " ")), flush=True)
        if self.debug and not aux: print("   [%s] %s %.2fs %s" % (ob.status, ob.name, ob.time, ob.backend), flush=True)

    def external(self, s, cmd):
        try:
            txt = s.to_smt2()
            if cmd[0] == "cvc5": txt = "(set-logic ALL)\n" + txt
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
                return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
            finally:
                os.unlink(f.name)
        except Exception:
            return "unknown"

    # ------------------------------------------------------------ modules and classes
    def module(self, name):
        if name in self.modules: return self.modules[name]
        path = os.path.join(self.mod_root(name), *name.split("."))
        path = path + ".py" if os.path.isfile(path + ".py") else os.path.join(path, "__init__.py")
        if not os.path.isfile(path): raise Unsupported("no module " + name)
        with open(path, encoding="utf-8") as f: src = f.read()
        m = Module(name, path, ast.parse(src))
        self.modules[name] = m
        self.scan_defs(m, m.tree.body)
        return m

    def scan_defs(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)): m.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.defs[(a.asname or a.name.split(".")[0])] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom) and st.names[0].name == "*":
                m.stars.append(st.module)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names: m.defs[a.asname or a.name] = ("from", st.module, a.name)
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name): m.defs[tg.id] = ("assign", st)
                    elif isinstance(tg, ast.Tuple):
                        for i, e in enumerate(tg.elts):
                            if isinstance(e, ast.Name): m.defs[e.id] = ("unpack", st, i)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.defs[st.target.id] = ("assign", st)
            elif isinstance(st, (ast.If, ast.Try)):
                self.scan_defs(m, st.body)

    def mod_root(self, name):
        if name.split(".")[0] in ("specs", "pydv"): return os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        return self.root

    def is_repo_module(self, name):
        p = os.path.join(self.mod_root(name), *name.split("."))
        return (name.split(".")[0] in ("babylondigger", "specs") or name == "pydv.speclib") and (os.path.isfile(p + ".py") or os.path.isdir(p))

    def import_module(self, name):
        return ModuleRef(name)

    def module_attr(self, modname, attr):
        if self.is_repo_module(modname):
            if self.is_repo_module(modname + "." + attr): return ModuleRef(modname + "." + attr)
            return self.global_(self.module(modname), attr)
        q = modname + "." + attr
        if q in self.extern: return self.extern[q]
        return Opaque(q)

    def global_(self, m, name):
        if name in m.values: return m.values[name]
        if name not in m.defs:
            for st in m.stars:
                if st + "." + name in self.extern: return self.extern[st + "." + name]
                if self.is_repo_module(st):
                    v = self.global_(self.module(st), name)
                    if v is not UNDEF: return v
            return UNDEF
        d = m.defs[name]
        if isinstance(d, ast.FunctionDef):
            fr = Frame(None, Scope(), m)
            v = self.make_func(d, fr)
        elif isinstance(d, ast.ClassDef): v = self.make_class(d, Frame(None, Scope(), m))
        elif d[0] == "import": v = ModuleRef(d[1])
        elif d[0] == "from": v = self.module_attr(d[1], d[2])
        elif d[0] in ("assign", "unpack"):
            saved = (self.pc, self.regions, self.bound)
            self.regions = [Region([], [], "top", -1)]
            try:
                v = self.eval(d[1].value, Frame(None, Scope(), m))
                if d[0] == "unpack": v = self.unpack(v, len(d[1].targets[0].elts))[d[2]]
            except PyRaise as e:
                raise Unsupported("module constant raises")
            finally:
                self.pc, self.regions, self.bound = saved
            if isinstance(v, Cell): v.birth = 0
        m.values[name] = v
        return v

    def resolve(self, ref):
        mod, _, path = ref.partition(":")
        v = None
        for i, p in enumerate(path.split(".")):
            if i == 0: v = self.global_(self.module(mod), p)
            else:
                try: v = self.getattr_(v, self.mangle(p, v) if isinstance(v, Cls) else p)
                except PyRaise: raise Unsupported("no such name: " + ref)
            if v is UNDEF: raise Unsupported("no such name: " + ref)
        return v

    def resolve_class(self, ref):
        c = self.resolve(ref)
        if not isinstance(c, Cls): raise Unsupported(ref + " is not a class")
        return c

    def make_func(self, node, fr, cls=None):
        f = Func(node, fr.module, fr.scope, getattr(node, "name", "<lambda>"), cls)
        f.frame_self = fr
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kw_defaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.outer_cls = cls or fr.cls
        v = f
        for d in reversed(getattr(node, "decorator_list", [])):
            n = d.id if isinstance(d, ast.Name) else None
            if n == "property": v = Property(v)
            elif n == "classmethod": v = ClassMethod(v)
            elif n == "staticmethod": v = StaticMethod(v)
            elif fr.module.name.startswith("specs."): pass
            else: raise Unsupported("decorator " + ast.dump(d)[:60])
        return v

    def make_class(self, node, fr):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript): b = b.value
            try:
                c = self.eval(b, fr)
            except Unsupported:
                continue
            if isinstance(c, Cls): bases.append(c)
        cls = Cls(node.name, fr.module, node, tuple(bases))
        cfr = Frame(fr.func, Scope(fr.scope), fr.module, cls, fr.self_)
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if n == "total_ordering": cls.total_ordering = True
            else: raise Unsupported("class decorator")
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                ff = Frame(fr.func, fr.scope, fr.module, cls, fr.self_)
                cls.ns[self.mangle(st.name, cls)] = self.make_func(st, ff, cls)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                cls.ns[st.targets[0].id] = self.eval(st.value, fr)
            elif isinstance(st, (ast.Expr, ast.Pass, ast.AnnAssign)): pass
            else: raise Unsupported("class body statement")
        return cls

    def mangle(self, name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (cls.name.lstrip("_"), name)
        return name

    # ------------------------------------------------------------ variables
    def lookup(self, name, fr):
        s = fr.scope
        while s is not None:
            if name in s.vars:
                v = s.vars[name]
                if v is UNDEF: raise Unsupported("possibly unbound variable " + name)
                return v
            if name in s.locals and name not in s.nonlocals:
                raise PyRaise(self.exc("UnboundLocalError"))
            s = s.parent
        n2 = self.mangle(name, fr.cls)
        v = self.global_(fr.module, n2 if n2 in fr.module.defs else name)
        if v is not UNDEF: return v
        if name in self.builtins: return self.builtins[name]
        raise Unsupported("unknown name " + name)

    def setvar(self, name, v, fr):
        s = fr.scope
        if name in s.nonlocals:
            s = s.parent
            while s is not None and name not in s.vars: s = s.parent
            if s is None: raise Unsupported("nonlocal " + name)
        self.scope_set(s, name, v)

    def scope_set(self, s, name, v):
        old = s.vars.get(name, None)
        had = name in s.vars

        def restore():
            if had: s.vars[name] = old
            else: s.vars.pop(name, None)
        self.on_write(s, name, restore)
        s.vars[name] = v

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        o = self.new(Obj(self.exc_class(name)))
        o.args = args
        return o

    def exc_class(self, name):
        if name not in self.classes:
            py = _EXC_BASES[name]
            base = () if py is BaseException else (self.exc_class(py.__mro__[1].__name__),) if py.__mro__[1].__name__ in _EXC_BASES else (self.exc_class("Exception"),)
            self.classes[name] = Cls(name, None, bases=base, builtin=py)
        return self.classes[name]

    def raise_(self, name, *args): raise PyRaise(self.exc(name, *args))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            sig = self.exec_stmt(st, fr)
            if sig is not None: return sig
        return None

    def exec_stmt(self, st, fr):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None: raise Unsupported("statement " + type(st).__name__)
        self.cur = st
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, fr)

    def st_Pass(self, st, fr): pass
    def st_Global(self, st, fr): raise Unsupported("global")
    def st_Nonlocal(self, st, fr): fr.scope.nonlocals.update(st.names)
    def st_Import(self, st, fr):
        for a in st.names: self.setvar(a.asname or a.name.split(".")[0], ModuleRef(a.name), fr)

    def st_ImportFrom(self, st, fr):
        for a in st.names: self.setvar(a.asname or a.name, self.module_attr(st.module, a.name), fr)

    def st_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        self.setvar(st.name, f, fr)

    def st_ClassDef(self, st, fr):
        self.setvar(st.name, self.make_class(st, fr), fr)

    def st_Return(self, st, fr):
        return (RET, self.eval(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr): return (BRK, None)
    def st_Continue(self, st, fr): return (CONT, None)

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        if isinstance(st.value, (ast.List, ast.ListComp)) and len(st.targets) == 1: self.fresh_display = v
        for t in st.targets: self.assign(t, v, fr)
        self.fresh_display = None

    def st_AnnAssign(self, st, fr):
        if st.value is not None: self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, fr)
            v = self.augop(st.op, cur, self.eval(st.value, fr))
            self.setvar(st.target.id, v, fr)
        elif isinstance(st.target, ast.Attribute):
            o = self.eval(st.target.value, fr)
            nm = self.mangle(st.target.attr, fr.cls)
            self.setattr_(o, nm, self.augop(st.op, self.getattr_(o, nm), self.eval(st.value, fr)))
        elif isinstance(st.target, ast.Subscript):
            o = self.force(self.eval(st.target.value, fr))
            k = self.eval(st.target.slice, fr)
            self.setitem(o, k, self.augop(st.op, self.getitem(o, k), self.eval(st.value, fr)))
        else: raise Unsupported("augassign")

    def augop(self, op, cur, v):
        cur = self.force(cur)
        if isinstance(op, ast.Add) and isinstance(cur, PList) and cur.kind == "list":
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("starred assignment")
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs): self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), self.mangle(t.attr, fr.cls), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.force(self.eval(t.value, fr)), self.eval_slice(t.slice, fr), v)
        else: raise Unsupported("assignment target")

    def unpack(self, v, k):
        v = self.force(v)
        if isinstance(v, tuple):
            if len(v) != k: self.raise_("ValueError")
            return v
        if isinstance(v, Obj) and v.cls.fields is not None: v = self.to_seq(v)
        l = self.to_seq(v)
        if l.concrete:
            if len(l.items) != k: self.raise_("ValueError")
            return tuple(l.items)
        if self.branch(self.zi(l.n) != k): self.raise_("ValueError")
        return tuple(self.list_get(l, i) for i in range(k))

    def st_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if not self.branch(c): self.raise_("AssertionError")

    def st_Raise(self, st, fr):
        if st.exc is None:
            if getattr(fr, "handling", None) is not None: raise PyRaise(fr.handling)
            raise Unsupported("bare raise")
        e = st.exc
        # messages are not modelled: only evaluate the class
        if isinstance(e, ast.Call):
            c = self.force(self.eval(e.func, fr))
        else:
            c = self.force(self.eval(e, fr))
        if isinstance(c, Obj): raise PyRaise(c)
        if isinstance(c, Cls) and self.exc_class("BaseException") in c.mro():
            o = self.new(Obj(c))
            raise PyRaise(o)
        if c is NotImplemented or isinstance(c, Native): self.raise_("TypeError")
        raise Unsupported("raise of %r" % (c,))

    def st_Delete(self, st, fr): raise Unsupported("del")

    def st_If(self, st, fr):
        if self.branch(self.truth(self.eval(st.test, fr))): return self.exec_block(st.body, fr)
        return self.exec_block(st.orelse, fr)

    def st_With(self, st, fr):
        if len(st.items) != 1: raise Unsupported("with")
        it = st.items[0]
        v = self.eval(it.context_expr, fr)
        ent = self.getattr_(v, "__enter__")
        ex = self.getattr_(v, "__exit__")
        x = self.call(ent, [], {})
        if it.optional_vars is not None: self.assign(it.optional_vars, x, fr)
        try:
            sig = self.exec_block(st.body, fr)
        except PyRaise as e:
            self.call(ex, [e.exc.cls, e.exc, None], {})
            raise
        self.call(ex, [None, None, None], {})
        return sig

    def st_Try(self, st, fr):
        sig = None
        try:
            try:
                sig = self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.handler_matches(h, e.exc, fr):
                        if h.name: self.setvar(h.name, e.exc, fr)
                        old = getattr(fr, "handling", None)
                        fr.handling = e.exc
                        try:
                            sig = self.exec_block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                if sig is None: sig = self.exec_block(st.orelse, fr)
        except PyRaise:
            if st.finalbody:
                s2 = self.exec_block(st.finalbody, fr)
                if s2 is not None: return s2
            raise
        if st.finalbody:
            s2 = self.exec_block(st.finalbody, fr)
            if s2 is not None: return s2
        return sig

    def handler_matches(self, h, exc, fr):
        if h.type is None: return True
        c = self.eval(h.type, fr)
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in exc.cls.mro() for x in cs)

    # ------------------------------------------------------------ loops
    def st_For(self, st, fr):
        it = self.force(self.eval(st.iter, fr))
        seq = self.to_seq(it)
        if seq.concrete:
            for x in list(seq.items):
                self.assign(st.target, x, fr)
                sig = self.exec_block(st.body, fr)
                if sig is None or sig[0] == CONT: continue
                if sig[0] == BRK: return None
                return sig
            return self.exec_block(st.orelse, fr)
        return self.sym_loop(st, fr, seq)

    def ruled_out(self):
        """whether the hypotheses, quantified ones included, exclude this path (a quick attempt)"""
        hyps = [h for _, h in self.pc]
        if not any(has_quant(h) for h in hyps): return False
        s = z3.SimpleSolver()
        for k, v in NOEXT.items(): s.set(k, v)
        s.set("timeout", 600)
        for h in hyps: s.add(h)
        return s.check() == z3.unsat

    def st_While(self, st, fr):
        for _ in range(2000):
            c = self.truth(self.eval(st.test, fr))
            c = norm(z3.simplify(c)) if is_z(c) else c
            if is_z(c): break
            if not c: return self.exec_block(st.orelse, fr)
            sig = self.exec_block(st.body, fr)
            if sig is None or sig[0] == CONT: continue
            if sig[0] == BRK: return None
            return sig
        else:
            raise Unsupported("concrete loop too long")
        return self.sym_loop(st, fr, None)

    def sym_loop(self, st, fr, seq):
        from . import loops
        return loops.sym_loop(self, st, fr, seq)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        if isinstance(e.value, (int, str, float, bool, type(None))): return e.value
        if e.value is Ellipsis: return None
        raise Unsupported("constant")

    def ex_Name(self, e, fr): return self.lookup(e.id, fr)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                l = self.to_seq(self.force(self.eval(x.value, fr)))
                if not l.concrete: raise Unsupported("star of symbolic sequence")
                out.extend(l.items)
            else: out.append(self.eval(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        return self.new(PList(items=list(self.ex_Tuple(e, fr))))

    def ex_Set(self, e, fr):
        return self.lib.make_set(self, self.new(PList(items=[self.eval(x, fr) for x in e.elts])))

    def ex_Dict(self, e, fr):
        d = self.new(PDict(items=[]))
        d.owned = not e.keys
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported("dict unpacking")
            self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def ex_Lambda(self, e, fr): return self.make_func(e, fr)

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115): raise Unsupported("f-string format")
                parts.append(self.lib.to_str(self, self.eval(v.value, fr)))
        return self.lib.concat(self, parts)

    def ex_IfExp(self, e, fr):
        def run():
            return self.eval(e.body, fr) if self.branch(self.truth(self.eval(e.test, fr))) else self.eval(e.orelse, fr)
        return self.try_merged(run)

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)

        def run(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if not is_z(t):
                if bool(t) == is_and: return run(i + 1)
                return v
            if self.branch(t) == is_and: return run(i + 1)
            return (not is_and) if is_zbool(v) else v
        return self.try_merged(lambda: run(0))

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not): return znot(self.truth(v))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, float) or is_zreal(v): return -v
            if not is_z(v) and not isinstance(v, int): raise Unsupported("negation")
            return -v if not is_zbool(v) else -self.zi(v)
        raise Unsupported("unary op")

    def ex_Compare(self, e, fr):
        def run():
            left = self.eval(e.left, fr)
            acc = []
            for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
                right = self.eval(r, fr)
                c = self.compare(op, left, right)
                if len(e.ops) == 1: return c
                if not is_z(c):
                    if not c: return False
                else:
                    if i < len(e.ops) - 1:
                        if not self.branch(c): return False
                    else: acc.append(c)
                left = right
            return norm(conj(acc))
        if len(e.ops) == 1: return run()
        return self.try_merged(run)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return self.ne(a, b)
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot): return znot(self.is_(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return znot(self.contains(b, a))
        if isinstance(op, ast.Lt): return self.lt(a, b)
        if isinstance(op, ast.Gt): return self.lt(b, a, "gt")
        if isinstance(op, ast.LtE): return self.le(a, b)
        if isinstance(op, ast.GtE): return self.le(b, a, "ge")
        raise Unsupported("comparison")

    def is_(self, a, b):
        if isinstance(a, UVal):
            if b is None or isinstance(b, (bool,)):
                return norm(z3.simplify(disj([conj([g, zb(self.is_(x, b))]) for g, x in a.alts])))
            a = self.force(a)
        if isinstance(b, UVal):
            if a is None: return self.is_(b, a)
            b = self.force(b)
        if a is None or b is None: return a is b
        if isinstance(a, (Obj, PList, PDict, Cls, Func, PSet)) or isinstance(b, (Obj, PList, PDict, Cls, Func, PSet)):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.lazy and b.lazy and a is not b:
                raise Unsupported("identity of record values")
            return a is b
        if isinstance(a, bool) or isinstance(b, bool) or is_zbool(a) or is_zbool(b):
            if (isinstance(a, bool) or is_zbool(a)) and (isinstance(b, bool) or is_zbool(b)): return self.eq(a, b)
            return False
        if a is NotImplemented or b is NotImplemented: return a is b
        raise Unsupported("identity of values")

    def truth(self, v):
        if isinstance(v, bool) or is_zbool(v): return v
        if v is None: return False
        if isinstance(v, (int, str, float)): return bool(v)
        if is_zint(v): return v != 0
        if is_zreal(v): return v != 0
        if is_zstr(v): return z3.Length(v) > 0
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, PList):
            if v.kind not in ("list", "tuple"): return True     # iterator objects
            return len(v.items) > 0 if v.concrete else norm(self.zi(v.n) > 0)
        if isinstance(v, PDict):
            if v.concrete: return len(v.items) > 0
            s = sort_of(OptT(v.vt))
            k = z3.Const("q_k%d" % self.nq(), sort_of(v.kt))
            return z3.Exists([k], z3.Not(s.is_none(v.map[k])))
        if isinstance(v, PSet):
            if v.concrete: return len(v.items) > 0
            raise Unsupported("truth of symbolic set")
        if isinstance(v, UVal):
            return norm(z3.simplify(disj([conj([g, zb(self.truth(x))]) for g, x in v.alts])))
        if isinstance(v, Obj):
            f, c = v.cls.lookup("__bool__")
            if f is not None: return self.truth(self.call(Bound(v, f), [], {}))
            f, c = v.cls.lookup("__len__")
            if f is not None: return self.truth(self.call(Bound(v, f), [], {}))
            return True
        if isinstance(v, (Func, Cls, Bound, Native, UFun)): return True
        raise Unsupported("truth of %r" % (v,))

    def nq(self):
        self.fresh_n += 1
        return self.fresh_n

    # equality -----------------------------------------------------------
    def eq(self, a, b):
        if isinstance(a, UVal):
            return norm(z3.simplify(disj([conj([g, zb(self.eq(x, b))]) for g, x in a.alts])))
        if isinstance(b, UVal):
            return norm(z3.simplify(disj([conj([g, zb(self.eq(a, x))]) for g, x in b.alts])))
        if a is None or b is None:
            if a is None and b is None: return True
            o = b if a is None else a
            if isinstance(o, Obj): return self.obj_eq(o, None)
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj): return self.obj_eq(a, b)
            return self.obj_eq(b, a)
        num = lambda v: isinstance(v, (bool, int, float)) or is_zint(v) or is_zbool(v) or is_zreal(v)
        if num(a) and num(b):
            if not is_z(a) and not is_z(b): return a == b
            if (is_zbool(a) or isinstance(a, bool)) and (is_zbool(b) or isinstance(b, bool)): return norm(z3.simplify(zb(a) == zb(b)))
            if any(isinstance(v, float) or is_zreal(v) for v in (a, b)): return norm(z3.simplify(self.zr(a) == self.zr(b)))
            return norm(z3.simplify(self.zi(a) == self.zi(b)))
        st = lambda v: isinstance(v, str) or is_zstr(v)
        if st(a) and st(b):
            if not is_z(a) and not is_z(b): return a == b
            return norm(z3.simplify(self.zs(a) == self.zs(b)))
        istup = lambda v: isinstance(v, tuple) or (isinstance(v, PList) and v.kind == "tuple")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return norm(conj([zb(self.eq(x, y)) for x, y in zip(a, b)]))
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            if istup(a) != istup(b): return False
            return self.list_eq(a, b)
        if isinstance(a, PDict) and isinstance(b, PDict): return self.dict_eq(a, b)
        if isinstance(a, PSet) and isinstance(b, PSet): return self.lib.set_eq(self, a, b)
        if is_z(a) and is_z(b) and a.sort() == b.sort(): return norm(z3.simplify(a == b))
        if isinstance(a, (Cls, Func)) or isinstance(b, (Cls, Func)): return a is b
        if isinstance(a, Native) or isinstance(b, Native): return a is b
        kinds = lambda v: "num" if num(v) else "str" if st(v) else "tup" if istup(v) else type(v).__name__
        if kinds(a) != kinds(b): return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def struct_eq(self, t):
        """Is `==` of the values of this type the equality of what denotes them?  Proved on the
        class's own __eq__, once per type, from no hypothesis but the validity of the values."""
        if isinstance(t, (IntT, BoolT, StrT, RealT, NoneT, AnyT)): return True
        if isinstance(t, OptT): return self.struct_eq(t.t)
        if isinstance(t, TupT): return all(self.struct_eq(x) for x in t.ts)
        if isinstance(t, (DictT, ItemsT)): return self.struct_eq(t.k) and self.struct_eq(t.v)
        if not isinstance(t, RecT): return False
        if t not in self.struct:
            self.struct[t] = None
            saved = dict(self.__dict__)
            used = self.functions_seen
            if all(self.struct_eq(x) for x in t.fields.values()):
                try:
                    self.reset([], [])
                    self.functions_seen = set()
                    x, y = z3.Const("eq_x", sort_of(t)), z3.Const("eq_y", sort_of(t))
                    a, b = self.dec(x, t), self.dec(y, t)
                    known = [h for _, h in self.pc]
                    def compare():
                        r = self.obj_eq(a, b)
                        self.lib.hash_of(self, a)
                        return r
                    outs = self.explore(compare)
                    good = bool(outs) and all(o.kind == "ok" and self.entails(known + o.guards + o.facts, zb(o.value) == (x == y), 3000) for o in outs)
                    found = frozenset(self.functions_seen)
                except (Unsupported, Impure): good = False
                finally:
                    keep = self.struct
                    for k in list(self.__dict__):
                        if k not in saved: del self.__dict__[k]
                    self.__dict__.update(saved)
                    self.struct, self.functions_seen = keep, used
                if good: self.struct[t] = found
        if self.struct[t] is None: return False
        self.functions_seen |= self.struct[t]
        return True

    def key_type(self, t):
        """keys are looked up by what denotes them: their == must be that, and they must have a hash"""
        if not self.struct_eq(t) and not self.plain_key(t): raise Unsupported("keys %r whose == is not known to be structural" % (t,))

    def plain_key(self, t):
        if isinstance(t, OptT): return self.plain_key(t.t)
        if isinstance(t, TupT): return all(self.plain_key(x) for x in t.ts)
        return not isinstance(t, (RecT, ListT, DictT))

    def obj_eq(self, a, b):
        f, c = a.cls.lookup("__eq__")
        if f is not None and isinstance(b, Obj) and a.rec is not None and b.rec is not None and a.rec[0] == b.rec[0] and self.struct.get(a.rec[0], 0) != None and self.struct_eq(a.rec[0]):
            return norm(z3.simplify(a.rec[1] == b.rec[1]))
        if a.cls.fields is not None:
            if isinstance(b, Obj) and b.cls.fields is not None:
                return self.eq(tuple(a.attrs[n] for n in a.cls.fields), tuple(b.attrs[n] for n in b.cls.fields))
        if f is None:
            if isinstance(b, Obj) and b is not a:
                f2, _ = b.cls.lookup("__eq__")
                if f2 is not None: return self.obj_eq(b, a)
                if a.rec and b.rec and a.lazy and b.lazy: raise Unsupported("identity of record values")
            return a is b
        r = self.call(Bound(a, f), [b], {})
        r2 = self.drop_notimpl(r)
        if r2 is not UNDEF: return self.truth(r2)
        if isinstance(b, Obj):
            f2, _ = b.cls.lookup("__eq__")
            if f2 is not None:
                r2 = self.drop_notimpl(self.call(Bound(b, f2), [a], {}))
                if r2 is not UNDEF: return self.truth(r2)
        return a is b

    def identical(self, a, b):
        """the same content, field by field"""
        if isinstance(a, (UVal, Obj)) and isinstance(b, (UVal, Obj)):
            try:
                t = self.join(self.typeof(a), self.typeof(b))
                if isinstance(t, RecT) or isinstance(t, OptT) and isinstance(t.t, RecT):
                    return norm(z3.simplify(self.enc(a, t, freeze=False) == self.enc(b, t, freeze=False)))
            except Unsupported: pass
        if isinstance(a, UVal) or isinstance(b, UVal):
            return self.try_merged(lambda: self.identical(self.force(a), self.force(b)))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls is not b.cls: return False
            if a.rec is not None and b.rec is not None and a.rec[0] == b.rec[0]: return norm(z3.simplify(a.rec[1] == b.rec[1]))
            raise Unsupported("identical objects")
        if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
            a, b = self.as_list(a), self.as_list(b)
            n = self.eq(self.length(a), self.length(b))
            return norm(z3.simplify(z3.And(zb(n), zb(self.forall_idx(0, self.length(a), lambda i: self.identical(self.list_get_raw(a, i), self.list_get_raw(b, i)), lens=zb(n))))))
        return self.eq(a, b)

    def drop_notimpl(self, r):
        if r is NotImplemented: return UNDEF
        if isinstance(r, UVal) and any(x is NotImplemented for _, x in r.alts):
            r = self.force(r)
            if r is NotImplemented: return UNDEF
        return r

    def ne(self, a, b): return znot(self.eq(a, b))

    def as_list(self, v):
        if isinstance(v, tuple): return PList(items=list(v), kind="tuple")
        return v

    def list_eq(self, a, b):
        a, b = self.as_list(a), self.as_list(b)
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items): return False
            return norm(conj([zb(self.eq(x, y)) for x, y in zip(a.items, b.items)]))
        ca, cb = getattr(a, "canon", None), getattr(b, "canon", None)
        if ca is not None and cb is not None and ca.sort() == cb.sort(): return norm(z3.simplify(ca == cb))
        na, nb = self.zi(self.length(a)), self.zi(self.length(b))
        body = self.forall_idx(0, na, lambda i: self.eq(self.list_get_raw(a, i), self.list_get_raw(b, i)), lens=na == nb)
        return norm(conj([na == nb, zb(body)]))

    def forall_val(self, t, fn, exists=False):
        """forall/exists x of a type: fn(x)"""
        return self.forall_idx(0, 1, fn, exists, var=t)

    def forall_idx(self, lo, hi, fn, exists=False, lens=None, var=None):
        """forall/exists i in [lo, hi): fn(i)."""
        lo, hi = self.zi(lo), self.zi(hi)
        q = z3.Int("q%d" % self.nq()) if var is None else z3.Const("q%d" % self.nq(), sort_of(var))
        rng = z3.And(lo <= q, q < hi) if var is None else z3.BoolVal(True)
        self.bound.append(q)
        try:
            def run():
                self.assume(rng)
                if lens is not None: self.assume(lens)
                return zb(self.truth(fn(q if var is None else self.dec(q, var))))
            outs = self.explore(run, "pure")
        finally:
            self.bound.pop()
        # facts: closed universally (they hold for every index in range)
        for o in outs:
            for f in o.facts:
                if f.eq(rng) or (lens is not None and f.eq(lens)): continue
                self.assume_closed(q, rng if lens is None else z3.And(rng, lens), conj(o.guards), f)
        oks = [(conj(o.guards), o.value) for o in outs if o.kind == "ok"]
        rs = [o for o in outs if o.kind == "raise"]
        if rs:
            g = disj([conj(o.guards) for o in rs])
            c = z3.Exists([q], z3.And(rng, g))
            if lens is not None: c = z3.And(lens, c)
            if self.branch(c): raise PyRaise(rs[0].value)
        if not oks:
            return (not exists) if norm(z3.simplify(lo < hi)) is False else norm(lo >= hi if not exists else z3.BoolVal(False))
        body = self.merge_values(oks) if len(oks) > 1 else oks[0][1]
        body = zb(body)
        body = norm(z3.simplify(body))
        if not is_z(body):
            if body is True: return True if not exists else norm(lo < hi)
            return (norm(lo >= hi) if not exists else False)
        return canonical(q, z3.And(rng, body) if exists else z3.Implies(rng, body), exists)

    def assume_closed(self, q, rng, guard, f):
        if str(q) not in consts_of(f) and str(q) not in consts_of(guard):
            if not z3.is_true(guard):
                f = z3.Implies(guard, f)
            # only known for a non-empty range
            self.assume(z3.Implies(z3.Exists([q], rng), f) if not self.range_nonempty(rng, q) else f)
            return
        self.assume(z3.ForAll([q], z3.Implies(conj([rng, guard]), f)))

    def range_nonempty(self, rng, q):
        return False

    # ordering -----------------------------------------------------------
    def lt(self, a, b, opname="lt"):
        return self.order(a, b, True, opname)

    def le(self, a, b, opname="le"):
        return self.order(a, b, False, opname)

    def order(self, a, b, strict, opname):
        """a < b (strict) or a <= b. opname gt/ge: the source was b > a / b >= a."""
        a, b = self.force(a), self.force(b)
        num = lambda v: isinstance(v, (bool, int, float)) or is_zint(v) or is_zbool(v) or is_zreal(v)
        if num(a) and num(b):
            if not is_z(a) and not is_z(b): return a < b if strict else a <= b
            if any(isinstance(v, float) or is_zreal(v) for v in (a, b)): x, y = self.zr(a), self.zr(b)
            else: x, y = self.zi(a), self.zi(b)
            return norm(z3.simplify(x < y if strict else x <= y))
        st = lambda v: isinstance(v, str) or is_zstr(v)
        if st(a) and st(b):
            if not is_z(a) and not is_z(b): return a < b if strict else a <= b
            x, y = self.zs(a), self.zs(b)
            return norm(x < y if strict else x <= y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            def run():
                for x, y in zip(a, b):
                    if not self.branch(self.eq(x, y)): return self.order(x, y, True, opname)
                return len(a) < len(b) if strict else len(a) <= len(b)
            return self.merged(run)
        if isinstance(a, Obj) and isinstance(b, Obj):
            names = {"lt": "__lt__", "le": "__le__", "gt": "__gt__", "ge": "__ge__"}
            x, y = (a, b) if opname in ("lt", "le") else (b, a)
            f, _ = x.cls.lookup(names[opname])
            if f is not None:
                r = self.drop_notimpl(self.call(Bound(x, f), [y], {}))
                if r is not UNDEF: return self.truth(r)
                self.raise_("TypeError")
            # reflected / total_ordering
            f, c = x.cls.lookup("__lt__")
            if f is not None and any(k.total_ordering for k in x.cls.mro()):
                def run():
                    l = self.drop_notimpl(self.call(Bound(x, f), [y], {}))
                    if l is UNDEF: self.raise_("TypeError")
                    l = self.truth(l)
                    if opname == "gt": return norm(conj([zb(znot(l)), zb(self.ne(x, y))]))
                    if opname == "le": return norm(disj([zb(l), zb(self.eq(x, y))]))
                    if opname == "ge": return znot(l)
                return self.merged(run)
            self.raise_("TypeError")
        if isinstance(a, (PList,)) and isinstance(b, (PList,)) and a.kind == b.kind:
            if a.concrete and b.concrete:
                return self.order(tuple(a.items), tuple(b.items), strict, opname)
            return self.lib.list_order(self, a, b, strict)
        if isinstance(a, tuple) and isinstance(b, PList) or isinstance(b, tuple) and isinstance(a, PList):
            a, b = self.as_list(a), self.as_list(b)
            return self.lib.list_order(self, a, b, strict)
        if a is None or b is None or (num(a) != num(b)) or (st(a) != st(b)): self.raise_("TypeError")
        raise Unsupported("ordering of %r and %r" % (a, b))

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, (tuple, PList)):
            c = self.as_list(c)
            if c.concrete: return norm(disj([zb(self.eq(y, x)) for y in c.items]))
            return self.forall_idx(0, c.n, lambda i: self.eq(self.list_get_raw(c, i), x), exists=True)
        if isinstance(c, PDict): return self.dict_has(c, x)
        if isinstance(c, PSet): return self.lib.set_has(self, c, x)
        if isinstance(c, str) or is_zstr(c):
            x = self.force(x)
            if not (isinstance(x, str) or is_zstr(x)): self.raise_("TypeError")
            if not is_z(c) and not is_z(x): return x in c
            return norm(z3.simplify(z3.Contains(self.zs(c), self.zs(x))))
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None: return self.truth(self.call(Bound(c, f), [x], {}))
        raise Unsupported("containment in %r" % (c,))

    # arithmetic -----------------------------------------------------------
    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        num = lambda v: isinstance(v, (bool, int, float)) or is_zint(v) or is_zbool(v) or is_zreal(v)
        if num(a) and num(b):
            if not is_z(a) and not is_z(b):
                try:
                    return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                            ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
                except ZeroDivisionError:
                    self.raise_("ZeroDivisionError")
                except KeyError:
                    raise Unsupported("operator")
            real = any(isinstance(v, float) or is_zreal(v) for v in (a, b))
            if isinstance(op, ast.Div):
                x, y = self.zr(a), self.zr(b)
                if self.branch(y == 0): self.raise_("ZeroDivisionError")
                return z3.simplify(x / y)
            x, y = (self.zr(a), self.zr(b)) if real else (self.zi(a), self.zi(b))
            if isinstance(op, ast.Add): return norm(z3.simplify(x + y))
            if isinstance(op, ast.Sub): return norm(z3.simplify(x - y))
            if isinstance(op, ast.Mult): return norm(z3.simplify(x * y))
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and not real:
                if self.branch(y == 0): self.raise_("ZeroDivisionError")
                if self.branch(y < 0): raise Unsupported("modulo by a negative number")
                return norm(z3.simplify(x % y if isinstance(op, ast.Mod) else x / y))
            raise Unsupported("operator")
        st = lambda v: isinstance(v, str) or is_zstr(v)
        if isinstance(op, ast.Add) and st(a) and st(b): return self.lib.concat(self, [a, b])
        if isinstance(op, ast.Add) and isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            return self.list_concat(a, b)
        if isinstance(op, ast.Mult) and isinstance(a, PList) and num(b): return self.list_repeat(a, b)
        if isinstance(op, ast.Mult) and isinstance(b, PList) and num(a): return self.list_repeat(b, a)
        if isinstance(op, ast.Mod) and st(a): raise Unsupported("% formatting")
        if (a is None or b is None) or (st(a) != st(b)): self.raise_("TypeError")
        raise Unsupported("binary operator on %r, %r" % (a, b))

    # comprehensions -------------------------------------------------------
    def ex_ListComp(self, e, fr): return self.comp(e, fr, "list")
    def ex_GeneratorExp(self, e, fr): return self.comp(e, fr, "iter")
    def ex_SetComp(self, e, fr): return self.lib.make_set(self, self.comp(e, fr, "iter"))

    def ex_DictComp(self, e, fr):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        l = self.comp(e, fr, "iter", elt=pair)
        return self.lib.dict_from_pairs(self, l)

    def comp(self, e, fr, kind, elt=None):
        elt = elt if elt is not None else e.elt
        return self.comp_gen(e.generators, 0, elt, fr, kind)

    def comp_gen(self, gens, gi, elt, fr, kind):
        g = gens[gi]
        src = self.to_seq(self.force(self.eval(g.iter, fr)))
        last = gi == len(gens) - 1

        def sub(x):
            sc = self.new(Scope(fr.scope))
            f2 = Frame(fr.func, sc, fr.module, fr.cls, fr.self_)
            self.assign(g.target, x, f2)
            return f2
        if src.concrete:
            out = []
            for x in src.items:
                f2 = sub(x)
                if all(self.branch(self.truth(self.eval(c, f2))) for c in g.ifs):
                    if last: out.append(self.eval(elt, f2))
                    else:
                        l = self.comp_gen(gens, gi + 1, elt, f2, "list")
                        if not l.concrete: raise Unsupported("nested comprehension")
                        out.extend(l.items)
            return self.new(PList(items=out, kind=kind))
        if not last:
            def get_inner(i):
                f2 = sub(self.list_get_raw(src, i))
                return self.comp_gen(gens, gi + 1, elt, f2, "list")
            if g.ifs: raise Unsupported("nested comprehension with condition")
            outer = self.new(PList(n=src.n, get=get_inner, kind="iter"))
            return self.lib.flatten(self, outer, kind)
        if g.ifs:
            def keep(x):
                f2 = sub(x)

                def run():
                    for c in g.ifs:
                        if not self.branch(self.truth(self.eval(c, f2))): return False
                    return True
                return self.merged(run)
            src = self.lib.filter_seq(self, keep, src)
        r = self.lib.map_seq(self, lambda x: self.eval(elt, sub(x)), src)
        r.kind = kind
        if kind == "list": r = self.materialize(r)
        return r

    # calls -----------------------------------------------------------------
    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.scope.vars:
            if e.args:
                c, s = self.eval(e.args[0], fr), self.eval(e.args[1], fr)
                return Super(c, s)
            f = fr
            return Super(fr.func.outer_cls, fr.self_)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend") and isinstance(e.func.value, ast.Subscript) \
                and not isinstance(e.func.value.slice, ast.Slice) and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
            base = self.force(self.eval(e.func.value.value, fr))
            key = self.eval(e.func.value.slice, fr)
            if isinstance(base, PDict) and not base.concrete and isinstance(base.vt, ListT):
                l = self.dict_get(base, key)
                x = self.eval(e.args[0], fr)
                if not base.owned or base.leaked: raise Unsupported("mutation of a list in a dict that may be shared")
                l = self.snapshot(l)
                l.kind = "list"
                l = self.new(l)
                if e.func.attr == "append": self.list_append(l, x)
                else: self.list_extend(l, x)
                self.fresh_display = l
                self.dict_set(base, key, l)
                self.fresh_display = None
                return None
            fn = self.getattr_(self.getitem(base, key), e.func.attr)
        else: fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                l = self.to_seq(self.force(self.eval(a.value, fr)))
                if not l.concrete:
                    args.append(StarSeq(l))
                else: args.extend(l.items)
            else: args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, fr))
                if not isinstance(d, PDict) or not d.concrete: raise Unsupported("** of symbolic dict")
                for kk, vv in d.items: kw[kk] = vv
            else: kw[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        fn = self.force(fn)
        if isinstance(fn, Native): return fn.fn(self, args, kw)
        if isinstance(fn, Bound): return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, ClassMethod): return self.call(fn.fn, args, kw)
        if isinstance(fn, StaticMethod): return self.call(fn.fn, args, kw)
        if isinstance(fn, Cls): return self.instantiate(fn, args, kw)
        if isinstance(fn, UFun):
            if kw or len(args) != len(fn.argts): raise Unsupported("call of arbitrary function")
            args = [self.force(a) if isinstance(a, UVal) and not isinstance(t, OptT) else a for a, t in zip(args, fn.argts)]
            if any(a is None and not isinstance(t, (OptT, NoneT)) for a, t in zip(args, fn.argts)): self.raise_("TypeError")
            return self.dec(fn.decl(*[self.enc(a, t, freeze=False) for a, t in zip(args, fn.argts)]), fn.rett)
        if isinstance(fn, Func): return self.call_func(fn, args, kw)
        if isinstance(fn, Obj):
            f, _ = fn.cls.lookup("__call__")
            if f is not None: return self.call(Bound(fn, f), args, kw)
        if fn is None: self.raise_("TypeError")
        raise Unsupported("call of %r" % (fn,))

    def call_func(self, fn, args, kw):
        q = fn.qual
        if q in self.contracts:
            r = self.contracts[q](self, fn, args, kw)
            if r is not UNDEF: return r
        self.functions_seen.add(q)
        if self.call_depth > 60: raise Unsupported("recursion too deep in " + q)
        nd = fn.node
        if id(nd) not in self.no_merge:
            # not merged: constructors (they write) and functions with loops (each path through a loop would be explored again and again)
            self.no_merge[id(nd)] = (nd, isinstance(nd, ast.FunctionDef) and (fn.name == "__init__" or any(isinstance(n, (ast.For, ast.While, ast.Yield)) for n in ast.walk(nd))))
        plain = self.no_merge[id(nd)][1]
        def run():
            self.call_depth += 1
            self.stack.append(nd)
            try:
                return self.run_func(fn, args, kw)
            finally:
                self.call_depth -= 1
                self.stack.pop()
        if plain or fn.impure: return run()
        try:
            return self.merged(run)
        except Impure:
            fn.impure = True
            return run()

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, StarSeq) for x in args): raise Unsupported("star call with symbolic sequence")
        if len(args) > len(names):
            if a.vararg is None: self.raise_("TypeError")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None: out[a.vararg.arg] = ()
        for n, v in zip(names, args): out[n] = v
        extra = []
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwo:
                if k in out: self.raise_("TypeError")
                out[k] = v
            elif a.kwarg is not None: extra.append([k, v])
            else: self.raise_("TypeError")
        if a.kwarg is not None: out[a.kwarg.arg] = self.new(PDict(items=extra))
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            if n not in out: out[n] = d
        for n, d in fn.kw_defaults.items():
            if n not in out: out[n] = d
        for n in names + kwo:
            if n not in out: self.raise_("TypeError")
        return out

    def run_func(self, fn, args, kw):
        vals = self.bind(fn, args, kw)
        sc = self.new(Scope(fn.scope))
        if not hasattr(fn, "locals_"):
            fn.locals_ = local_names(fn.node)
            fn.is_gen = isinstance(fn.node, ast.FunctionDef) and is_generator(fn.node)
        sc.locals = fn.locals_
        sc.vars.update(vals)
        fself = getattr(fn, "frame_self", None)
        first = fn.node.args.args[0].arg if fn.node.args.args else None
        self_ = vals.get(first) if fn.cls is not None else (fself.self_ if fself else None)
        fr = Frame(fn, sc, fn.module, fn.outer_cls, self_)
        if isinstance(fn.node, ast.Lambda): return self.eval(fn.node.body, fr)
        if fn.is_gen: fr.yields = self.new(PList(items=[]))
        sig = self.exec_block(fn.node.body, fr)
        if fn.is_gen:
            l = fr.yields
            r = self.new(PList(items=l.items, n=l.n, arr=l.arr, off=l.off, etype=l.etype, get=l.get_, kind="iter"))
            r.gen = True       # the consumer owns what was yielded (the originals are frozen)
            self.assumed.add("generator functions are evaluated eagerly: a generator and its consumer do not communicate through mutable state, other than the consumer changing what was yielded to it")
            return r
        if sig is not None and sig[0] == RET: return sig[1]
        return None

    def ex_Yield(self, e, fr):
        f = fr
        if f.yields is None: raise Unsupported("yield outside generator frame")
        self.list_append(f.yields, self.eval(e.value, fr) if e.value is not None else None)
        return None

    def instantiate(self, cls, args, kw):
        if cls.builtin is not None or (self.exc_class("BaseException") in cls.mro() and cls.lookup("__init__")[0] is None):
            o = self.new(Obj(cls)); o.args = tuple(args)
            return o
        if cls.fields is not None:
            o = self.new(Obj(cls))
            for n, v in zip(cls.fields, args): o.attrs[n] = v
            o.attrs.update(kw)
            if set(o.attrs) != set(cls.fields): self.raise_("TypeError")
            return o
        init, c = cls.lookup("__init__")

        def run():
            o = self.new(Obj(cls))
            if init is not None: self.call(Bound(o, init), args, kw)
            elif args or kw: self.raise_("TypeError")
            return o
        t = self.records.get(cls.qual)
        if t is None: return run()
        # record class: remember the constructor arguments (the instance is immutable afterwards)
        rec = None
        try:
            vals = self.bind(init, [None] + list(args), kw) if init is not None else {}
            if set(vals) - {init.node.args.args[0].arg} <= set(t.fields) | set():
                rec = sort_of(t).mk(*[self.enc(vals[n], x, freeze=False) for n, x in t.fields.items()])
        except (Unsupported, KeyError):
            rec = None
        o = run()
        if isinstance(o, Obj) and rec is not None: o.rec = (t, rec)
        return o

    # attributes --------------------------------------------------------------
    def ex_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr_(o, self.mangle(e.attr, fr.cls))

    def getattr_(self, o, name):
        if isinstance(o, UVal):
            if all(isinstance(x, Obj) for _, x in o.alts):
                return self.try_merged(lambda: self.getattr_(self.force(o), name))
            o = self.force(o)
        if isinstance(o, Obj):
            if name in o.attrs: return o.attrs[name]
            if o.lazy and o.rec is not None:
                t, e = o.rec
                attrs = self.layout(t)[0]
                if name in attrs:
                    v = self.subst_val(attrs[name], self.layout_subst(t, e))
                    o.attrs[name] = v
                    return v
            f, c = o.cls.lookup(name)
            if f is not None: return self.bind_attr(f, o, o.cls)
            if name == "__class__": return o.cls
            if o.cls.fields is not None and name == "_replace": raise Unsupported("_replace")
            if getattr(o, "native_attrs", None) and name in o.native_attrs: return o.native_attrs[name]
            self.raise_("AttributeError")
        if isinstance(o, Cls):
            f, c = o.lookup(name)
            if f is None:
                if name == "__name__": return o.name
                if name in ("__init__", "__enter__", "__exit__"): return Native(name, lambda e, a, k: None)
                self.raise_("AttributeError")
            if isinstance(f, ClassMethod): return Bound(o, f.fn)
            if isinstance(f, StaticMethod): return f.fn
            return f
        if isinstance(o, Super):
            mro = (o.self_.cls if isinstance(o.self_, Obj) else o.self_).mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns: return self.bind_attr(c.ns[name], o.self_, c)
            if name == "__init__": return Native("object.__init__", lambda e, a, k: None)
            self.raise_("AttributeError")
        if isinstance(o, ModuleRef):
            v = self.module_attr(o.name, name)
            if v is UNDEF: raise Unsupported("no attribute %s.%s" % (o.name, name))
            return v
        if isinstance(o, Opaque): return self.extern.get(o.name + "." + name) or Opaque(o.name + "." + name)
        if o is None: self.raise_("AttributeError")
        return self.lib.method(self, o, name)

    def bind_attr(self, f, o, cls):
        if isinstance(f, Property): return self.call(f.fn, [o], {})
        if isinstance(f, ClassMethod): return Bound(o.cls if isinstance(o, Obj) else o, f.fn)
        if isinstance(f, StaticMethod): return f.fn
        if isinstance(f, Func): return Bound(o, f)
        if isinstance(f, Native): return Bound(o, f)
        return f

    def setattr_(self, o, name, v):
        o = self.force(o)
        if not isinstance(o, Obj): raise Unsupported("attribute assignment on %r" % (o,))
        if o.lazy: raise Unsupported("assignment to an attribute of a record value")
        f, c = o.cls.lookup(name)
        if isinstance(f, Property): self.raise_("AttributeError")
        old, had = o.attrs.get(name), name in o.attrs

        def restore():
            if had: o.attrs[name] = old
            else: o.attrs.pop(name, None)
        self.on_write(o, name, restore)
        o.attrs[name] = v
        if o.rec is not None: o.rec = None      # no longer denoted by its constructor arguments

    # subscripts ----------------------------------------------------------------
    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def ex_Subscript(self, e, fr):
        o = self.force(self.eval(e.value, fr))
        k = self.eval_slice(e.slice, fr)
        if self.bound and isinstance(o, PList) and is_zint(k) and not o.concrete and o.kind != "iter" and fr.func is not None and fr.func.qual.startswith("specs."):
            return self.list_get_raw(o, k)        # inside of a quantified formula elements are total functions of the index
        if isinstance(o, PDict) and not o.leaked:
            v = self.getitem(o, k)
            if not isinstance(v, (bool, int, str, float, tuple)) and not (fr.func is not None and fr.func.qual.startswith("specs.")): o.leaked = True
            return v
        return self.getitem(o, k)

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(k, UVal): k = self.force(k)
        if isinstance(o, tuple) or isinstance(o, PList):
            if isinstance(o, tuple) and isinstance(k, int) and not isinstance(k, bool):
                if -len(o) <= k < len(o): return o[k]
                self.raise_("IndexError")
            o = self.as_list(o)
            if isinstance(k, SliceV): return self.list_slice(o, k)
            if k is None or isinstance(k, str) or is_zstr(k): self.raise_("TypeError")
            if o.kind == "iter": self.raise_("TypeError")
            return self.list_get(o, k)
        if isinstance(o, str) or is_zstr(o): return self.lib.str_getitem(self, o, k)
        if isinstance(o, PDict): return self.dict_get(o, k)
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None: return self.call(Bound(o, f), [k], {})
            if o.cls.fields is not None: return self.getitem(tuple(o.attrs[n] for n in o.cls.fields), k)
        if isinstance(o, Cls): return o       # Generic[...]
        if o is None: self.raise_("TypeError")
        raise Unsupported("subscript of %r" % (o,))

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, PList):
            if isinstance(k, UVal): k = self.force(k)
            if o.kind != "list" or k is None or isinstance(k, str) or is_zstr(k): self.raise_("TypeError")
            return self.list_set(o, k, v)
        if isinstance(o, PDict): return self.dict_set(o, k, v)
        raise Unsupported("item assignment on %r" % (o,))

    # lists ------------------------------------------------------------------------
    def length(self, l):
        if isinstance(l, tuple): return len(l)
        return len(l.items) if l.concrete else l.n

    def list_get_raw(self, l, i):
        """element at a known-valid index"""
        if isinstance(l, tuple): l = self.as_list(l)
        if l.concrete:
            i = norm(i) if is_z(i) else i
            if not is_z(i): return l.items[i]
            if not l.items: raise PathEnd()
            return self.merge_values([(i == j, x) for j, x in enumerate(l.items)])
        if l.arr is not None:
            idx = z3.simplify(self.zi(l.off) + self.zi(i))
            known = self.bound and l.arr.get_id() in self.valid_arrs     # the invariant is assumed for every element
            v = self.dec(z3.Select(l.arr, idx), l.etype, inv=not known)
            if not getattr(l, "gen", False): self.freeze(v)       # a container inside of a by-value container must not be mutated through the copy
            return v
        return l.get_(self.zi(i) if not isinstance(i, int) else z3.IntVal(i))

    def norm_index(self, l, i):
        n = self.length(l)
        if isinstance(i, bool) or is_zbool(i): i = self.zi(i); i = norm(i)
        if not is_z(i) and not isinstance(i, int): raise Unsupported("list index %r" % (i,))
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n: self.raise_("IndexError")
            return i % n if n else i
        zn, zi_ = self.zi(n), self.zi(i)
        if self.branch(zi_ < 0): zi_ = zi_ + zn
        if self.branch(z3.Or(zi_ < 0, zi_ >= zn)): self.raise_("IndexError")
        return norm(z3.simplify(zi_))

    def list_get(self, l, i): return self.list_get_raw(l, self.norm_index(l, i))

    def clamp(self, v, n, default):
        """slice bound"""
        if v is None: return default
        v = self.force(v)
        if v is None: return default
        if isinstance(v, int) and isinstance(n, int): return max(0, n + v) if v < 0 else min(v, n)
        zv, zn = self.zi(v), self.zi(n)
        return norm(z3.simplify(z3.If(zv < 0, z3.If(zn + zv < 0, 0, zn + zv), z3.If(zv > zn, zn, zv))))

    def clamp_fork(self, v, n, default):
        """slice bound, deciding the clamping by forking (keeps terms simple)"""
        if v is None: return default
        v = self.force(v)
        if v is None: return default
        if isinstance(v, int) and isinstance(n, int): return max(0, n + v) if v < 0 else min(v, n)
        zv, zn = self.zi(v), self.zi(n)
        if self.branch(zv < 0):
            zv = zv + zn
            if self.branch(zv < 0): return 0
            return norm(z3.simplify(zv))
        if self.branch(zv > zn): return n
        return norm(z3.simplify(zv))

    def list_slice(self, l, s):
        n = self.length(l)
        step = s.step
        kind = "tuple" if l.kind == "tuple" else "list"
        if step not in (None, 1):
            if step == -1 and s.lower is None and s.upper is None: return self.lib.reversed_seq(self, l, kind)
            raise Unsupported("slice step")
        lo, hi = self.clamp_fork(s.lower, n, 0), self.clamp_fork(s.upper, n, n)
        if l.concrete and isinstance(lo, int) and isinstance(hi, int):
            items = l.items[lo:hi]
            return tuple(items) if kind == "tuple" else self.new(PList(items=items, kind=kind))
        zlo, zhi = self.zi(lo), self.zi(hi)
        m = norm(z3.simplify(zhi - zlo))
        if is_z(m):
            if self.branch(zhi < zlo): m = 0
        elif m < 0: m = 0
        if l.arr is not None:
            return self.new(PList(n=m, arr=l.arr, off=norm(z3.simplify(self.zi(l.off) + zlo)), etype=l.etype, kind=kind))
        src = self.snapshot(l)
        return self.new(PList(n=m, get=lambda i: self.list_get_raw(src, norm(z3.simplify(i + zlo))), kind=kind))

    def snapshot(self, l):
        """immutable view of a list's current content"""
        if isinstance(l, tuple): return self.as_list(l)
        r = PList(items=list(l.items) if l.concrete else None, n=l.n, arr=l.arr, off=l.off, etype=l.etype, get=l.get_, kind=l.kind)
        r.gen = getattr(l, "gen", False)
        self.lib.set_keyed(r, self.lib.keyed(l))
        return r

    def list_repr(self, l, t):
        """(n, arr, off) with elements encoded as t"""
        if isinstance(l, tuple): l = self.as_list(l)
        if l.concrete:
            arr = z3.K(z3.IntSort(), self.default_of(t)) if self.default_of(t) is not None else self.fresh(z3.ArraySort(z3.IntSort(), sort_of(t)), "arr")
            for i, x in enumerate(l.items): arr = z3.Store(arr, i, self.enc(x, t))
            return len(l.items), arr, 0
        if l.arr is not None and l.etype == t: return l.n, l.arr, l.off
        arr = self.fresh(z3.ArraySort(z3.IntSort(), sort_of(t)), "arr")
        src = self.snapshot(l)
        n = self.zi(l.n)
        q = z3.Int("q%d" % self.nq())
        rng = z3.And(0 <= q, q < n)
        self.bound.append(q)
        try:
            def run():
                self.assume(rng)
                return self.enc(self.list_get_raw(src, q), t)
            outs = self.explore(run, "pure")
        finally:
            self.bound.pop()
        for o in outs:
            for f in o.facts:
                if not f.eq(rng): self.assume_closed(q, rng, conj(o.guards), f)
        rs = [o for o in outs if o.kind == "raise"]
        if rs:
            if self.branch(z3.Exists([q], z3.And(rng, disj([conj(o.guards) for o in rs])))): raise PyRaise(rs[0].value)
        for o in outs:
            if o.kind == "ok":
                self.assume(z3.ForAll([q], z3.Implies(conj([rng] + o.guards), arr[q] == o.value)))
        return l.n, arr, 0

    def default_of(self, t):
        if isinstance(t, IntT): return z3.IntVal(0)
        if isinstance(t, BoolT): return z3.BoolVal(False)
        if isinstance(t, StrT): return z3.StringVal("")
        if isinstance(t, OptT): return sort_of(t).none
        return None

    def materialize(self, l):
        """lazy list -> array-backed list (evaluates every element now)"""
        if l.concrete or l.arr is not None: return l
        try:
            t = self.typeof(l).t
            if t is None: raise Unsupported("unknown element type")
            n, arr, off = self.list_repr(l, t)
        except Unsupported:
            # elements stay lazy; still surface exceptions of the element function
            self.forall_idx(0, l.n, lambda i: (self.list_get_raw(l, i), True)[1])
            return l
        return self.lib.set_keyed(self.new(PList(n=n, arr=arr, off=off, etype=t, kind=l.kind)), self.lib.keyed(l))

    def list_write(self, l):
        old = (l.items, l.n, l.arr, l.off, l.etype, l.get_)

        def restore(): l.items, l.n, l.arr, l.off, l.etype, l.get_ = old
        self.on_write(l, None, restore)

    def to_symbolic(self, l, t):
        n, arr, off = self.list_repr(l, t)
        l.items, l.n, l.arr, l.off, l.etype, l.get_ = None, n, arr, off, t, None

    def list_append(self, l, v):
        self.list_write(l)
        if l.concrete:
            l.items = l.items + [v]
            return
        if l.arr is None and l.get_ is not None:
            old = self.snapshot(l)
            n = self.zi(l.n)
            try:
                t = self.join(self.typeof(l).t, self.typeof(v))
                self.to_symbolic(l, t)
            except Unsupported:
                l.get_ = lambda i: self.merged(lambda: v if self.branch(i == n) else self.list_get_raw(old, i))
                l.n = norm(z3.simplify(n + 1))
                return
        t = self.join(l.etype, self.typeof_for(v, l.etype))
        if t != l.etype: self.to_symbolic(l, t)
        idx = z3.simplify(self.zi(l.off) + self.zi(l.n))
        l.arr = z3.Store(l.arr, idx, self.enc(v, l.etype))
        l.n = norm(z3.simplify(self.zi(l.n) + 1))

    def typeof_for(self, v, t):
        """type of v when stored in a container of element type t"""
        if isinstance(v, PList) and v.concrete and not v.items and isinstance(t, ListT): return t
        if isinstance(v, PDict) and v.concrete and not v.items and isinstance(t, DictT): return t
        r = self.typeof(v)
        return r

    def list_extend(self, l, other):
        other = self.to_seq(self.force(other))
        if l.concrete and other.concrete:
            self.list_write(l)
            l.items = l.items + list(other.items)
            return
        if other.concrete:
            for x in other.items: self.list_append(l, x)
            return
        r = self.list_concat(self.snapshot(l), other)
        self.list_write(l)
        l.items, l.n, l.arr, l.off, l.etype, l.get_ = r.items, r.n, r.arr, r.off, r.etype, r.get_

    def list_concat(self, a, b):
        a, b = self.as_list(a), self.as_list(b)
        kind = "tuple" if a.kind == "tuple" else "list"
        if a.concrete and b.concrete: return self.new(PList(items=a.items + b.items, kind=kind))
        if a.concrete and not a.items:
            return self.new(PList(items=b.items, n=b.n, arr=b.arr, off=b.off, etype=b.etype, get=b.get_, kind=kind))
        if b.concrete and not b.items:
            return self.new(PList(items=a.items, n=a.n, arr=a.arr, off=a.off, etype=a.etype, get=a.get_, kind=kind))
        a, b = self.snapshot(a), self.snapshot(b)
        na, nb = self.zi(self.length(a)), self.zi(self.length(b))
        def get(i):
            def run():
                if self.branch(i < na): return self.list_get_raw(a, i)
                return self.list_get_raw(b, norm(z3.simplify(i - na)))
            return self.merged(run)
        return self.new(PList(n=norm(z3.simplify(na + nb)), get=get, kind=kind))

    def list_repeat(self, l, n):
        if l.concrete and isinstance(n, int): return self.new(PList(items=l.items * n, kind=l.kind))
        if l.concrete and len(l.items) == 1:
            x = l.items[0]
            zn = self.zi(n)
            zn = norm(z3.simplify(z3.If(zn < 0, z3.IntVal(0), zn))) if self.feasible(zn < 0) else n
            try:
                t = self.typeof(x)
                return self.new(PList(n=zn, arr=z3.K(z3.IntSort(), self.enc(x, t)), off=0, etype=t, kind=l.kind))
            except Unsupported:
                return self.new(PList(n=zn, get=lambda i: x, kind=l.kind))
        raise Unsupported("list repetition")

    def list_set(self, l, i, v):
        i = self.norm_index(l, i)
        self.list_write(l)
        if l.concrete and isinstance(i, int):
            l.items = l.items[:i] + [v] + l.items[i + 1:]
            return
        if l.arr is None:
            t = self.join(self.typeof(l).t, self.typeof(v))
            self.to_symbolic(l, t)
        t = self.join(l.etype, self.typeof_for(v, l.etype))
        if t != l.etype: self.to_symbolic(l, t)
        l.arr = z3.Store(l.arr, z3.simplify(self.zi(l.off) + self.zi(i)), self.enc(v, l.etype))

    def as_tuple(self, l):
        if isinstance(l, tuple): return l
        if l.concrete: return tuple(l.items)
        raise Unsupported("tuple of symbolic length")

    def to_seq(self, v):
        """any iterable -> PList view"""
        v = self.force(v)
        if isinstance(v, PList):
            if v.kind == "iter" and getattr(v, "consumed", False): raise Unsupported("iterator consumed twice")
            return v
        if isinstance(v, tuple): return PList(items=list(v), kind="tuple")
        if isinstance(v, str): return PList(items=list(v), kind="iter")
        if is_zstr(v):
            return self.new(PList(n=z3.Length(v), get=lambda i: z3.SubString(v, i, 1), kind="iter"))
        if isinstance(v, PDict): return self.lib.dict_keys(self, v)
        if isinstance(v, PSet):
            if v.concrete: return PList(items=list(v.items), kind="iter")
            raise Unsupported("iteration over a symbolic set")
        if isinstance(v, Obj):
            if v.cls.fields is not None: return PList(items=[v.attrs[n] for n in v.cls.fields], kind="tuple")
            f, _ = v.cls.lookup("__iter__")
            if f is not None: return self.to_seq(self.call(Bound(v, f), [], {}))
            f, _ = v.cls.lookup("__getitem__")
            if f is not None: return self.lib.getitem_iter(self, v, f)
        if v is None: self.raise_("TypeError")
        raise Unsupported("iteration over %r" % (v,))

    # dicts ------------------------------------------------------------------------
    def dict_map(self, d, t):
        if d.concrete:
            s = sort_of(OptT(t.v))
            m = z3.K(sort_of(t.k), s.none)
            for k, v in d.items: m = z3.Store(m, self.enc(k, t.k), s.some(self.enc(v, t.v)))
            return m
        if d.kt == t.k and d.vt == t.v: return d.map
        raise Unsupported("dict type mismatch")

    def dict_write(self, d):
        old = (d.items, d.map, d.kt, d.vt, d.keyseq)

        def restore(): d.items, d.map, d.kt, d.vt, d.keyseq = old
        self.on_write(d, None, restore)
        d.keyseq = None

    def const_key(self, k):
        return k is None or isinstance(k, (bool, int, str, float, Cls)) or (isinstance(k, tuple) and all(self.const_key(x) for x in k))

    def dict_set(self, d, k, v):
        k = self.hashable(k)
        if isinstance(v, (PList, PDict, Obj, UVal)) and v is not self.fresh_display: d.owned = False
        if d.concrete and (self.const_key(k) or isinstance(k, Obj)):
            if all(self.const_key(kk) for kk, _ in d.items) and self.const_key(k):
                self.dict_write(d)
                for i, (kk, _) in enumerate(d.items):
                    if kk == k and type(kk) == type(k):
                        d.items = d.items[:i] + [[kk, v]] + d.items[i + 1:]
                        return
                d.items = d.items + [[k, v]]
                return
            # object keys: decide equality with each present key
            for i, (kk, _) in enumerate(d.items):
                if self.branch(self.eq(kk, k)):
                    self.dict_write(d)
                    d.items = d.items[:i] + [[kk, v]] + d.items[i + 1:]
                    return
            self.dict_write(d)
            d.items = d.items + [[k, v]]
            return
        self.dict_write(d)
        if d.concrete:
            kt, vt = None, None
            for kk, vv in d.items: kt = self.join(kt, self.typeof(kk)); vt = self.join(vt, self.typeof(vv))
            kt = self.join(kt, self.typeof(k)); vt = self.join(vt, self.typeof(v))
            d.map = self.dict_map(d, DictT(kt, vt))
            d.items, d.kt, d.vt = None, kt, vt
        self.key_type(d.kt)
        vt = self.join(d.vt, self.typeof_for(v, d.vt))
        if vt != d.vt: raise Unsupported("dict value type changes")
        d.map = z3.Store(d.map, self.enc(k, d.kt), sort_of(OptT(d.vt)).some(self.enc(v, d.vt)))

    def hashable(self, k):
        k = self.force(k)
        if isinstance(k, tuple): return tuple(self.hashable(x) for x in k)
        if isinstance(k, (PList, PDict)) and getattr(k, "kind", "") != "tuple": self.raise_("TypeError")
        return k

    def dict_find(self, d, k):
        """(present, value) """
        k = self.hashable(k)
        if d.concrete:
            if self.const_key(k) and all(self.const_key(kk) for kk, _ in d.items):
                for kk, v in d.items:
                    if kk == k and (type(kk) == type(k) or isinstance(kk, (int, bool))): return True, v
                return False, None
            for kk, v in d.items:
                if self.branch(self.eq(kk, k)): return True, v
            return False, None
        self.key_type(d.kt)
        try:
            e = d.map[self.enc(k, d.kt)]
        except Unsupported:
            kt = self.typeof(k)
            if type(kt) is not type(d.kt) and not isinstance(d.kt, OptT): return False, None
            raise
        s = sort_of(OptT(d.vt))
        c = norm(z3.simplify(z3.Not(s.is_none(e))))
        return c, e

    def dict_value(self, d, e):
        if d.concrete: return e
        s = sort_of(OptT(d.vt))
        v = self.dec(norm(z3.simplify(s.val(e))), d.vt)
        self.freeze(v)
        return v

    def dict_has(self, d, k):
        if d.concrete and not (self.const_key(k) and all(self.const_key(kk) for kk, _ in d.items)):
            k = self.hashable(k)
            return norm(disj([zb(self.eq(kk, k)) for kk, _ in d.items]))
        return self.dict_find(d, k)[0]

    def dict_get(self, d, k):
        c, v = self.dict_find(d, k)
        if self.branch(c): return self.dict_value(d, v)
        if d.default is not None:
            v = self.call(d.default, [], {})
            if isinstance(d.default, Native): self.fresh_display = v
            self.dict_set(d, k, v)
            self.fresh_display = None
            return v
        self.raise_("KeyError", k)

    def dict_get_default(self, d, k, dflt):
        def run():
            c, v = self.dict_find(d, k)
            if self.branch(c): return self.dict_value(d, v)
            return dflt
        return self.try_merged(run)

    def dict_eq(self, a, b):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items): return False
            if all(self.const_key(k) for k, _ in a.items + b.items):
                out = []
                for k, v in a.items:
                    c, v2 = self.dict_find(b, k)
                    if not c: return False
                    out.append(zb(self.eq(v, v2)))
                return norm(conj(out))
            raise Unsupported("dict equality with object keys")
        ta, tb = self.typeof(a), self.typeof(b)
        t = self.join(ta, tb)
        if self.simple(t.v):
            return norm(z3.simplify(self.dict_map(a, t) == self.dict_map(b, t)))
        # structural equality of values (records / lists): pointwise
        s = sort_of(OptT(t.v))
        ma, mb = self.dict_map(a, t), self.dict_map(b, t)
        k = z3.Const("q_k%d" % self.nq(), sort_of(t.k))
        raise Unsupported("dict equality with structured values")

    def simple(self, t):
        if isinstance(t, (IntT, BoolT, StrT, AnyT, NoneT)): return True
        if isinstance(t, OptT): return self.simple(t.t)
        if isinstance(t, TupT): return all(map(self.simple, t.ts))
        return False


class SliceV:
    def __init__(self, lower, upper, step): self.lower, self.upper, self.step = lower, upper, step


class StarSeq:
    def __init__(self, l): self.l = l


def norm_acc(s, e, i):
    return z3.simplify(getattr(s, "f%d" % i)(e))


def is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(x))
    return False


def local_names(node):
    out, nl = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: out.add(x.arg)
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    st = list(node.body) if isinstance(node.body, list) else []
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name); continue
        if isinstance(x, ast.Lambda): continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.Nonlocal): nl.update(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names: out.add((al.asname or al.name.split(".")[0]))
        st.extend(ast.iter_child_nodes(x))
    return out - nl
