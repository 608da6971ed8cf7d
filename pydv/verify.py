"""Proof driver: run every lemma of a property through the verifier on the current tree."""
import ast
import importlib.util
import os
import sys
import time
import traceback
import z3
from .values import *
from .engine import *
from .engine import UNDEF, Restart, Region, consts_of, conj, disj, zb
from . import types as TY
from . import templates

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class LemmaResult:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.failed = []
        self.unsupported = None
        self.paths = 0
        self.cover = {"sat": 0, "unsat": 0, "unknown": 0}
        self.time = 0.0
        self.functions = set()
        self.arg_models = []
        self.incomplete = None


def install(e):
    def ens(e, a, k):
        c = e.truth(a[0])
        nm = a[1] if len(a) > 1 else k.get("name", "postcondition")
        if e.dry: return None
        e.cur_prove(c, nm)
        # afterwards the postcondition may be used
        if is_z(c): e.assume(c)
        elif not c: raise PathEnd()
        return None

    def asm(e, a, k):
        c = e.truth(a[0])
        if is_z(c): e.assume(c)
        elif not c: raise PathEnd()
        return None

    def fa(e, a, k): return e.forall_idx(a[0], a[1], lambda i: e.call(a[2], [i], {}))
    def ex(e, a, k): return e.forall_idx(a[0], a[1], lambda i: e.call(a[2], [i], {}), exists=True)

    def names(e, a, k): return e.forall_val(StrT(), lambda x: e.call(a[1], [x], {}))

    def imp(e, a, k):
        b = a[1]
        if isinstance(b, Func): b = e.call(b, [], {})
        p, q = e.truth(a[0]), e.truth(b)
        return norm(z3.simplify(z3.Implies(zb(p), zb(q))))

    def iff(e, a, k):
        p, q = e.truth(a[0]), e.truth(a[1])
        return norm(z3.simplify(zb(p) == zb(q)))
    def inv(e, a, k):
        if not e.contract_mode or e.contract_mode[-1][0] == "prelude": e.spec_invs.append((a[0], dict(k)))
        return None

    def primrec(e, a, k):
        base, step = a
        t = e.typeof(base)
        while True:
            e.dry += 1
            try:
                def probe():
                    v = e.fresh_val(t, "pr")
                    kk = e.fresh(z3.IntSort(), "prk")
                    e.assume(kk >= 0)
                    return [e.join(t, e.typeof(o.value)) for o in e.explore(lambda: e.call(step, [kk, v], {})) if o.kind == "ok"]
                ts, _ = e.sandbox(probe)
            finally:
                e.dry -= 1
            t2 = t
            for x in ts: t2 = e.join(t2, x)
            if t2 == t: break
            t = t2
        e.fresh_n += 1
        g = UFun("rec!%d" % e.fresh_n, (TY.Int,), t)
        e.assume(g.decl(z3.IntVal(0)) == e.enc(base, t, freeze=False))

        def at(kk):
            kk = e.zi(kk)
            v = e.dec(g.decl(kk), t, inv=False)
            e.assume(zdom(e, g.decl(kk), t))

            def run():
                e.assume(kk >= 0)
                return e.enc(e.call(step, [norm(kk), v], {}), t, freeze=False)
            for o in e.explore(run):
                if o.kind != "ok": continue
                g_ = conj([kk >= 0] + o.guards)
                for f in o.facts: e.assume(z3.Implies(g_, f))
                e.assume(z3.Implies(g_, g.decl(z3.simplify(kk + 1)) == o.value))
        g.at = at
        e.rec_hooks.append(at)
        return g

    def unfold(e, a, k):
        a[0].at(a[1])
        return None

    def induct(e, a, k):
        if e.contract_mode and e.contract_mode[-1][0] != "prelude": return None
        lo, hi, fn, nm = a
        zl, zh = e.zi(lo), e.zi(hi)
        if e.dry: return None

        def val(i): return zb(e.truth(e.call(fn, [norm(z3.simplify(i))], {})))

        def base():
            e.assume(zl < zh)
            e.cur_prove(e.merged(lambda: val(zl)), nm + " (base)")

        def step():
            kk = e.fresh(z3.IntSort(), "ind")
            e.assume(z3.And(zl <= kk, kk + 1 < zh))
            e.assume(e.merged(lambda: val(kk)))
            for h in e.rec_hooks: h(kk)
            e.cur_prove(e.merged(lambda: val(kk + 1)), nm + " (step)")
        for f in (base, step):
            try: e.sandbox(f)
            except PathEnd: pass
        e.assume(zb(e.truth(e.forall_idx(lo, hi, lambda i: e.call(fn, [i], {})))))
        return None
    def cases(e, a, k):
        if e.contract_mode and e.contract_mode[-1][0] == "template": return None
        e.branch(e.truth(a[0]))
        return None

    def hint(e, a, k):
        if e.contract_mode and e.contract_mode[-1][0] == "template": return None
        e.call(a[0], [], {})
        return None

    def chunk_offset(e, a, k):
        l = e.force(a[0])
        if getattr(l, "flat", None) is None: raise Unsupported("not a concatenation")
        return l.flat[2](e.zi(a[1]))
    def require(e, a, k):
        c = e.truth(a[0])
        if e.contract_mode[-1][0] == "proof": return None
        if e.contract_mode[-1][0] == "prelude": e.assume(c if is_z(c) else z3.BoolVal(bool(c)))
        else:
            e.contract_mode[-1][2].append(("require", zb(c)))
            e.assume(zb(c))
        return None

    def refuse(e, a, k):
        c = e.truth(a[0])
        mode, who, raised = e.contract_mode[-1]
        if mode == "prelude": raise Prelude()
        if mode == "template":
            raised.append(("refuse", zb(c)))
            return None
        e.cur_prove(zb(c) if raised is not None else z3.Not(zb(c)), "refuses exactly when it should")
        if raised is not None:
            e.cur_prove(z3.BoolVal(e.exc_class("ValueError") in raised.cls.mro()), "refuses with ValueError")
            raise PathEnd()
        e.assume(z3.Not(zb(c)))
        return None

    def promise(e, a, k):
        mode, who, raised = e.contract_mode[-1]
        if mode == "prelude": raise Prelude()
        if mode == "template":
            raised.append(("promise", zb(e.truth(a[0]))))
            return None
        if raised is not None: e.cur_prove(z3.BoolVal(False), "no unexpected " + raised.cls.name); raise PathEnd()
        return ens(e, a, k)
    def identical(e, a, k):
        return e.identical(a[0], a[1])

    def result_of(e, a, k):
        if a[0] not in e.contract_result: raise Unsupported("no contract " + a[0])
        return e.contract_result[a[0]](a[1:])
    for n, f in (("identical", identical), ("cases", cases), ("result_of", result_of)): e.extern["pydv.speclib." + n] = Native(n, f)
    e.contract_result = {}
    e.contract_mode = []
    for n, f in (("require", require), ("refuse", refuse), ("promise", promise), ("hint", hint), ("chunk_offset", chunk_offset), ("invariant", inv), ("primrec", primrec), ("unfold", unfold), ("induct", induct), ("ensure", ens), ("assume", asm), ("forall", fa), ("every_name", names), ("exists", ex), ("implies", imp), ("iff", iff)):
        e.extern["pydv.speclib." + n] = Native(n, f)
    e.cur_prove = e.prove


def zdom(e, x, t):
    return z3.BoolVal(True)


def load_types(path):
    """lemma -> decorator arguments, evaluated with the type vocabulary only"""
    tree = ast.parse(open(path, encoding="utf-8").read())
    ns = {k: v for k, v in vars(TY).items() if not k.startswith("_")}
    tp = os.path.join(VERIF, "specs", "rectypes.py")
    if os.path.exists(tp):
        exec(compile(open(tp).read().replace("from pydv.types import *", ""), tp, "exec"), ns)
    out = []
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "Rec":
            exec(compile(ast.Module([st], []), path, "exec"), ns)
        if not isinstance(st, ast.FunctionDef): continue
        for d in st.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "contract":
                kw, types = {"qual": ast.literal_eval(d.args[0])}, {}
                for k in d.keywords:
                    if k.arg == "gen": continue
                    if k.arg == "props": kw["props"] = ast.literal_eval(k.value)
                    elif k.arg == "returns": kw["returns"] = eval(compile(ast.Expression(k.value), path, "eval"), ns)
                    else: types[k.arg] = eval(compile(ast.Expression(k.value), path, "eval"), ns)
                out.append((st.name, None, types, kw))
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "lemma":
                prop = ast.literal_eval(d.args[0])
                kw, types = {}, {}
                for k in d.keywords:
                    if k.arg in ("gen", "n", "rt"): continue
                    if k.arg in ("prove", "note", "timeout", "level"): kw[k.arg] = ast.literal_eval(k.value)
                    else: types[k.arg] = eval(compile(ast.Expression(k.value), path, "eval"), ns)
                out.append((st.name, prop, types, kw))
    return out, ns


def contracts_of(prop):
    path = os.path.join(VERIF, "specs", "contracts.py")
    return [(n, t, kw) for n, p, t, kw in load_types(path)[0] if "qual" in kw and prop in kw.get("props", ())] if os.path.exists(path) else []


class Prelude(Exception):
    """the preconditions and loop invariants of a contract have been read"""


class Template:
    """a contract evaluated once on placeholders: F(args) is the result; instantiated by substitution at every call"""
    def __init__(self, e, name, types, kw):
        self.e, self.name, self.types, self.kw = e, name, types, kw
        self.consts = [z3.Const("ct!%s!%s" % (name, n), sort_of(t)) for n, t in types.items()]
        ret = kw["returns"] or TY.NoneType
        self.F = z3.Function("fn!" + name, *[c.sort() for c in self.consts], sort_of(ret))
        self.r = self.F(*self.consts)
        cfn = e.resolve("specs.contracts:" + name)
        rec = []
        saved = (e.bound, e.pc, e.solver, e.regions)
        e.bound, e.pc, e.solver = [], [], z3.Solver()
        e.solver.set("timeout", 400)
        e.regions = [Region([], [], "top", -1)]
        try:
            def run():
                vals = [e.dec(c, t) for c, t in zip(self.consts, types.values())]
                n0 = len(e.pc)
                rv = e.dec(self.r, ret)
                n1 = len(e.pc)
                e.contract_mode.append(("template", kw["qual"], rec))
                try: e.run_func(cfn, [rv] + vals, {})
                finally: e.contract_mode.pop()
                return [x for _, x in e.pc[:n0]], [x for _, x in e.pc[n0:n1]], [x for _, x in e.pc[n1:]]
            outs = e.explore(run, "pure")
            if len(outs) != 1 or outs[0].kind != "ok" or outs[0].guards: raise Unsupported("contract %s is not a single path: %s" % (name, [(o.kind, o.value, o.guards) for o in outs]))
            self.valid, inv, facts = outs[0].value
        finally:
            e.bound, e.pc, e.solver, e.regions = saved
        self.requires = [c for k, c in rec if k == "require"]
        ref = [c for k, c in rec if k == "refuse"]
        self.refuse = disj(ref) if ref else None
        self.ensures = inv + facts + [c for k, c in rec if k == "promise"]
        names = {c.decl().name() for c in self.consts} | {self.F.name()}
        for x in self.ensures + self.requires + ref:
            if is_z(x):
                for nm in consts_of(x):
                    if "!" in nm and nm not in names and not nm.startswith("fn!"): raise Unsupported("contract %s introduces %s" % (name, nm))
        self.axiom = None
        if self.consts and not any(isinstance(t, (TY.ListT, TY.DictT)) for t in types.values()):
            hyp = self.valid + self.requires + ([z3.Not(zb(self.refuse))] if self.refuse is not None else [])
            self.axiom = z3.ForAll(self.consts, z3.Implies(conj(hyp), conj(self.ensures)), patterns=[self.r])

    def at(self, x, args):
        return z3.substitute(zb(x), *zip(self.consts, args)) if self.consts else zb(x)


def use_contract(e, name, types, kw):
    """calls of the function are replaced by its contract"""
    tpl = []

    def call(e, fn, args, kws):
        if not tpl: tpl.append(Template(e, name, types, kw))
        t_ = tpl[0]
        try:
            vals = e.bind(fn, args, kws)
            es = []
            for n, t in types.items():
                v = vals[n]
                if isinstance(t, RecT) and not (isinstance(v, Obj) and v.cls.qual == t.ref): return UNDEF
                es.append(e.enc(v, t, freeze=False))
        except (Unsupported, KeyError):
            return UNDEF
        e.functions_seen.add(fn.qual)
        e.used_contracts.add(name)
        for c in t_.requires:
            c = t_.at(c, es)
            if not e.dry: e.cur_prove(c, "precondition of " + kw["qual"])
            e.assume(c)
        if t_.refuse is not None and e.branch(z3.simplify(t_.at(t_.refuse, es))): e.raise_("ValueError")
        if t_.axiom is None or not e.bound:       # under a quantifier the axiom is enough
            for c in t_.ensures: e.assume(t_.at(c, es))
        if t_.axiom is not None and name not in e.axioms_on:
            e.axioms_on.add(name)
            e.axioms.append(t_.axiom)
        return e.dec(t_.F(*es), kw["returns"] or TY.NoneType, inv=False)
    e.contracts[kw["qual"]] = call

    def result(args):
        if not tpl: tpl.append(Template(e, name, types, kw))
        t_ = tpl[0]
        if t_.axiom is not None and name not in e.axioms_on:
            e.axioms_on.add(name)
            e.axioms.append(t_.axiom)
        return e.dec(t_.F(*[e.enc(v, t, freeze=False) for v, t in zip(args, types.values())]), kw["returns"], inv=False)
    e.contract_result[name] = result


class ContractProof:
    """the obligations of a contract: the body of the function against it"""
    def __init__(self, e, name, types, kw):
        self.e, self.types, self.kw = e, types, kw
        self.cfn = e.resolve("specs.contracts:" + name)
        self.f = e.resolve(kw["qual"])

    def run(self, args):
        e = self.e
        e.contracts.pop(self.kw["qual"], None)
        raised, v = None, None
        e.contract_mode.append(("prelude", self.kw["qual"], None))
        try: e.run_func(self.cfn, [None] + [args[n] for n in self.types], {})
        except (Prelude, PyRaise): pass       # everything after it is about the result
        finally: e.contract_mode.pop()
        try: v = e.call(self.f, [], dict(args))
        except PyRaise as x: raised = x.exc
        e.contract_mode.append(("proof", self.kw["qual"], raised))
        try: e.run_func(self.cfn, [v] + [args[n] for n in self.types], {})
        finally: e.contract_mode.pop()


def run_lemma(e, fn, name, types, budget):
    res = LemmaResult(name)
    t0 = time.time()
    work = [[]]
    e.deadline = t0 + budget
    e.proved_memo = set()
    e.functions_seen = set()
    e.loop_cache = {}
    e.axioms, e.axioms_on = [], set()
    e.obligations, e.failed = [], []
    npaths = 0
    try:
        while work:
            prefix = work.pop()
            npaths += 1
            if npaths > 3000: raise Unsupported("too many paths")
            e.reset(prefix, work)
            nf = len(e.failed)
            try:
                args = {}
                syms = {}
                for k, t in types.items():
                    v = e.fresh_val(t, "arg_" + k)
                    args[k] = v
                    syms[k] = (v, t)
                e.arg_syms = syms
                try:
                    if isinstance(fn, ContractProof): fn.run(args)
                    else: e.run_func(fn, [], args)
                except PyRaise as x:
                    e.prove(z3.BoolVal(False), "no unexpected %s" % x.exc.cls.name)
                if len(e.failed) == nf:
                    e.solver.set("timeout", 1500)
                    c = str(e.solver.check())
                    if c != "unsat" and npaths <= 40 and e.entails([h for _, h in e.pc], z3.BoolVal(False), timeout=1000): c = "unsat"
                    res.cover[c] += 1
            except PathEnd:
                pass
            except Restart:      # a function turned out to contain a loop: decisions of explored paths are void
                work = [[]]
                npaths = 0
                e.proved_memo, e.loop_cache = set(), {}
                e.obligations, e.failed = [], []
                res.cover = {"sat": 0, "unsat": 0, "unknown": 0}
                continue
            for ob in e.failed[nf:]:
                ob.args = {}
                if ob.model is not None:
                    for k, (v, t) in syms.items():
                        try: ob.args[k] = to_json(e, ob.model, v, t)
                        except Exception as x: ob.args = None; break
                else: ob.args = None
            if len(e.failed) >= 6: break
    except Unsupported as u:
        res.unsupported = str(u)
        if e.debug: traceback.print_exc()
    except z3.Z3Exception as x:
        res.unsupported = "z3: " + str(x)[:200]
        if e.debug: traceback.print_exc()
    except (RecursionError, KeyError, AttributeError, TypeError, AssertionError, IndexError, NameError, ValueError) as x:
        res.unsupported = "verifier error: %s: %s" % (type(x).__name__, x)
        if e.debug: traceback.print_exc()
    res.paths = npaths
    res.obligations = e.obligations
    res.failed = e.failed
    res.functions = set(e.functions_seen)
    res.time = time.time() - t0
    if res.unsupported is None and not res.failed:
        if not res.obligations: res.unsupported = "no obligation generated (vacuous)"
        elif res.cover["sat"] + res.cover["unknown"] == 0: res.unsupported = "every path is infeasible (vacuous)"
    return res


def to_json(e, model, v, t):
    """decode a model value to JSON"""
    def ev(x): return model.eval(x, model_completion=True)
    if isinstance(t, NoneT): return None
    if isinstance(t, FnT): raise Unsupported("fn")
    if isinstance(v, UVal):
        for g, x in v.alts:
            if z3.is_true(ev(g)): return to_json(e, model, x, t.t if isinstance(t, OptT) and x is not None else (N if x is None else t))
        raise Unsupported("uval")
    if v is None: return None
    if isinstance(t, OptT): return to_json(e, model, v, t.t)
    if isinstance(t, (IntT, BoolT, StrT)):
        return norm(ev(v)) if is_z(v) else v
    if isinstance(t, RealT):
        x = ev(v); return float(x.as_fraction()) if is_z(v) else v
    if isinstance(t, AnyT): return str(ev(v))
    if isinstance(t, TupT): return {"$t": [to_json(e, model, x, y) for x, y in zip(v, t.ts)]}
    if isinstance(t, ListT):
        n = norm(ev(e.zi(v.n))) if not v.concrete else len(v.items)
        if n > 40: raise Unsupported("long list")
        s = sort_of(t.t)
        return [to_json_z(e, model, z3.Select(v.arr, i + e.zi(v.off)), t.t) for i in range(n)]
    if isinstance(t, RecT): return to_json_z(e, model, v.rec[1], t)
    raise Unsupported("model value")


def to_json_z(e, model, x, t):
    def ev(y): return model.eval(y, model_completion=True)
    x = ev(x)
    s = sort_of(t)
    if isinstance(t, NoneT): return None
    if isinstance(t, OptT):
        if z3.is_true(ev(s.is_none(x))): return None
        return to_json_z(e, model, s.val(x), t.t)
    if isinstance(t, (IntT, BoolT, StrT)): return norm(x)
    if isinstance(t, RealT): return float(x.as_fraction())
    if isinstance(t, AnyT): return str(x)
    if isinstance(t, TupT): return {"$t": [to_json_z(e, model, getattr(s, "f%d" % i)(x), y) for i, y in enumerate(t.ts)]}
    if isinstance(t, ListT):
        n = norm(ev(s.len(x)))
        if n > 40: raise Unsupported("long list")
        return [to_json_z(e, model, z3.Select(s.arr(x), i), t.t) for i in range(n)]
    if isinstance(t, RecT):
        return {"$r": t.ref, "args": {n: to_json_z(e, model, getattr(s, n)(x), ft) for n, ft in t.fields.items()}}
    if isinstance(t, DictT):
        # finite map: peel stores
        out = []
        while True:
            if z3.is_store(x):
                a, k, v = x.children()
                out.append((k, v)); x = a
            elif z3.is_const_array(x): break
            else: raise Unsupported("dict model")
        d = []
        seen = set()
        so = sort_of(OptT(t.v))
        for k, v in out:
            kj = to_json_z(e, model, k, t.k)
            if str(kj) in seen: continue
            seen.add(str(kj))
            if z3.is_true(ev(so.is_none(v))): continue
            d.append([kj, to_json_z(e, model, so.val(v), t.v)])
        return {"$d": d}
    raise Unsupported("model value")


def verify_property(prop, root="/repo", timeout=10000, budget=120, debug=False, only=None):
    path = os.path.join(VERIF, "specs", prop.lower() + ".py")
    lemmas, ns = load_types(path)
    e = Engine(root, timeout=timeout, debug=debug)
    install(e)
    for v in ns.values():
        if isinstance(v, RecT): e.record(v)
    e.templates = list(templates.GENERIC)
    hook = os.path.join(VERIF, "specs", prop.lower() + "_prover.py")
    if os.path.exists(hook):
        spec = importlib.util.spec_from_file_location("prover_" + prop, hook)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        m.setup(e)
    cs = contracts_of(prop)
    e.used_contracts = set()
    out, fits = [], []
    for name, types, kw in cs:
        try:
            f = e.resolve(kw["qual"])
            if hasattr(f, "fn"): f = f.fn
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][-len(types):]
            why = None if ps == list(types) else "parameters are now %s" % ps
        except Unsupported as u: why = str(u)
        if why is None:
            use_contract(e, name, types, kw); fits.append((name, types, kw))
        elif not only or "contract_" + name in only:
            r = LemmaResult("contract_" + name); r.unsupported = "the contract does not apply to this tree: " + why; out.append(r)
    cs = fits
    for name, p, types, kw in lemmas + [("contract_" + n, prop, t, kw) for n, t, kw in cs]:
        if p != prop or kw.get("prove") is False: continue
        if only and name not in only: continue
        e.timeout = kw.get("timeout") or timeout
        try:
            fn = ContractProof(e, name[len("contract_"):], types, kw) if "qual" in kw else e.resolve("specs.%s:%s" % (prop.lower(), name))
        except Unsupported as u:
            r = LemmaResult(name); r.unsupported = str(u); out.append(r); continue
        if debug: print("== lemma", name, flush=True)
        r = run_lemma(e, fn, name, types, budget)
        r.note = kw.get("note")
        out.append(r)
        if debug: print("   -> paths=%d obligations=%d failed=%d unsupported=%s cover=%s %.1fs" % (r.paths, len(r.obligations), len(r.failed), r.unsupported, r.cover, r.time), flush=True)
    return e, out


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--only", nargs="*"); ap.add_argument("--root", default="/repo")
    ap.add_argument("--timeout", type=int, default=10000); ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("-q", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    e, out = verify_property(a.prop, a.root, a.timeout, a.budget, debug=0 if a.q else (2 if a.v else 1), only=a.only)
    for r in out:
        for ob in r.failed:
            print("FAILED", r.name, ob.name, ob.status, getattr(ob, "args", None))
            for h in ob.hyps[-25:]: print("     H", str(h)[:300].replace("\n", " "))
            print("     G", str(ob.goal)[:600].replace("\n"," "))
