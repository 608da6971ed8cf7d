"""Loop rule: havoc what the body writes, assume the invariant, check it is preserved.

Invariants come from the loop body itself (first-exit, append/counter closed forms) and from
candidate templates; template candidates are kept only if they hold on entry and are inductive
(Houdini).  Nothing is assumed that was not checked."""
import ast
import z3
from .values import *
from .engine import (Scope, UNDEF, RET, BRK, CONT, conj, disj, zb, znot, consts_of, has_quant, Impure, Restart)


class LoopInfo:
    pass


def key_of(cell, key): return (cell.birth, key)


def read(cell, key):
    if isinstance(cell, Scope): return cell.vars.get(key, UNDEF)
    if isinstance(cell, Obj): return cell.attrs.get(key, UNDEF)
    return cell


def write(e, cell, key, v):
    if isinstance(cell, Scope): e.scope_set(cell, key, v)
    elif isinstance(cell, Obj): e.setattr_(cell, key, v)
    else: raise Unsupported("loop write")


def snap_value(e, v):
    """immutable picture of a value (for comparing before/after)"""
    if isinstance(v, PList): return e.snapshot(v)
    if isinstance(v, PDict):
        d = PDict(items=list(v.items) if v.concrete else None, map=v.map, kt=v.kt, vt=v.vt)
        return d
    return v


def unknown(t):
    if isinstance(t, ListT): return t.t is None or unknown(t.t)
    if isinstance(t, DictT): return t.k is None or t.v is None or unknown(t.k) or unknown(t.v)
    if isinstance(t, OptT): return unknown(t.t)
    if isinstance(t, TupT): return any(unknown(x) for x in t.ts)
    return False


def stored_key(m0, m):
    """the one key at which m differs from m0: None if none, UNDEF if it is not of this form"""
    m = z3.simplify(m)
    key = None
    while z3.is_store(m):
        a, i, v = m.children()
        if key is not None and not key.eq(i): return UNDEF
        if v.decl().name() != "some": return UNDEF
        key, m = i, a
    return key if m.eq(m0) else UNDEF


def sym_loop(e, st, fr, seq):
    e.check_deadline()
    is_for = seq is not None
    found = [nd for nd in e.stack if not e.no_merge[id(nd)][1]]
    if found:
        for nd in found: e.no_merge[id(nd)] = (nd, True)
        raise Restart()
    if (e.dry or e.loop_depth) and e.ruled_out(): raise PathEnd()
    if is_for:
        src = e.snapshot(seq)
        n = e.zi(src.n)
    k = e.fresh(z3.IntSort(), "k")     # iteration number
    k_name = None

    mod = {}          # (birth, key) -> (cell, key)
    types = {}        # (birth, key) -> type or None (undefined) or "same"

    def run_iteration(kk):
        """one iteration; returns the control signal"""
        e.loop_depth += 1
        try: return run_iteration_(kk)
        finally: e.loop_depth -= 1

    def run_iteration_(kk):
        if is_for:
            e.assume(z3.And(0 <= kk, kk < n))
            for h in e.rec_hooks: h(kk)
            e.assign(st.target, e.list_get_raw(src, kk), fr)
        else:
            e.assume(kk >= 0)
            for h in e.rec_hooks: h(kk)
            if not e.branch(e.truth(e.eval(st.test, fr))): raise PathEnd()
        return e.exec_block(st.body, fr)

    havoc_names = set()

    def havoc():
        """replace everything the loop modifies by arbitrary values of the right type"""
        for kk, (cell, key) in mod.items():
            t = types[kk]
            if unknown(t):
                if e.dry and typing: continue      # an empty container so far: the types of its elements are not known yet
                raise Unsupported("container of unknown element type in loop")
            if isinstance(cell, (Scope, Obj)):
                if t is UNDEF:
                    if isinstance(cell, Scope):
                        e.scope_set(cell, key, UNDEF)
                    else: raise Unsupported("undefined attribute in loop")
                    continue
                if t == "same": continue
                m0 = e.fresh_n
                v = e.fresh_val(t, "h_" + str(key))
                note(m0)
                write(e, cell, key, v)
            elif isinstance(cell, PList):
                e.list_write(cell)
                m0 = e.fresh_n
                v = e.fresh_val(t, "h_list")
                note(m0)
                cell.items, cell.n, cell.arr, cell.off, cell.etype, cell.get_ = v.items, v.n, v.arr, v.off, v.etype, v.get_
            elif isinstance(cell, PDict):
                e.dict_write(cell)
                m0 = e.fresh_n
                v = e.fresh_val(t, "h_dict")
                note(m0)
                cell.items, cell.map, cell.kt, cell.vt = v.items, v.map, v.kt, v.vt
            else:
                raise Unsupported("loop modifies a %s" % type(cell).__name__)

    def note(m0):
        for i in range(m0 + 1, e.fresh_n + 1): havoc_names.add(i)

    init = {}

    def type_of_state(v):
        if v is UNDEF: return None
        return e.typeof(v)

    # ---- 1. which state does the body write, and with which types
    entry_birth = e.birth
    typing = True
    for rounds in range(12):
        e.dry += 1
        e.typing += 1
        try:
            res = {}

            def dry():
                havoc_names.clear()
                havoc()
                kk = e.fresh(z3.IntSort(), "kd")
                e.bound.append(kk)
                try:
                    def body():
                        sig = run_iteration(kk)
                        posts = {}
                        for q, (cell, key) in mod.items():
                            posts[q] = snap_value(e, read(cell, key))
                        tys = {}
                        for cell, key in e.regions[-1].writes:
                            if cell.birth <= entry_birth:
                                v = read(cell, key)
                                tys[key_of(cell, key)] = (cell, key, state_type(v))
                        for q, (cell, key) in mod.items():
                            if q not in tys and types[q] is not UNDEF: tys[q] = (cell, key, state_type(read(cell, key)))
                        return (sig, posts, tys)

                    def state_type(v):
                        if v is UNDEF: return UNDEF
                        if isinstance(v, (PList, PDict)) and v.birth <= entry_birth and False: return None
                        try:
                            return e.typeof(v)
                        except Unsupported as u:
                            return ("bad", str(u), v)
                    pres = {q: snap_value(e, read(c, kx)) for q, (c, kx) in mod.items()}
                    outs = e.explore(body, "track")
                finally:
                    e.bound.pop()
                return kk, outs, pres
            (kk, outs, pres), reg = e.sandbox(dry)
        finally:
            e.dry -= 1
            e.typing -= 1
        new = False
        for o in outs:
            for cell, key in o.writes:
                if cell.birth <= entry_birth:
                    q = key_of(cell, key)
                    if q not in mod:
                        mod[q] = (cell, key)
                        init[q] = snap_value(e, read(cell, key))
                        v = read(cell, key)
                        if v is UNDEF: types[q] = UNDEF
                        else:
                            try: types[q] = e.typeof(v)
                            except Unsupported as u: types[q] = ("bad", str(u), v)
                        new = True
        # join in the types after a normal iteration
        for o in outs:
            if o.kind != "ok": continue
            sig, posts, tys = o.value
            if sig is not None and sig[0] in (RET, BRK): continue
            for q, (cell, key, t) in tys.items():
                if q not in mod: continue
                old = types[q]
                if old is UNDEF: continue
                if isinstance(t, tuple) or isinstance(old, tuple):
                    a = old[2] if isinstance(old, tuple) else None
                    b = t[2] if isinstance(t, tuple) else None
                    if a is not None and a is b: nt = old
                    else: raise Unsupported("loop variable %s: %s" % (key, (t if isinstance(t, tuple) else old)[1]))
                else:
                    nt = old if t is UNDEF else e.join(old, t)
                if nt != old: types[q] = nt; new = True
        if not new: break
    else:
        raise Unsupported("loop state does not stabilise")
    for q in list(types):
        if isinstance(types[q], tuple): types[q] = "same"
        elif isinstance(types[q], ListT) and types[q].t is None: raise Unsupported("list of unknown element type in loop")
        elif isinstance(types[q], DictT) and (types[q].k is None or types[q].v is None): raise Unsupported("dict of unknown type in loop")

    typing = False
    # ---- 2. closed forms derived from the body (valid by construction)
    normal = [o for o in outs if o.kind == "ok" and (o.value[0] is None or o.value[0][0] == CONT)]
    exits = [o for o in outs if o not in normal]
    hnames = set(havoc_names)
    kd_name = kk.decl().name()

    def clean(x, allow_bound=True):
        """does not depend on the havocked state"""
        for nm in consts_of(x):
            if "!" in nm:
                try: i = int(nm.rsplit("!", 1)[1])
                except ValueError: continue
                if i in hnames: return False
        return True

    def at(x, idx): return z3.substitute(x, (kk, idx))
    derived = []      # list of (name, fn(k) -> z3 bool)
    lifted = []
    nm_q = z3.Int("q_l%d" % e.nq())
    rngq = lambda hi: z3.And(0 <= nm_q, nm_q < hi)
    shift = z3.simplify(e.zi(src.off)) if is_for and src.off is not None else z3.IntVal(0)

    def every(hi, x):
        """x at every iteration before hi; over a slice the quantifier ranges over positions of the underlying array"""
        if z3.is_int_value(shift) and shift.as_long() == 0: return z3.ForAll([nm_q], z3.Implies(rngq(hi), at(x, nm_q)))
        return z3.ForAll([nm_q], z3.Implies(z3.And(shift <= nm_q, nm_q < shift + hi), z3.simplify(at(x, nm_q - shift))))
    # facts about body-local symbols, closed over the iteration number
    useful = set()
    pending = []
    for o in outs:
        g = conj(o.guards)
        for f in o.facts:
            if kd_name in consts_of(f) and clean(f) and clean(g) and is_for: pending.append((g, f))
    ex = disj([conj(o.guards) for o in exits]) if exits else None
    def local(x):
        """symbols introduced by the body"""
        r = set()
        for nm in consts_of(x):
            if "!" in nm:
                try: i = int(nm.rsplit("!", 1)[1])
                except ValueError: continue
                if i > kd_num and nm != kd_name: r.add(nm)
        return r
    kd_num = int(kd_name.rsplit("!", 1)[1])
    if exits and all(clean(g) for o in exits for g in o.guards) and all(clean(g) for o in normal for g in o.guards):
        nx = disj([conj(o.guards) for o in normal])
        useful |= local(nx)
        derived.append(("no earlier exit", lambda kx: every(kx, z3.simplify(nx))))
    if normal:
        guards = [conj(o.guards) for o in normal]
        for q, (cell, key) in mod.items():
            pre = pres[q]
            posts = [o.value[1][q] for o in normal]
            if isinstance(cell, PList) or isinstance(pre, PList) and all(isinstance(p, PList) for p in posts):
                # append closed form
                if pre is UNDEF or pre.concrete or pre.arr is None: continue
                ok, vals = True, []
                for p in posts:
                    if p.concrete or p.arr is None or not z3.is_store(p.arr): ok = False; break
                    a, i, v = p.arr.children()
                    if not a.eq(pre.arr) or not z3.simplify(i - (e.zi(pre.off) + e.zi(pre.n))).eq(z3.IntVal(0)) \
                            or not z3.simplify(e.zi(p.n) - e.zi(pre.n)).eq(z3.IntVal(1)):
                        ok = False; break
                    vals.append(v)
                if ok:
                    v = vals[-1]
                    for g, x in list(zip(guards, vals))[:-1][::-1]: v = z3.If(g, x, v)
                    in_ = init[q]
                    n0 = e.zi(e.length(in_))
                    t = types[q].t
                    derived.append(("append length", lambda kx, cell=cell, key=key, n0=n0: e.zi(read(cell, key).n) == n0 + kx))
                    if clean(v) and all(clean(g) for g in guards):
                        useful |= local(v)
                        def content(kx, cell=cell, key=key, v=v, n0=n0, in_=in_, t=t):
                            l = read(cell, key)
                            r = [z3.ForAll([nm_q], z3.Implies(z3.And(n0 <= nm_q, nm_q < n0 + kx),
                                                             l.arr[nm_q] == at(v, z3.simplify(nm_q - n0))), patterns=[l.arr[nm_q]])]
                            if not (in_.concrete and not in_.items):
                                _, a0, o0 = e.list_repr(in_, t)
                                r.append(z3.ForAll([nm_q], z3.Implies(z3.And(0 <= nm_q, nm_q < n0), l.arr[nm_q] == a0[z3.simplify(e.zi(o0) + nm_q)])))
                            return conj(r)
                        derived.append(("append content", content))
                continue
            if isinstance(cell, PDict) and isinstance(pre, PDict) and not pre.concrete and all(isinstance(p, PDict) and not p.concrete for p in posts):
                # the keys written by the iterations
                wrote = [stored_key(pre.map, p.map) for p in posts]
                if any(w is UNDEF for w in wrote) or all(w is None for w in wrote): continue
                if not all(w is None or clean(w) for w in wrote): continue
                # which key is written is decided by guards that do not depend on the state
                groups = []
                for o, w in zip(normal, wrote):
                    g = conj([x for x in o.guards if clean(x)])
                    for gr in groups:
                        if gr[1] is w or gr[1] is not None and w is not None and gr[1].eq(w): gr[0].append(g); break
                    else: groups.append(([g], w))
                groups = [(z3.simplify(disj(gs)), w) for gs, w in groups]
                if len(groups) == 1: groups = [(z3.BoolVal(True), groups[0][1])]
                if not all(e.entails([], z3.Not(z3.And(g, h)), 1000) for i, (g, _) in enumerate(groups) for h, _ in groups[:i]): continue
                sets = [(g, w) for g, w in groups if w is not None]
                for g, w in sets: useful |= local(w) | local(g)
                def keys(kx, cell=cell, sets=sets, t=types[q], in_=init[q]):
                    mp, so = cell.map, sort_of(OptT(t.v))
                    m0 = e.dict_map(in_, t)
                    e.fresh_n += 1
                    snap = list(e.bound)
                    wit = z3.Function("wit!%d" % e.fresh_n, *[b.sort() for b in snap], sort_of(t.k), z3.IntSort())
                    K = z3.Const("q_dk%d" % e.fresh_n, sort_of(t.k))
                    w = wit(*snap, K)
                    put = [(g, z3.Not(so.is_none(mp[key]))) for g, key in sets]
                    r = [every(kx, z3.Implies(g, x)) for g, x in put]
                    for g, x in put: r += [z3.Implies(z3.And(kx > 0, at(g, j)), at(x, j)) for j in (z3.IntVal(0), z3.simplify(kx - 1))]
                    r.append(z3.ForAll([K], z3.Implies(z3.And(z3.Not(so.is_none(mp[K])), so.is_none(m0[K])),
                             z3.And(0 <= w, w < kx, disj([z3.And(at(g, w), at(key, w) == K) for g, key in sets]))), patterns=[mp[K]]))
                    if not (in_.concrete and not in_.items):
                        r.append(z3.ForAll([K], z3.Implies(z3.Not(so.is_none(m0[K])), z3.Not(so.is_none(mp[K]))), patterns=[mp[K]]))
                    return conj(r)
                derived.append(("keys of a dictionary that is only added to", keys))
                continue
            if isinstance(pre, z3.ArithRef) and all(isinstance(p, (z3.ArithRef, int)) for p in posts) and pre.is_int():
                ds = [z3.simplify(e.zi(p) - pre) for p in posts]
                if all(d.eq(ds[0]) for d in ds) and z3.is_int_value(ds[0]):
                    i0 = e.zi(init[q])
                    derived.append(("counter", lambda kx, cell=cell, key=key, d=ds[0], i0=i0: e.zi(read(cell, key)) == i0 + d * kx))

    # of the facts about the body only those about symbols of the derived forms are of use
    while True:
        rest = []
        for g, f in pending:
            l = local(f)
            if not l or l & useful: lifted.append(every(n, z3.Implies(g, f))); useful |= l
            else: rest.append((g, f))
        if len(rest) == len(pending): break
        pending = rest

    # ---- 3. candidate templates (Houdini)
    info = LoopInfo()
    info.e, info.st, info.fr, info.mod, info.init, info.types = e, st, fr, mod, init, types
    info.seq = src if is_for else None
    info.n = n if is_for else None
    info.read = read
    info.held = {q: (read(c, kx) if isinstance(c, (Scope, Obj)) else None) for q, (c, kx) in mod.items()}
    info.func = fr.func.qual if fr.func else "?"
    info.depth = e.loop_depth
    cands = []
    for tpl in (e.templates if not e.typing else []): cands.extend(tpl(info) or [])
    ckey = None
    if e.dry == 0:
        e.loop_n += 1
        ckey = (tuple(tuple(map(str, r.dec[:r.pos])) for r in e.regions), id(st), e.loop_n)
    cached = e.loop_cache.get(ckey) if ckey is not None else None
    for f in lifted: e.assume(f)

    def assume_state(kx, cs):
        e.assume(0 <= kx)
        if is_for: e.assume(kx <= n)
        for nm, fn in derived: e.assume(zb(fn(kx)))
        for nm, fn in cs:
            x = fn(kx)
            if x is not None: e.assume(zb(x))

    if cached is not None:
        cands = [(nm, fn) for nm, fn in cands if nm in cached]
    elif cands:
        # entry
        kept = []
        for nm, fn in cands:
            try:
                x = fn(z3.IntVal(0))
            except (Unsupported, PyRaise):
                continue
            if x is not None and e.entails([h for _, h in e.pc], zb(x)): kept.append((nm, fn))
            elif e.debug > 1: print("      candidate fails on entry:", nm, x)
        cands = kept
        if e.debug > 2: print("      state:", [(str(k), repr(types[q])) for q, (c, k) in mod.items()], len(outs), [o.kind for o in outs], e.entails([h for _, h in e.pc], z3.BoolVal(False)))
        if e.debug > 1: print("      %s line %d depth %d: %d candidates hold on entry" % (info.func, st.lineno, e.dry, len(cands)), flush=True)
        while cands:
            e.dry += 1
            bad = set()
            try:
                def trial():
                    havoc()
                    kx = e.fresh(z3.IntSort(), "kh")
                    assume_state(kx, cands)

                    def body():
                        sig = run_iteration(kx)
                        if sig is not None and sig[0] != CONT: raise PathEnd()
                        hy = [h for _, h in e.pc]
                        for nm, fn in cands:
                            if nm in bad: continue
                            e.hints_on = True
                            try:
                                x = fn(z3.simplify(kx + 1))
                            except (Unsupported, PyRaise):
                                bad.add(nm); continue
                            finally:
                                e.hints_on = False
                            hy2 = [h for _, h in e.pc]
                            if x is None or not e.entails(hy2, zb(x)):
                                bad.add(nm)
                                if e.debug > 3: e.dump(hy2, zb(x), nm)
                    for o in e.explore(body, "track"): pass
                e.sandbox(trial)
            finally:
                e.dry -= 1
            if not bad: break
            if e.debug > 1: print("      not inductive:", bad, "kept", [nm for nm, _ in cands if nm not in bad], flush=True)
            cands = [(nm, fn) for nm, fn in cands if nm not in bad]
    if ckey is not None: e.loop_cache[ckey] = {nm for nm, _ in cands}
    for nm, _ in cands: e.invariants_used.add("%s: %s" % (info.func, nm))
    for nm, _ in derived: e.invariants_used.add("%s: %s" % (info.func, nm))

    # ---- 4. the loop
    havoc()
    early = e.fresh(z3.BoolSort(), "inloop")
    def leaves():
        """an iteration that leaves the loop, on a path the hypotheses do not rule out"""
        def one():
            e.assume(early)
            assume_state(k, cands)
            sig = run_iteration(k)
            if sig is None or sig[0] == CONT or e.entails([h for _, h in e.pc], z3.BoolVal(False), 600): raise PathEnd()
        return bool(e.explore(one, "track"))
    site = (info.func, st.lineno, tuple(nd.lineno for nd in e.stack))
    if is_for:
        if e.choose(early, site, leaves):
            assume_state(k, cands)
            sig = run_iteration(k)
            if sig is None or sig[0] == CONT: raise PathEnd()
            if sig[0] == BRK: return None
            return sig
        assume_state(n, cands)
        if not (isinstance(src.n, int)): pass
        restore_unbound(e, st, fr)
        return e.exec_block(st.orelse, fr)
    if e.choose(early, site, leaves):
        assume_state(k, cands)
        sig = run_iteration(k)
        if sig is None or sig[0] == CONT: raise PathEnd()
        if sig[0] == BRK: return None
        return sig
    assume_state(k, cands)
    if e.branch(e.truth(e.eval(st.test, fr))): raise PathEnd()
    return e.exec_block(st.orelse, fr)


def restore_unbound(e, st, fr): pass
