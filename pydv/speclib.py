"""Specification vocabulary.

The same lemma text is used twice: the prover interprets it symbolically together with the
repository code it calls, and the run-time contract checker executes it on concrete values
against the imported repository code.  `ensure`, `assume`, `forall` and `exists` are replaced by
the prover (pydv/verify.py); everything else here is interpreted like any other Python."""


class ContractViolation(Exception):
    pass


class Skip(Exception):
    """the precondition of the lemma does not hold for this input"""


LEMMAS = []
COUNT = [0, {}]


def lemma(prop, gen=None, n=None, rt=True, prove=True, note=None, timeout=None, level=None, **types):
    def deco(f):
        LEMMAS.append({"prop": prop, "fn": f, "types": types, "gen": gen, "n": n, "rt": rt, "prove": prove, "note": note})
        return f
    return deco


def ensure(cond, name="postcondition"):
    COUNT[0] += 1
    COUNT[1][name] = COUNT[1].get(name, 0) + 1
    if not cond: raise ContractViolation(name)


def assume(cond):
    if not cond: raise Skip()


def forall(lo, hi, fn):
    for i in range(lo, hi):
        if not fn(i): return False
    return True


def every_name(names, fn):
    """fn holds of every string (at run time: of the given ones)"""
    for x in names:
        if not fn(x): return False
    return True


def exists(lo, hi, fn):
    for i in range(lo, hi):
        if fn(i): return True
    return False


def invariant(fn, **kinds):
    """a candidate invariant fn(k, *slots) of the loops executed from here on; slots range over the state the loop
    modifies (of the given kinds); depth=0: only of outermost loops, depth=1: of loops inside a loop"""


def primrec(base, step):
    """the function g with g(0) = base and g(k + 1) = step(k, g(k))"""
    memo = [base]

    def g(k):
        while len(memo) <= k: memo.append(step(len(memo) - 1, memo[-1]))
        return memo[k]
    return g


def unfold(g, k):
    """instantiate the defining equation of a primrec function at k"""


def induct(lo, hi, fn, name):
    """fn holds on [lo, hi), by induction"""
    for i in range(lo, hi): ensure(fn(i), name)


def hint(fn):
    """a proof step: executed by the prover only"""


def cases(c):
    """prover only: the proof is split in the cases c and not c"""


def chunk_offset(seq, i):
    """prover only: the position of the i-th part of a concatenation"""


def implies(a, b):
    """b may be a parameterless function, evaluated only if a holds"""
    return (not a) or (b() if callable(b) else b)


def iff(a, b):
    return bool(a) == bool(b)


class Attempt:
    def __init__(self, ok, value, error):
        self.ok = ok
        self.value = value
        self.error = error

    def refused(self):
        return (not self.ok) and self.error == "ValueError"


def attempt(fn):
    try:
        v = fn()
    except ValueError:
        return Attempt(False, None, "ValueError")
    except Exception:
        return Attempt(False, None, "other")
    return Attempt(True, v, None)


def identical(a, b):
    """the same content, field by field (also where == ignores a field)"""
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if hasattr(a, "__dict__") and not callable(a): return identical(vars(a), vars(b))
    return a == b


def result_of(name, *args):
    """the result of a function under contract (for arguments it does not refuse)"""
    c = next(c for c in CONTRACTS if c["fn"].__name__ == name)
    return function_of(c["qual"])(*args)


# ------------------------------------------------------------------ contracts of single functions
# A contract is a function of the result and the arguments.  refuse(c): the function raises ValueError exactly when c;
# require(c): precondition; promise(c): postcondition.  The verifier proves the contract against the body of the function
# and uses it instead of the body in the lemmas of the properties it is declared for.
CONTRACTS = []
_MODE = []


def contract(qual, props=(), returns=None, gen=None, **types):
    def deco(f):
        CONTRACTS.append({"qual": qual, "props": props, "returns": returns, "fn": f, "types": types, "gen": gen})
        return f
    return deco


class _End(Exception):
    pass


def require(cond):
    if not cond: raise Skip()


def refuse(cond):
    ok, error = _MODE[-1]
    ensure(ok == (not cond), "refuses exactly when it should")
    if not ok:
        ensure(error == "ValueError", "refuses with ValueError")
        raise _End()


def promise(cond, name="postcondition"):
    ensure(_MODE[-1][0], "no unexpected exception")
    ensure(cond, name)


def function_of(qual):
    import importlib
    mod, _, path = qual.partition(":")
    f = importlib.import_module(mod)
    owner = None
    for x in path.split("."):
        owner, f = f, getattr(f, ("_%s%s" % (f.__name__.lstrip("_"), x)) if isinstance(f, type) and x.startswith("__") and not x.endswith("__") else x)
    return f


def contract_lemma(c):
    f = function_of(c["qual"])

    def run(**args):
        r = attempt(lambda: f(**args))
        _MODE.append((r.ok, r.error))
        try: c["fn"](r.value, **args)
        except _End: pass
        finally: _MODE.pop()
    run.__name__ = "contract_" + c["fn"].__name__
    return {"prop": None, "fn": run, "types": c["types"], "gen": c["gen"], "n": None, "rt": True, "prove": True, "note": None}
