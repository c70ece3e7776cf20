"""Contract layer.  A contract module registers contracts with @contract; each
builds symbolic inputs (precondition), runs the real function's AST, and states
obligations on every path (postcondition)."""
import sys
import time
import traceback
import z3
from . import terms as T
from .terms import Unsupported, is_z3, conc_of, arith, cmp, land, lor, lnot, ite
from .state import *          # noqa
from . import state as S
from . import npmodel as N
from .npmodel import PyRaise
from .prover import Prover
from .pyint import Interp, Bound, Func, Cls, Infeasible

REG = []


class Contract:
    def __init__(self, fns, fn, name, thorough, module, bounded):
        self.fns, self.fn, self.name, self.thorough, self.module, self.bounded = fns, fn, name, thorough, module, bounded


def contract(*fns, thorough=False, bounded=False):
    """bounded: the contract holds for a bounded size of something (stated in the module's BOUNDED list); its obligations are
    reported apart and never counted as proved"""
    mod = sys._getframe(1).f_globals["__name__"]

    def deco(f):
        if any(c.fn is f for c in REG):
            return f
        REG.append(Contract(fns, f, f.__name__, thorough, mod, bounded))
        return f
    return deco


class V:
    """one contract run"""
    def __init__(self, repo, seed, tier, name):
        self.P = Prover(seed)
        self.I = Interp(repo, self.P)
        self.repo, self.tier, self.name = repo, tier, name
        self.paths = 0
        self.retpaths = 0
        self.assumptions = []
        self.unsupported = []
        self.own_stubs, self.used_stubs = {}, set()     # contracts standing in for the repository's own functions

    # -- symbols
    def int(self, name, lo=None, hi=None):
        c = z3.Int(name)
        if lo is not None:
            self.I.assume(c >= lo)
        if hi is not None:
            self.I.assume(c <= hi)
        return c

    def real(self, name, *conds):
        return z3.Real(name)

    def bool(self, name):
        return z3.Bool(name)

    def arr(self, name, shape, kind="real"):
        return S.sym_nd(name, shape, kind)

    def idx(self, name, n):
        """generic index 0 <= i < n (a universally quantified position)"""
        c = T.fresh(name, T.I)
        self.I.assume(c >= 0, cmp("<", c, n))
        return c

    def forall(self, shape, fn):
        """assume a quantified fact over array positions"""
        vs = [T.fresh("fa", T.I) for _ in shape]
        b = fn(*vs)
        rng = land(*[land(v >= 0, cmp("<", v, s)) for v, s in zip(vs, shape)])
        return z3.ForAll(vs, z3.Implies(T.to_bool(rng), T.to_bool(b)))

    def assume(self, *c):
        self.I.assume(*c)

    def note(self, s):
        self.assumptions.append(s)

    def obj(self, cls, **attrs):
        c = self.I.resolve(cls) if isinstance(cls, str) else cls
        o = S.Obj(c, getattr(c, "name", "obj"), **attrs)
        o.partial = True
        return o

    def method(self, o, k):
        return self.I.getattr(o, k)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.I.resolve(f)
        return self.I.call(f, list(a), k)

    def stub(self, qual, fn, optional=False):
        """callee replaced by its contract at call sites.  A contract of one of the repository's own functions that is
        never reached means the code is composed differently (the callee inlined, split or renamed): the specification,
        phrased over that callee, then decides nothing, and a refutation is reported as undecided (run_contract)."""
        own = qual.startswith(("kernel:", "forcepho.")) and not optional
        key = getattr(fn, "__code__", fn)
        if own:
            self.own_stubs.setdefault(key, set()).add(qual)

        def wrapped(*a, **k):
            self.used_stubs.add(key)
            return fn(*a, **k)
        self.I.contracts[qual.replace(":", ".")] = wrapped if own else fn

    # -- running
    def run(self, thunk, ensure, raises=None, name=None):
        nm = name or self.name

        def end(kind, v):
            self.paths += 1
            if kind == "raise":
                if raises is not None:
                    raises(v)
                else:
                    self.I.oblige(f"{nm}.no-exception[{v.etype}:{v.msg[:40]}]", False)
                return
            self.retpaths += 1
            ensure(v)
            # vacuity guard: the assumptions under which the obligations were proved must not be contradictory
            if not self.prover_feasible():
                self.vacuous += 1
        n0 = self.paths
        self.I.explore(thunk, end)
        if self.paths == n0:
            raise Unsupported("no feasible path")

    vacuous = 0

    def prover_feasible(self):
        try:
            return self.P.feasible(self.I.hyps())
        except z3.Z3Exception:
            return True

    def ob(self, name, goal, hints=None):
        return self.I.oblige(f"{self.name}.{name}", goal, hints)

    def soft(self, name, cond):
        """an obligation about the identity of objects: a copy would do as well, so its failure decides nothing"""
        if cond is not True:
            raise Unsupported("not the same object: " + name)
        return self.ob(name, True)

    def eq(self, name, a, b, hints=None):
        if is_z3(a) or is_z3(b):
            g = cmp("==", a, b)
        else:
            g = a == b
        return self.ob(name, g, hints)

    def inv(self, name, a, b=True):
        """part of a loop invariant, written in terms of the code's own variables: established or undecided (code that keeps another
        invariant may be right as well)"""
        g = (cmp("==", a, b) if is_z3(a) or is_z3(b) else a == b) if b is not True else a
        if not is_z3(g):
            if g is not True:
                raise Unsupported("not established: " + name)
            return self.ob(name, g)
        ob = self.P.prove(f"{self.name}.{name}", g, self.I.hyps())
        if ob.status != "proved":
            raise Unsupported("not established: " + name)
        self.I.obs.append(ob)
        return ob

    def eq_gen(self, name, a, b, fun="sqrt"):
        """a == b with every application of `fun` generalised to an arbitrary value (stronger than a == b)"""
        sub = []
        for t in (a, b):
            for x in T.fun_apps(t, fun):
                if not any(x.eq(y) for y, _ in sub):
                    sub.append((x, T.fresh("gen", T.R)))
        if sub:
            a, b = z3.substitute(a, *sub), z3.substitute(b, *sub)
        return self.eq(name, a, b)

    def sqrt_to(self, a, target):
        """a with sqrt(x) replaced by sqrt(target), or 1/sqrt(target), wherever x == target, or x*target == 1, is proved"""
        sub = []
        for x in T.fun_apps(a, "sqrt"):
            for val, g in ((1 / T.sqrt(target), x.arg(0) == 1 / target), (T.sqrt(target), x.arg(0) == target)):
                if self.P.prove("rewrite", g, self.I.hyps()).status == "proved":
                    sub.append((x, val))
                    break
        return z3.substitute(a, *sub) if sub else a

    def lemma(self, goal, *hyps):
        """prove goal from hyps alone, then use it (as hyps -> goal)"""
        g = z3.Implies(z3.And(*[T.to_bool(h) for h in hyps]), T.to_bool(goal)) if hyps else T.to_bool(goal)
        ob = self.P.prove(f"{self.name}.lemma", g, [])
        self.I.obs.append(ob)
        if ob.status == "proved":
            self.I.assume(g)

    def lemma_divmod(self, q, m, r):
        t = q * m + r
        self.lemma(z3.And(t / m == q, t % m == r), q >= 0, r >= 0, r < m, m >= 1)

    def sorts(self):
        """ghost: the argsorts performed on this path"""
        return [x[0] for x in self.I.extrema.values() if isinstance(x[0], N.Sort)]

    def touch(self, *idx):
        """make the Skolem terms at a position known to the solver (a trigger; asserts nothing)"""
        for E in self.I.extfuns:
            if E.arity() == len(idx):
                t = E(*idx)
                self.I.assume(z3.Function("$touch", t.sort(), z3.BoolSort())(t))
        if len(idx) == 1:
            for fl, _ in self.I.filters.values():
                self.I.assume(z3.Function("$touch", T.I, z3.BoolSort())(fl.rank(T.to_int(idx[0]))))

    def extrema_at(self, i):
        """the defining inequality of every minimum and maximum taken, at position i"""
        for t in list(self.I.extrema.values()):
            if len(t) == 5:
                m, x, q, n, op = t
                e = z3.substitute(x, (q, T.to_int(i)))
                self.I.fact(z3.Implies(z3.And(i >= 0, i < n), e <= m if op == "max" else e >= m))

    def rank_of(self, cnt):
        """ghost: the rank function of the selection with cnt elements (position -> place in the selection), or None"""
        for fl, _ in self.I.filters.values():
            if is_z3(cnt) and fl.cnt.eq(cnt):
                return fl.rank
        return None

    def is_shape(self, name, v, shape):
        if not isinstance(v, (S.Nd, S.Rec)):
            if len(shape) == 0 and N.is_scalar(v):
                return self.ob(name, True)
            return self.ob(name, False)
        if v.ndim != len(shape):
            return self.ob(name, False)
        return self.ob(name, land(*[cmp("==", a, b) for a, b in zip(v.shape, shape)]) if shape else True)

    # expressions
    exp, log, sqrt, sin, cos = staticmethod(T.exp), staticmethod(T.log), staticmethod(T.sqrt), staticmethod(T.sin), staticmethod(T.cos)

    def diff_at(self, e, leaf):
        """d e / d leaf where leaf is a term such as z(i) (treated as a variable)"""
        x = T.fresh("dx", T.R)
        e2 = z3.substitute(T.to_real(e), (leaf, x))
        d = T.diff(e2, x)
        if not is_z3(d):
            return d
        return z3.substitute(d, (x, leaf))


def run_contract(c, repo, seed, tier):
    t0 = time.time()
    v = V(repo, seed, tier, c.name)
    err = None
    mark = S.TR.mark()
    try:
        pre_ok = True
        c.fn(v)
    except Unsupported as e:
        err = f"unsupported: {e}"
    except Infeasible:
        err = "infeasible precondition"
    except PyRaise as e:
        err = f"modelled exception during set-up: {e}"
    except KeyError as e:
        err = f"missing name: {e}"
    except RecursionError:
        err = "recursion limit"
    except z3.Z3Exception as e:
        err = f"z3: {e}"
    except Exception as e:      # engine gap: never a violation
        err = "engine error: " + "".join(traceback.format_exception_only(type(e), e)).strip() + \
              " @ " + traceback.format_tb(e.__traceback__)[-1].strip().replace("\n", " ")
    S.TR.undo(mark)
    unused = sorted({q for k, qs in v.own_stubs.items() if k not in v.used_stubs for q in qs})
    for o in v.I.obs:
        if unused and o.status == "refuted":
            o.status, o.note = "unknown", "callee contract never reached: " + ", ".join(unused)
    obs = [o.as_dict() for o in v.I.obs]
    for o, d in zip(v.I.obs, obs):
        if o.status != "proved":
            d["goal"] = str(o.goal)[:1500]
            d["model"] = render_model(o.model)
    if err is None and v.vacuous:
        err = f"vacuous: assumptions contradictory on {v.vacuous} path(s)"
    if err is None and not obs:
        err = "no obligations generated"
    return {"contract": c.name, "bounded": c.bounded, "functions": list(c.fns), "obligations": obs, "error": err,
            "paths": v.paths, "unreached_stubs": unused, "loops": v.I.loops, "touched": {k: list(x) for k, x in v.I.touched.items()},
            "assumptions": v.assumptions + sorted(v.I.assumed) + sorted(v.P.definedness),
            "queries": v.P.queries, "solver_s": round(v.P.solver_time, 3), "wall_s": round(time.time() - t0, 2)}


def render_model(m):
    if m is None:
        return None
    if "z3model" in m:
        return str(m["z3model"])[:3000]
    if "env" in m:
        e = m["env"]
        return {"consts": {k: (v if isinstance(v, (int, float, bool)) else str(v)) for k, v in list(e.c.items())[:60]},
                "funs": {str(k): (v if isinstance(v, (int, float, bool)) else str(v)) for k, v in list(e.f.items())[:60]}}
    return str(m)[:1000]
