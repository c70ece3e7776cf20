"""Portfolio prover: z3, cvc5 and the algebraic back end.  Every obligation gets
a status: proved / refuted / unknown, the back end that decided it, and time."""
import random
import subprocess
import tempfile
import time
import os
import shutil
import z3
from . import terms as T
from .alg import Alg
from .lin import linearise

Z3_MS = int(os.environ.get("VE_Z3_MS", "8000"))
CVC5_S = int(os.environ.get("VE_CVC5_S", "8"))


class Ob:
    def __init__(self, name, goal, hyps, status, backend, secs, model=None, note=""):
        self.name, self.goal, self.hyps = name, goal, hyps
        self.status, self.backend, self.secs = status, backend, secs
        self.model, self.note = model, note

    def as_dict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend,
                "secs": round(self.secs, 3), **({"note": self.note} if self.note else {})}


def _has_q(t, memo={}):
    k = t.get_id()
    if k in memo and memo[k][1].eq(t):
        return memo[k][0]
    r, st, seen = False, [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    memo[k] = (r, t)
    return r


def int_choice(es, v):
    """condition (free of v) of an integer if-then-else inside the terms"""
    st, seen = list(es), set()
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE and z3.is_int(e) and not T.contains(e.arg(0), v):
            return e.arg(0)
        st.extend(e.children())
    return None


class Prover:
    def __init__(self, seed=1, hints=None):
        self.rng = random.Random(seed)
        self.hints = hints or {}
        self.definedness = set()
        self.queries = 0
        self.solver_time = 0.0
        self._sat_memo = {}

    # ------------------------------------------------------------ axioms
    def axioms(self, exprs):
        ax = []
        seen = set()
        todo = list(exprs)
        names = {}
        for e in todo:
            for n, ts in T.decls_of(e).items():
                names.setdefault(n, []).extend(ts)
        has_pi = any(T.contains(e, T.PI) for e in exprs)
        if has_pi:
            ax += [T.PI > z3.RealVal("3.1415926535"), T.PI < z3.RealVal("3.1415926536")]
        for t in names.get("exp", []):
            ax.append(z3.And(t > 0, (t.arg(0) > 0) == (t > 1), (t.arg(0) == 0) == (t == 1)))
        for t in names.get("sqrt", []):
            a = t.arg(0)
            ax.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
        sc = {}
        for n in ("sin", "cos"):
            for t in names.get(n, []):
                ax.append(z3.And(t >= -1, t <= 1))
                sc.setdefault(t.arg(0).get_id(), {})[n] = t
        for d in sc.values():
            if len(d) == 2:
                ax.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
        es = {t.get_id(): t for t in names.get("exp", [])}.values()
        es = list(es)
        for i in range(len(es)):
            for j in range(i):
                a, b = es[i].arg(0), es[j].arg(0)
                if len(es) <= 6:
                    ax.append((a < b) == (es[i] < es[j]))
                    ax.append((a == b) == (es[i] == es[j]))
        ls = list({t.get_id(): t for t in names.get("log", [])}.values())
        for i in range(len(ls)):
            for j in range(i):
                a, b = ls[i].arg(0), ls[j].arg(0)
                ax.append(z3.Implies(z3.And(a > 0, b > 0), (a < b) == (ls[i] < ls[j])))
        for t in ls:
            a = t.arg(0)
            ax.append(z3.Implies(a > 0, z3.And((a > 1) == (t > 0), (a == 1) == (t == 0))))
        for t in names.get("floorR", []):
            a = t.arg(0)
            ax.append(z3.And(t <= a, a < t + 1))
        return ax

    def solver(self, hyps, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        for h in hyps:
            s.add(h)
        return s

    def feasible(self, hyps, ms=1500):
        """False only if z3 shows the hypotheses contradictory."""
        hyps = [T.to_bool(h) for h in hyps if T.is_z3(h) or not h]
        key = tuple(sorted(h.get_id() for h in hyps))
        if key in self._sat_memo:
            return self._sat_memo[key][0]
        t0 = time.time()
        s = self.solver(hyps + self.axioms(hyps), ms)
        r = s.check() != z3.unsat
        self.solver_time += time.time() - t0
        self._sat_memo[key] = (r, hyps)
        return r

    def valid(self, goal, hyps, ms=2500):
        """quick yes/no used inside the symbolic executor (never an obligation)"""
        g = T.conc_of(goal)
        if not T.is_z3(g):
            return bool(g)
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        hy = [T.to_bool(h) for h in hyps if T.is_z3(h)]
        key = ("v", g.get_id()) + tuple(sorted(h.get_id() for h in hy))
        if key in self._sat_memo:
            return self._sat_memo[key][0]
        t0 = time.time()
        r = False
        qf = [h for h in hy if not _has_q(h)]
        if len(qf) < len(hy):       # the quantifier-free, linearised part often suffices
            fs = qf + [z3.Not(g)]
            r = self.solver(linearise(fs, True) or fs, 400).check() == z3.unsat
        if not r and len(qf) < len(hy):
            fs = hy + [z3.Not(g)]
            lf = linearise(fs, True)
            r = lf is not None and self.solver(lf, 800).check() == z3.unsat
        if not r:
            s = self.solver(hy + self.axioms(hy + [g]) + [z3.Not(g)], ms)
            r = s.check() == z3.unsat
        self.solver_time += time.time() - t0
        self._sat_memo[key] = (r, hy, g)
        return r

    # ------------------------------------------------------------ main entry
    def prove(self, name, goal, hyps, hints=None, nomodel=False):
        t0 = time.time()
        hyps = [T.to_bool(h) for h in hyps if T.is_z3(h) or not h]
        st, be, model, note = self._prove(goal, hyps, hints or {}, 0)
        if st == "refuted" and T.LOOSE:
            seen, acc = set(), []
            for e in [goal] + hyps:
                if T.is_z3(e):
                    T.consts_of(e, acc, seen)
            if any(c.decl().name() in T.LOOSE for c in acc):
                st, note = "unknown", "the counterexample rests on a value the engine leaves open"
        dt = time.time() - t0
        self.queries += 1
        self.solver_time += dt
        return Ob(name, goal, hyps, st, be, dt, model, note)

    def _split(self, goal):
        if z3.is_and(goal):
            return list(goal.children())
        return None

    def _prove(self, goal, hyps, hints, depth):
        g = T.conc_of(goal)
        if not T.is_z3(g):
            if g:
                return "proved", "trivial", None, ""
            g = z3.BoolVal(False)
        g0 = g
        if z3.is_quantifier(g) and g.is_forall():
            vs = [T.fresh("sk", g.var_sort(i)) for i in range(g.num_vars())]
            return self._prove(z3.substitute_vars(g.body(), *reversed(vs)), hyps, hints, depth)
        if z3.is_implies(g):
            return self._prove(g.arg(1), hyps + [g.arg(0)], hints, depth)
        if z3.is_and(g):
            bes, note = [], ""
            for c in g.children():
                r = self._prove(c, hyps, hints, depth)
                if r[0] != "proved":
                    return r
                bes.append(r[1])
            return "proved", "+".join(sorted(set("+".join(bes).split("+")))), None, ""
        gs = z3.simplify(g)
        if z3.is_true(gs):
            return "proved", "z3-simplify", None, ""
        # algebra for real equations
        note = ""
        if z3.is_eq(g) and not z3.is_bool(g.arg(0)):
            ok, note = self._algebra(g.arg(0), g.arg(1), hyps)
            if ok:
                return "proved", "alg", None, note
            if depth == 0:
                g2 = self.ctx_simplify(g, hyps)
                if not g2.eq(g):
                    r = self._prove(g2, hyps, hints, 1)
                    if r[0] == "proved":
                        return r[0], r[1] + "+ctx", r[2], r[3]
                    g = g2
        # case split on if-then-else conditions containing no sums: done by z3
        neg = z3.Not(g)
        qf = [h for h in hyps if not _has_q(h)]
        if len(qf) < len(hyps):
            f0 = qf + [neg]
            if self.solver(linearise(f0, True) or f0, 1000).check() == z3.unsat:
                return "proved", "z3-qf", None, ""
        fs = hyps + self.axioms(hyps + [g]) + self.sum_lemmas(hyps + [g], hyps) + [neg]
        if not (z3.is_eq(g) and z3.is_real(g.arg(0))):
            if len(qf) < len(hyps):
                lf = linearise(hyps + [neg], True)
                if lf is not None and self.solver(lf, 4000).check() == z3.unsat:
                    return "proved", "z3-gen", None, ""
            lf = linearise(fs)
            if lf is not None and self.solver(lf, 4000).check() == z3.unsat:
                return "proved", "z3-lin", None, ""
        s = self.solver(fs, Z3_MS)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None, ""
        if r == z3.sat:
            m = s.model()
            return self._classify(g, hyps, m, hints)
        if z3.is_eq(g) and not z3.is_bool(g.arg(0)) and depth < 6:
            cs = self._case_split(g, hyps, hints, depth)
            if cs is not None:
                return cs
        c5 = self._cvc5(s)
        if c5 == "unsat":
            return "proved", "cvc5", None, ""
        asg = self.refute(g, hyps, hints)
        if asg is not None:
            return "refuted", "numeric", asg, "VC false at a sampled point"
        return "unknown", "z3,cvc5,alg", None, note

    # ------------------------------------------------------------ contextual simplification
    def ctx_simplify(self, e, hyps, memo=None, depth=0):
        """equivalent term under hyps: conditions that hyps decide are resolved and
        sums whose body vanishes off one position are collapsed"""
        memo = {} if memo is None else memo
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        r = e
        if z3.is_app(e) and e.num_args() > 0:
            if T.is_sum(e):
                r = self.collapse(e, hyps, depth)
            elif e.decl().kind() == z3.Z3_OP_ITE:
                c = e.arg(0)
                if z3.is_and(c):
                    cs = [x for x in c.children() if not self.valid(x, hyps, 500)]
                    if len(cs) < c.num_args():
                        c = z3.BoolVal(True) if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)
                if self.valid(c, hyps, 800):
                    r = self.ctx_simplify(e.arg(1), hyps, memo, depth)
                elif self.valid(z3.Not(c), hyps, 800):
                    r = self.ctx_simplify(e.arg(2), hyps, memo, depth)
                else:
                    a = self.ctx_simplify(e.arg(1), hyps + [c], {}, depth)
                    b = self.ctx_simplify(e.arg(2), hyps + [z3.Not(c)], {}, depth)
                    r = a if a.eq(b) else z3.If(c, a, b)
            else:
                ch = [self.ctx_simplify(c, hyps, memo, depth) for c in e.children()]
                if any(not a.eq(b) for a, b in zip(ch, e.children())):
                    r = e.decl()(*ch)
        memo[k] = (r, e)
        return r

    def collapse(self, t, hyps, depth):
        if depth > 3:
            return t
        v, lo, hi, body = T.sum_parts(t)
        ih = hyps + [v >= lo, v < hi]
        b2 = self.ctx_simplify(body, ih, {}, depth + 1)
        from .loops import solve_candidates
        for g in solve_candidates(b2, v, ()):
            if isinstance(g, tuple):
                continue
            g = T.to_int(g)
            if T.contains(g, v):
                continue
            if self.valid(b2 == 0, ih + [v != g], 1500):
                at = z3.substitute(b2, (v, g))
                inr = z3.And(lo <= g, g < hi)
                if self.valid(inr, hyps, 1500):
                    return self.ctx_simplify(at, hyps, {}, depth + 1)
                return T.to_real(T.ite(inr, at, 0)) if t.sort() == T.R else T.to_int(T.ite(inr, at, 0))
        r = self.split_range(v, lo, hi, b2, hyps)
        if r is None:
            c = int_choice((lo, hi, b2), v)
            if c is not None:
                # an index or length chosen by a condition on the outside: choose outside
                br = []
                for k, cond in ((True, c), (False, z3.Not(c))):
                    l, h, b = (z3.simplify(z3.substitute(x, (c, z3.BoolVal(k)))) for x in (lo, hi, b2))
                    x = T.sum_from_body(l, h, v, b)
                    br.append(T.to_real(x) if t.sort() == T.R else T.to_int(x))
                return z3.If(c, *br)
            if b2.eq(body):
                return t
            r = T.sum_from_body(lo, hi, v, b2)
        return T.to_real(r) if t.sort() == T.R else T.to_int(r)

    def split_range(self, v, lo, hi, b, hyps):
        """sums of guarded terms as separate sums over the guarded ranges, counted from zero (None: nothing to do)"""
        if z3.is_add(b):
            parts = [self.split_range(v, lo, hi, x, hyps) for x in b.children()]
            if all(p is None for p in parts):
                return None
            tot = z3.RealVal(0) if z3.is_real(b) else z3.IntVal(0)
            for p, x in zip(parts, b.children()):
                p = T.sum_from_body(lo, hi, v, x) if p is None else p
                tot = tot + (T.to_real(p) if z3.is_real(b) else T.to_int(p))
            return tot
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE):
            return None
        if not T.is_zero(b.arg(2)):
            if T.bound_of(b.arg(0), v) is None:
                return None
            zero = z3.RealVal(0) if z3.is_real(b) else z3.IntVal(0)
            return self.split_range(v, lo, hi, z3.If(b.arg(0), b.arg(1), zero) + z3.If(z3.Not(b.arg(0)), b.arg(2), zero), hyps)
        g = b.arg(0)
        rest, ch = [], False
        for x in (g.children() if z3.is_and(g) else [g]):
            bd = T.bound_of(x, v)
            if bd is None:
                rest.append(x)
                continue
            k, e = bd
            if k == "hi" and self.valid(z3.And(e <= hi, e >= lo), hyps, 500):
                hi, ch = e, True
            elif k == "lo" and self.valid(z3.And(e >= lo, e <= hi), hyps, 500):
                lo, ch = e, True
            else:
                rest.append(x)
        if not ch:
            return None
        body = z3.If(z3.And(*rest), b.arg(1), b.arg(2)) if rest else b.arg(1)
        if not T.is_zero(lo):
            body, lo, hi = z3.substitute(body, (v, v + lo)), z3.IntVal(0), hi - lo
        return T.sum_from_body(lo, hi, v, z3.simplify(body))

    def _case_split(self, g, hyps, hints, depth):
        c = _first_cond(g)
        if c is None:
            return None
        res = []
        for cond, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
            h = hyps + [cond]
            if not self.feasible(h):
                continue
            gg = z3.simplify(z3.substitute(g, (c, val)))
            r = self._prove(gg, h, hints, depth + 1)
            if r[0] != "proved":
                return r
            res.append(r[1])
        return "proved", "+".join(sorted(set("+".join(res).split("+")))) + "+split", None, ""

    def _algebra(self, a, b, hyps):
        def sign(p):
            try:
                return self.valid(alg.to_z3(p) > 0, hyps)
            except T.Unsupported:
                return False
        alg = Alg(sign)
        try:
            ok = alg.equal(a, b)
        except Exception as e:      # noqa
            return False, f"algebra: {e}"
        if not ok:
            return False, ""
        for at in alg.nonneg:
            try:
                t = alg.atom_z3(at)
            except T.Unsupported:
                return False, "sign of a root argument unresolved"
            if not self.valid(t >= 0, hyps):
                return False, f"could not show {t} >= 0"
        for k, p in alg.pospoly.items():
            try:
                t = alg.to_z3(p)
            except T.Unsupported:
                return False, "sign of a logarithm argument unresolved"
            if not self.valid(t > 0, hyps):
                return False, f"could not show {t} > 0"
        for k, p in alg.denoms.items():
            try:
                t = alg.to_z3(p)
            except T.Unsupported:
                self.definedness.add("denominator (composite) != 0")
                continue
            if not self.valid(t != 0, hyps, 1000):
                s = str(z3.simplify(t)).replace("\n", " ")
                self.definedness.add("divisor assumed non-zero: " + s[:160])
        return True, ""

    def sum_lemmas(self, exprs, hyps):
        """extensional equality between sums that occur in the query"""
        sums = {}
        for e in exprs:
            for n, ts in T.decls_of(e).items():
                if n in T.SUMS:
                    for t in ts:
                        if not any(z3.is_var(x) for x in _leaves(t)):
                            sums[t.get_id()] = t
        out = []
        ss = list(sums.values())
        if len(ss) > 8:
            return out
        for t in ss:
            v, lo, hi, body = T.sum_parts(t)
            out.append(z3.Implies(hi <= lo, t == 0))
        for i in range(len(ss)):
            for j in range(i):
                v1, l1, h1, b1 = T.sum_parts(ss[i])
                v2, l2, h2, b2 = T.sum_parts(ss[j])
                if not self.valid(l1 == l2, hyps, 500):
                    continue
                b2 = z3.substitute(b2, (v2, v1))
                ih = hyps + [v1 >= l1, v1 < h1]
                ok, _ = self._algebra(b1, b2, ih)
                if not ok:
                    ok = self.valid(b1 == b2, ih, 1500)
                if ok:
                    out.append(z3.Implies(h1 == h2, ss[i] == ss[j]))
                    out.append(z3.Implies(z3.And(h1 == h2 + 1, h2 >= l2),
                                          ss[i] == ss[j] + z3.substitute(b1, (v1, h2))))
                    out.append(z3.Implies(z3.And(h2 == h1 + 1, h1 >= l1),
                                          ss[j] == ss[i] + z3.substitute(b1, (v1, h1))))
                    if self.valid(b1 >= 0, ih, 500):
                        out.append(z3.Implies(h1 <= h2, ss[i] <= ss[j]))
                        out.append(z3.Implies(h2 <= h1, ss[j] <= ss[i]))
                        # a strict prefix leaves room for the next term
                        out.append(z3.Implies(z3.And(h1 < h2, h1 >= l1),
                                              ss[i] + z3.substitute(b1, (v1, h1)) <= ss[j]))
                        out.append(z3.Implies(z3.And(h2 < h1, h2 >= l2),
                                              ss[j] + z3.substitute(b1, (v1, h2)) <= ss[i]))
            v, lo, hi, body = T.sum_parts(ss[i])
            if self.valid(body >= 0, hyps + [v >= lo, v < hi], 500):
                out.append(ss[i] >= 0)
        return out

    def _classify(self, g, hyps, model, hints):
        """z3 says sat.  If the query only used interpreted symbols and free
        inputs the model is a real counterexample; with transcendental symbols
        or sums it may be spurious: confirm numerically."""
        names = T.decls_of(g)
        for h in hyps:
            names.update(T.decls_of(h))
        abstract = [n for n in names if n in T.TRANS or n in T.SUMS]
        consts = {}
        for d in model.decls():
            if d.arity() == 0:
                v = model[d]
                try:
                    consts[d.name()] = T.conc_of(v)
                except Exception:
                    pass
        if not abstract:
            return "refuted", "z3", {"z3model": model}, ""
        asg = self.refute(g, hyps, hints)
        if asg is not None:
            return "refuted", "z3+numeric", asg, ""
        # try z3 model ints + exact numeric evaluation
        env = T.NEnv(self.rng, {k: (float(v) if isinstance(v, T.Fraction) else v)
                                for k, v in consts.items() if not T.is_z3(v)}, {**self.hints, **hints})
        try:
            if all(T.neval(h, env, {}) for h in hyps) and not T.neval(g, env, {}) and self.confirm(g, hyps, env):
                return "refuted", "z3+numeric", {"env": env}, ""
        except (T.NumFail, OverflowError, RecursionError):
            pass
        return "unknown", "z3", None, "model not confirmed (transcendental/sum abstraction)"

    def refute(self, g, hyps, hints, tries=60):
        """look for a concrete point where all hypotheses hold and g fails"""
        # integer part from z3 models of the hypotheses
        ints = [c for e in [g] + hyps for c in T.consts_of(e) if c.sort() == T.I]
        ints = list({c.get_id(): c for c in ints}.values())
        hh = {**self.hints, **hints}
        base = []
        s = self.solver([h for h in hyps], 1500)
        for c in ints:
            s.add(c <= 4, c >= -1)
        for _ in range(4):
            if s.check() != z3.sat:
                break
            m = s.model()
            d = {}
            for c in ints:
                v = T.conc_of(m.eval(c, model_completion=True))
                d[c.decl().name()] = v
            base.append((d, m))
            if ints:
                s.add(z3.Or(*[c != m.eval(c, model_completion=True) for c in ints]))
        if not base:
            base = [({}, None)]
        for k in range(tries):
            d, m = base[k % len(base)]
            env = T.NEnv(self.rng, d, hh)
            if m is not None and k % 3 == 0:
                for dd in m.decls():
                    if dd.arity() == 0 and dd.name() not in env.c:
                        v = T.conc_of(m[dd])
                        if not T.is_z3(v):
                            env.c[dd.name()] = float(v) if isinstance(v, T.Fraction) else v
            try:
                if not all(T.neval(h, env, {}) for h in hyps):
                    continue
                if not T.neval(g, env, {}) and self.confirm(g, hyps, env):
                    return {"env": env}
            except (T.NumFail, OverflowError, RecursionError, ZeroDivisionError, TypeError):
                continue
        return self.refute_guided(g, hyps, hh)

    def confirm(self, g, hyps, env):
        """the refuting point again, with 50 digits (rounding alone never refutes)"""
        p = env.precise()
        return all(T.neval(h, p, {}) for h in hyps) and not T.neval(g, p, {})

    def refute_guided(self, g, hyps, hh, limit=6):
        """points on both sides of the conditions in g that random points rarely reach"""
        conds, seen, stack, apps, consts = [], set(), [g] + list(hyps), [], []
        while stack:
            t = stack.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            if t.decl().kind() == z3.Z3_OP_ITE:
                conds.append(t.arg(0))
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() not in T.TRANS and t.decl().name() not in T.SUMS \
                    and t.decl().name() != "pi":
                (apps if t.num_args() else consts).append(t)
            stack.extend(t.children())
        conds = list({c.get_id(): c for c in conds}.values())
        if not conds:
            return None
        reals = [t for t in apps + consts if t.sort() == T.R]
        n = 0
        for c in conds[:limit]:
            for side in (c, z3.Not(c)):
                s = self.solver(list(hyps), 1000)
                s.add(side)
                for t in apps + consts:
                    if t.sort() == T.I:
                        s.add(t <= 4, t >= -1)
                for k in range(3):
                    if s.check() != z3.sat:
                        break
                    m = s.model()
                    env = T.NEnv(self.rng, {}, hh)

                    def val(t):
                        v = T.conc_of(m.eval(t, model_completion=True))
                        if T.is_z3(v):
                            raise T.NumFail("algebraic value")
                        return float(v) if t.sort() == T.R else v
                    try:
                        for t in consts:
                            env.c[t.decl().name()] = val(t)
                        for t in apps:
                            env.f[(t.decl().name(), tuple(round(a, 12) if isinstance(a, float) else a
                                                          for a in map(val, t.children())))] = val(t)
                        if all(T.neval(h, env, {}) for h in hyps) and not T.neval(g, env, {}) and self.confirm(g, hyps, env):
                            return {"env": env}
                    except (T.NumFail, OverflowError, RecursionError, ZeroDivisionError, TypeError, AttributeError):
                        pass
                    n += 1
                    if n > 40:
                        return None
                    if not reals:
                        break
                    s.add(z3.And(*[t != m.eval(t, model_completion=True) for t in reals[:4]]))
        return None

    def _cvc5(self, s):
        exe = shutil.which("cvc5")
        if not exe:
            return "unknown"
        txt = "(set-logic ALL)\n" + s.to_smt2()
        if len(txt) > 400000:
            return "unknown"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run([exe, "--tlimit", str(CVC5_S * 1000), f.name],
                               capture_output=True, text=True, timeout=CVC5_S + 5)
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)


def _leaves(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            yield x
        elif z3.is_app(x):
            st.extend(x.children())


def _first_cond(e):
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                while z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
                    c = c.arg(0)
                return c
            stack.extend(t.children())
    return None
