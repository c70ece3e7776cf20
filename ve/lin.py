"""Generalisation of formulas: products, quotients and powers of non-constant terms become applications of an
uninterpreted (commutative) function on the expanded polynomials.  If the generalised formula is unsatisfiable so is
the original one."""
import z3
from fractions import Fraction
from . import terms as T

RMUL = z3.Function("$rmul", T.R, T.R, T.R)
IMUL = z3.Function("$imul", T.I, T.I, T.I)
RINV = z3.Function("$rinv", T.R, T.R)
LIMIT = 400


class TooBig(Exception):
    pass


FUNS = {"sqrt", "exp", "log", "sin", "cos", "arctan", "arctan2", "atan", "atan2"}


class Lin:
    def __init__(self, fun=False):
        self.fun = fun
        self.templates = {}
        self.memo = {}
        self.keep = []
        self.nonlinear = False
        self.atoms = {}

    def key(self, t):
        return t.sexpr() if t.num_args() == 0 else (t.decl().name(), tuple(self.key(c) for c in t.children())) \
            if z3.is_app(t) else t.sexpr()

    def skey(self, t):
        k = self.atoms.get(t.get_id())
        if k is None:
            k = str(t.decl().name()) + "|" + t.sexpr() if z3.is_app(t) else t.sexpr()
            self.atoms[t.get_id()] = k
            self.keep.append(t)
        return k

    # polynomials: {tuple(sorted atom ids): Fraction}
    def poly(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children() if z3.is_app(t) else []
        if z3.is_rational_value(t) or z3.is_int_value(t):
            c = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): c} if c else {}
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                self.addto(r, self.poly(c), 1)
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(self.poly(ch[0]))
            for c in ch[1:]:
                self.addto(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER:
            n = T.conc_of(ch[1])
            if not T.is_z3(n) and n == int(n) and 0 <= int(n) <= 4:
                r, b = {(): Fraction(1)}, self.poly(ch[0])
                for _ in range(int(n)):
                    r = self.mul(r, b)
                return r
        if k == z3.Z3_OP_DIV:
            b = self.poly(ch[1])
            if set(b) <= {()} and b:
                return {m: c / b[()] for m, c in self.poly(ch[0]).items()}
            self.nonlinear = True
            return self.mul(self.poly(ch[0]), self.atom(RINV(self.term(b, T.R))))
        if k == z3.Z3_OP_TO_REAL:
            p = self.poly(ch[0])
            if all(len(m) == 0 for m in p) or True:
                r = {}
                for m, c in p.items():
                    r2 = {(): c}
                    for a in m:
                        x = self.by[a]
                        r2 = self.mul(r2, self.atom(z3.ToReal(x) if z3.is_int(x) else x))
                    self.addto(r, r2, 1)
                return r
        return self.atom(self.go(t, top=True))

    by = None

    def atom(self, t):
        if self.by is None:
            self.by = {}
        k = self.skey(t)
        self.by[k] = t
        return {(k,): Fraction(1)}

    def addto(self, r, p, s):
        for m, c in p.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)

    def mul(self, p, q):
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                self.addto(r, {tuple(sorted(a + b)): x * y}, 1)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def term(self, p, sort):
        out = []
        for m, c in sorted(p.items()):
            fs = [self.by[a] for a in m]
            if not fs:
                out.append(z3.RealVal(str(c)) if sort == T.R else z3.IntVal(int(c)))
                continue
            t = fs[0]
            for f in fs[1:]:
                self.nonlinear = True
                t = (RMUL if sort == T.R else IMUL)(t, f)
            if sort == T.R and z3.is_int(t):
                t = z3.ToReal(t)
            if c != 1:
                t = (z3.RealVal(str(c)) if sort == T.R else z3.IntVal(int(c))) * t
            out.append(t)
        if not out:
            return z3.RealVal(0) if sort == T.R else z3.IntVal(0)
        return out[0] if len(out) == 1 else z3.Sum(out)

    ARITH = None

    def go(self, t, top=False):
        k = (t.get_id(), top)
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        r = self._go(t, top)
        self.memo[k] = (r, t)
        return r

    def _go(self, t, top):
        if z3.is_quantifier(t):
            n = t.num_vars()
            vs = [z3.Const(f"$q{len(self.memo)}_{i}", t.var_sort(i)) for i in range(n)]
            sub = list(reversed(vs))
            body = self.go(z3.substitute_vars(t.body(), *sub))
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                pats.append(z3.MultiPattern(*[self.go(z3.substitute_vars(c, *sub)) for c in p.children()]))
            if t.is_lambda():
                raise TooBig()
            f = z3.ForAll if t.is_forall() else z3.Exists
            return f(vs, body, patterns=pats) if pats else f(vs, body)
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        kd = t.decl().kind()
        if self.fun and kd == z3.Z3_OP_UNINTERPRETED and z3.is_real(t) and t.decl().name() in FUNS:
            return self.template(t)
        if not top and z3.is_arith(t) and kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL,
                                                 z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL):
            return self.term(self.poly(t), T.R if z3.is_real(t) else T.I)
        ch = [self.go(c) for c in t.children()]
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if kd == z3.Z3_OP_POWER:
            self.nonlinear = True
            return z3.Function("$rpow", T.R, T.R, T.R)(*[z3.ToReal(c) if z3.is_int(c) else c for c in ch])
        return t.decl()(*ch)


def _template(self, t):
    """f(E[i1..in]) as an uninterpreted function of the integer terms E depends on (the same E gives the same function)"""
    holes, seen = [], {}

    def walk(x):
        k = x.get_id()
        if k in seen:
            return seen[k]
        if z3.is_int(x) and not z3.is_int_value(x):
            for n, h in enumerate(holes):
                if h.eq(x):
                    r = f"?{n}"
                    break
            else:
                holes.append(x)
                r = f"?{len(holes) - 1}"
        elif z3.is_app(x) and x.num_args():
            r = "(" + x.decl().name() + "".join(" " + walk(c) for c in x.children()) + ")"
        else:
            r = x.sexpr()
        seen[k] = r
        return r
    key = walk(t)
    if not holes:
        self.templates.setdefault(key, z3.Const(f"$t{len(self.templates)}", t.sort()))
        self.nonlinear = True
        return self.templates[key]
    self.templates.setdefault(key, z3.Function(f"$t{len(self.templates)}", *([T.I] * len(holes) + [t.sort()])))
    self.nonlinear = True
    return self.templates[key](*[self.go(h) for h in holes])


Lin.template = _template


def linearise(fs, fun=False):
    """generalised formulas, or None when nothing non-linear occurs (or the expansion is too big)"""
    L = Lin(fun)
    L.by = {}
    try:
        out = [L.go(f) for f in fs]
    except (TooBig, z3.Z3Exception, RecursionError):
        return None
    if not L.nonlinear:
        return None
    a, b = z3.Reals("$ca $cb")
    i, j = z3.Ints("$ci $cj")
    out.append(z3.ForAll([a, b], RMUL(a, b) == RMUL(b, a), patterns=[RMUL(a, b)]))
    out.append(z3.ForAll([i, j], IMUL(i, j) == IMUL(j, i), patterns=[IMUL(i, j)]))
    return out
