"""Algebraic decision back end: equality of two real terms as elements of the
ring generated by their atoms (array elements, exp/sin/cos/sqrt atoms, 0/1
indicators of conditions, finite sums, inverses), modulo the relations
sin^2+cos^2=1, [P]*[P]^-1=1, sqrt(P)^2=P, ind^2=ind, exp(a)exp(b)=exp(a+b) and
linearity of finite sums.  `True` is a proof (over the reals, denominators
non-zero, sqrt arguments non-negative); `False` means not proved."""
from fractions import Fraction
import z3
from . import terms as T

F0, F1 = Fraction(0), Fraction(1)
ONE = ()


class TooBig(Exception):
    pass


LIMIT = 400000


class Alg:
    def __init__(self, sign=None):
        self.sign = sign
        self.atoms = []       # id -> (kind, data...)
        self.ids = {}
        self.deps = []        # id -> frozenset of bound-variable names
        self.memo = {}
        self.hmemo = {}
        self.denoms = {}      # polykey -> poly  (side conditions: non-zero)
        self.terms = {}       # atom id -> z3 term
        self.pospoly = {}     # polykey -> poly (side conditions: > 0)
        self.nonneg = {}      # atom id -> True (side conditions: >= 0)

    # ---- atoms
    def atom(self, key, deps=frozenset()):
        if key not in self.ids:
            self.ids[key] = len(self.atoms)
            self.atoms.append(key)
            self.deps.append(frozenset(deps))
        return self.ids[key]

    def pk(self, p):
        return tuple(sorted(p.items()))

    def pdeps(self, p):
        s = set()
        for m in p:
            for a, _ in m:
                s |= self.deps[a]
        return s

    # ---- polynomial ops
    def const(self, c):
        c = Fraction(c)
        return {ONE: c} if c else {}

    def var(self, a, e=F1):
        return {((a, Fraction(e)),): F1}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, F0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, m, n):
        d = dict(m)
        for a, e in n:
            v = d.get(a, F0) + e
            if v == 0:
                d.pop(a, None)
            else:
                if self.atoms[a][0] == "ind":
                    v = F1
                d[a] = v
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = r.get(k, F0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def scale(self, p, c):
        c = Fraction(c)
        return {m: v * c for m, v in p.items()} if c else {}

    def content(self, p):
        """common monomial factor, remaining primitive poly"""
        it = iter(p)
        common = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(common):
                e = d.get(a, F0)
                x = common[a]
                if e == 0 or (e > 0) != (x > 0):
                    del common[a]
                elif x > 0:
                    common[a] = min(x, e)
                else:
                    common[a] = max(x, e)
        # negative exponents present in some monomials but not all: factor min
        for m in p:
            for a, e in m:
                if e < 0 and self.atoms[a][0] in ("P", "t", "app", "exp"):
                    common[a] = min(common.get(a, F0), e)
        common = {a: e for a, e in common.items() if e}
        if not common:
            return ONE, p
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        q = {}
        for m, c in p.items():
            q[self.mmul(m, inv)] = c
        return tuple(sorted(common.items())), q

    def expandP(self, q):
        """replace P-atoms carrying positive integer exponents by their polynomial"""
        for _ in range(20):
            hit = False
            out = {}
            for m, c in q.items():
                x = None
                for a, e in m:
                    if self.atoms[a][0] == "P" and e.denominator == 1 and e > 0:
                        x = (a, e)
                        break
                if x is None:
                    out = self.add(out, {m: c})
                    continue
                hit = True
                f = self.power(dict(self.atoms[x[0]][1]), x[1])
                rest = tuple(y for y in m if y[0] != x[0])
                out = self.add(out, self.mul({rest: c}, f))
            q = out
            if not hit:
                break
        return q

    def power(self, p, e):
        """p ** e for rational e, using P-atoms for multi-term polynomials."""
        e = Fraction(e)
        if e == 1:
            return p
        if not p:
            if e > 0:
                return {}
            raise T.Unsupported("inverse of zero")
        if e.denominator == 1 and e > 0:
            r = p
            for _ in range(int(e) - 1):
                r = self.mul(r, p)
            return r
        com, q = self.content(p)
        q = self.expandP(q)
        q = self.reduce_trig(q)
        if not q:
            raise T.Unsupported("inverse of zero")
        if len(q) > 1:
            com2, q = self.content(q)
            com = self.mmul(com, com2)
        if len(q) == 1:
            (m, c), = q.items()
            m = self.mmul(com, m)
            out = self.cpow(c, e)
            mm = tuple((a, x * e) for a, x in m)
            for a, _ in mm:
                if self.atoms[a][0] == "ind":
                    raise T.Unsupported("inverse of an indicator")
            if e.denominator != 1:
                self.need_nonneg(m)
            return {self.mmul(tuple(sorted(mm)), k): v for k, v in out.items()}
        lead = max(q)
        lc = q[lead]
        if e.denominator != 1:
            lc = abs(lc)
        q = self.scale(q, 1 / lc)
        key = self.pk(q)
        self.denoms[key] = q
        a = self.atom(("P", key), self.pdeps(q))
        if e.denominator != 1:
            self.need_nonneg(com)
            self.nonneg[a] = True
        r = self.cpow(lc, e)
        base = self.mmul(tuple(sorted((b, x * e) for b, x in com)), ((a, e),))
        return {self.mmul(base, k): v for k, v in r.items()}

    def need_nonneg(self, m):
        for a, _ in m:
            k = self.atoms[a][0]
            if k in ("exp", "cst"):
                continue
            if k in ("P", "t", "app"):
                self.nonneg[a] = True
            else:
                raise T.Unsupported("root of an atom of unknown sign")

    def to_z3(self, p):
        tot = z3.RealVal(0)
        for m, c in p.items():
            x = T.rv(c)
            for a, e in m:
                t = self.atom_z3(a)
                if e.denominator != 1 or abs(e) > 6:
                    raise T.Unsupported("fractional power")
                for _ in range(abs(int(e))):
                    x = x * t if e > 0 else x / t
            tot = tot + x
        return tot

    def atom_z3(self, a):
        if self.atoms[a][0] == "P":
            return self.to_z3(dict(self.atoms[a][1]))
        if a in self.terms:
            return self.terms[a]
        raise T.Unsupported("atom has no term")

    def cpow(self, c, e):
        if e.denominator == 1:
            return {ONE: Fraction(c) ** int(e)}
        if c < 0:
            raise T.Unsupported("root of a negative constant")
        if e.denominator == 2:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return {ONE: Fraction(n, d) ** int(2 * e)}
        if c == 1:
            return {ONE: F1}
        return {((self.atom(("cst", c)), e),): F1}

    # ---- conversion
    def height(self, t):
        k = t.get_id()
        if k in self.hmemo:
            return self.hmemo[k][0]
        h = 0
        if T.is_sum(t):
            v, lo, hi, body = T.sum_parts(t)
            h = 1 + max(self.height(lo), self.height(hi), self.height(body))
        else:
            if z3.is_app(t):
                for c in t.children():
                    h = max(h, self.height(c))
        self.hmemo[k] = (h, t)
        return h

    def poly(self, t):
        if not T.is_z3(t):
            return self.const(T.frac(t))
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][0]
        p = self._poly(t)
        self.memo[k] = (p, t)
        return p

    def _poly(self, t):
        c = T.conc_of(t)
        if not T.is_z3(c):
            return self.const(T.frac(c))
        if z3.is_bool(t):
            return self.bpoly(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                r = self.add(r, self.poly(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.poly(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.scale(self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for x in ch:
                r = self.mul(r, self.poly(x))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.poly(ch[0]), self.power(self.poly(ch[1]), -1))
        if k == z3.Z3_OP_POWER:
            n = T.conc_of(ch[1])
            if T.is_z3(n):
                raise T.Unsupported("symbolic power")
            return self.power(self.poly(ch[0]), Fraction(n))
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if k == z3.Z3_OP_ITE:
            b = self.bpoly(ch[0])
            x, y = self.poly(ch[1]), self.poly(ch[2])
            return self.add(self.mul(b, self.add(x, y, -1)), y)
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in T.SUMS:
                return self.sum_poly(t)
            if n == "sqrt":
                return self.power(self.poly(ch[0]), Fraction(1, 2))
            if n == "exp":
                p = self.poly(ch[0])
                m = ONE
                extra = None
                for mon, c in p.items():
                    if len(mon) == 1 and mon[0][1] == 1 and self.atoms[mon[0][0]][0] == "log":
                        # log atoms stand for log|x|
                        x = dict(self.atoms[mon[0][0]][1])
                        if self.sign is not None and self.sign(self.scale(x, -1)):
                            x = self.scale(x, -1)
                        self.pospoly[self.pk(x)] = x
                        f = self.power(x, c)
                        extra = f if extra is None else self.mul(extra, f)
                        continue
                    a = self.atom(("exp", mon), self.pdeps({mon: 1}))
                    try:
                        self.terms.setdefault(a, T.EXP(self.to_z3({mon: F1})))
                    except T.Unsupported:
                        pass
                    m = self.mmul(m, ((a, c),))
                if extra is not None:
                    return self.mul({m: F1}, extra)
                return {m: F1}
            if n == "log":
                p = self.poly(ch[0])
                if len(p) == 1:
                    (mon, c), = p.items()
                    r = {}
                    if c != 1:
                        r = self.add(r, self.var(self.atom(("log", self.pk({ONE: c})))))
                    for a, e in mon:
                        if self.atoms[a][0] == "exp":
                            q = {self.atoms[a][1]: e}
                        elif self.atoms[a][0] == "P":
                            q = {((self.atom(("log", self.atoms[a][1]), self.deps[a]), F1),): e}
                        else:
                            q = {((self.atom(("log", self.pk(self.var(a))), self.deps[a]), F1),): e}
                        r = self.add(r, q)
                    return r
                com, q = self.content(p)
                q = self.expandP(q)
                lead = max(q)
                lc = abs(q[lead])
                r = self.var(self.atom(("log", self.pk(self.scale(q, 1 / lc))), self.pdeps(q)))
                if lc != 1:
                    r = self.add(r, self.var(self.atom(("log", self.pk({ONE: lc})))))
                for a, e in com:
                    if self.atoms[a][0] == "exp":
                        x = {self.atoms[a][1]: e}
                    elif self.atoms[a][0] == "P":
                        x = {((self.atom(("log", self.atoms[a][1]), self.deps[a]), F1),): e}
                    else:
                        x = {((self.atom(("log", self.pk(self.var(a))), self.deps[a]), F1),): e}
                    r = self.add(r, x)
                return r
            if n in ("sin", "cos"):
                p = self.poly(ch[0])
                if not p:
                    return self.const(0 if n == "sin" else 1)
                s = 1
                if p[max(p)] < 0:
                    p = self.scale(p, -1)
                    s = -1 if n == "sin" else 1
                # double angle: sin(2x), cos(2x)
                a = self.atom((n, self.pk(p)), self.pdeps(p))
                try:
                    self.terms.setdefault(a, (T.SIN if n == "sin" else T.COS)(self.to_z3(p)))
                except T.Unsupported:
                    pass
                return self.scale(self.var(a), s)
            if not ch:
                dep = {n} if n.startswith("$V") else ()
                a = self.atom(("t", n, str(t.sort())), dep)
                self.terms.setdefault(a, T.to_real(t))
                return self.var(a)
            ps = [self.poly(c) for c in ch]
            dep = set()
            for q in ps:
                dep |= self.pdeps(q)
            a = self.atom(("app", n, tuple(self.pk(q) for q in ps)), dep)
            self.terms.setdefault(a, T.to_real(t))
            return self.var(a)
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT):
            ps = [self.poly(c) for c in ch]
            dep = set()
            for q in ps:
                dep |= self.pdeps(q)
            return self.var(self.atom(("app", str(t.decl().name()), tuple(self.pk(q) for q in ps)), dep))
        raise T.Unsupported(f"algebra: {t.decl()}")

    def bpoly(self, t):
        c = T.conc_of(t)
        if not T.is_z3(c):
            return self.const(1 if c else 0)
        kk = ("b", t.get_id())
        if kk in self.memo:
            return self.memo[kk][0]
        r = self._bpoly(t)
        self.memo[kk] = (r, t)
        return r

    def _bpoly(self, t):
        k = t.decl().kind()
        ch = t.children()
        one = self.const(1)
        if k == z3.Z3_OP_AND:
            r = one
            for x in ch:
                r = self.mul(r, self.bpoly(x))
            return r
        if k == z3.Z3_OP_OR:
            r = one
            for x in ch:
                r = self.mul(r, self.add(one, self.bpoly(x), -1))
            return self.add(one, r, -1)
        if k == z3.Z3_OP_NOT:
            return self.add(one, self.bpoly(ch[0]), -1)
        if k == z3.Z3_OP_IMPLIES:
            a, b = self.bpoly(ch[0]), self.bpoly(ch[1])
            return self.add(one, self.mul(a, self.add(one, b, -1)), -1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.poly(ch[0]), self.poly(ch[1])
            if k == z3.Z3_OP_LT:
                return self.lt(a, b)
            if k == z3.Z3_OP_GT:
                return self.lt(b, a)
            if k == z3.Z3_OP_LE:
                return self.add(one, self.lt(b, a), -1)
            return self.add(one, self.lt(a, b), -1)
        if k == z3.Z3_OP_EQ and not z3.is_bool(ch[0]):
            d = self.add(self.poly(ch[0]), self.poly(ch[1]), -1)
            if not d:
                return one
            if set(d) == {ONE}:
                return {}
            d = self.scale(d, 1 / d[max(d)])
            return self.var(self.atom(("ind", "eq", self.pk(d)), self.pdeps(d)))
        if k == z3.Z3_OP_EQ:
            a, b = self.bpoly(ch[0]), self.bpoly(ch[1])
            ab = self.mul(a, b)
            r = self.add(self.add(one, a, -1), b, -1)
            return self.add(r, self.scale(ab, 2))
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
            return self.add(one, self._bpoly(ch[0] == ch[1]), -1)
        if k == z3.Z3_OP_ITE:
            c, a, b = (self.bpoly(x) for x in ch)
            return self.add(self.mul(c, self.add(a, b, -1)), b)
        if k == z3.Z3_OP_UNINTERPRETED:
            ps = [self.poly(c) for c in ch]
            dep = set()
            for q in ps:
                dep |= self.pdeps(q)
            return self.var(self.atom(("ind", t.decl().name(), tuple(self.pk(q) for q in ps)), dep))
        raise T.Unsupported(f"algebra bool: {t.decl()}")

    def lt(self, a, b):
        d = self.add(a, b, -1)
        if not d:
            return {}
        if set(d) == {ONE}:
            return self.const(1 if d[ONE] < 0 else 0)
        d = self.scale(d, 1 / abs(d[max(d)]))
        return self.var(self.atom(("ind", "lt", self.pk(d)), self.pdeps(d)))

    def sum_poly(self, t):
        h = self.height(t)
        v, lo, hi, body = T.sum_parts(t)
        V = z3.Int(f"$V{h}")
        body = z3.substitute(body, (v, V))
        return self.sum_of(self.poly(lo), self.poly(hi), f"$V{h}", self.poly(body))

    def sum_of(self, lo, hi, V, p):
        r = {}
        lk, hk = self.pk(lo), self.pk(hi)
        bd = self.pdeps(lo) | self.pdeps(hi)
        for m, c in p.items():
            dep = tuple(x for x in m if V in self.deps[x[0]])
            ind = tuple(x for x in m if V not in self.deps[x[0]])
            if not dep:
                q = self.add(hi, lo, -1)
            else:
                ds = set(bd)
                for x in dep:
                    ds |= self.deps[x[0]]
                q = self.var(self.atom(("sum", lk, hk, V, dep), ds - {V}))
            r = self.add(r, self.mul(q, {ind: c}))
        return r

    # ---- zero test
    def reduce_trig(self, p):
        changed = True
        while changed:
            changed = False
            out = {}
            for m, c in p.items():
                for a, e in m:
                    if self.atoms[a][0] == "sin" and e >= 2:
                        k = self.atoms[a][1]
                        ca = self.atom(("cos", k), self.deps[a])
                        rest = self.mmul(m, ((a, Fraction(-2)),))
                        for mm, cc in ((rest, c), (self.mmul(rest, ((ca, Fraction(2)),)), -c)):
                            v = out.get(mm, F0) + cc
                            if v:
                                out[mm] = v
                            else:
                                out.pop(mm, None)
                        changed = True
                        break
                else:
                    v = out.get(m, F0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            p = out
            if len(p) > LIMIT:
                raise TooBig()
        return p

    def reduce_ind(self, p):
        """x * [x == 0] = 0: replace the leading monomial of d by -(rest) in the
        presence of [d == 0]."""
        changed = True
        guard = 0
        while changed and guard < 50:
            changed = False
            guard += 1
            out = {}
            for m, c in p.items():
                done = False
                for a, e in m:
                    k = self.atoms[a]
                    if k[0] == "ind" and k[1] == "eq":
                        d = dict(k[2])
                        lead = max(d)
                        if len(lead) == 1 and lead[0][1] == 1:
                            la = lead[0][0]
                            ee = dict(m).get(la, F0)
                            if ee >= 1 and ee.denominator == 1:
                                rest = self.mmul(m, ((la, -F1),))
                                sub = self.scale({x: y for x, y in d.items() if x != lead}, -1)
                                q = self.mul({rest: c}, sub)
                                out = self.add(out, q)
                                done = changed = True
                                break
                if not done:
                    out = self.add(out, {m: c})
            p = out
        return p

    def clear(self, p):
        """clear P-atoms and negative powers; returns list of polys all of which
        must vanish"""
        for _ in range(40):
            pa = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "P":
                        pa.setdefault(a, set())
            if not pa:
                return [p]
            # outermost P atom first: the one not inside another's polynomial
            order = sorted(pa, reverse=True)
            a = order[0]
            exps = [dict(m).get(a, F0) for m in p]
            classes = {}
            for (m, c), e in zip(p.items(), exps):
                fr = e - (e.numerator // e.denominator)
                classes.setdefault(fr, []).append((m, c, e))
            P = dict(self.atoms[a][1])
            outs = []
            for fr, items in classes.items():
                mn = min(e for _, _, e in items)
                r = {}
                powers = {0: self.const(1)}
                for m, c, e in items:
                    k = int(e - mn)
                    kk = max(powers)
                    while kk < k:
                        powers[kk + 1] = self.mul(powers[kk], P)
                        kk += 1
                    base = tuple(x for x in m if x[0] != a)
                    r = self.add(r, self.mul({base: c}, powers[k]))
                    if len(r) > LIMIT:
                        raise TooBig()
                outs.append(r)
            if len(outs) > 1:
                res = []
                for o in outs:
                    res.extend(self.clear(o))
                return res
            p = outs[0]
        raise TooBig()

    def is_zero(self, p, depth=0):
        if not p:
            return True
        for q in self.clear(p):
            q = self.reduce_trig(q)
            q = self.reduce_ind(q)
            if q:
                q2 = self.clear(q)
                for z in q2:
                    z = self.reduce_trig(z)
                    if z and not self.sum_zero(z, depth):
                        return False
        return True

    def sum_zero(self, p, depth):
        if depth > 4:
            return False
        groups = {}
        for m, c in p.items():
            ss = [(a, e) for a, e in m if self.atoms[a][0] == "sum"]
            if not ss:
                return False
            # choose the highest sum atom with exponent one
            ss = [x for x in ss if x[1] == 1]
            if not ss:
                return False
            a = max(ss, key=lambda x: self.atoms[x[0]][3])[0]
            _, lk, hk, V, mon = self.atoms[a]
            rest = tuple(x for x in m if x[0] != a)
            g = groups.setdefault((lk, hk, V), {})
            q = self.mul({rest: c}, {mon: F1})
            groups[(lk, hk, V)] = self.add(g, q)
        return all(self.is_zero(g, depth + 1) for g in groups.values())

    def equal(self, a, b):
        try:
            return self.is_zero(self.add(self.poly(T.to_real(a)), self.poly(T.to_real(b)), -1))
        except (T.Unsupported, TooBig, ZeroDivisionError):
            return False
