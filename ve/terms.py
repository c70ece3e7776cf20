"""Term layer of the verifier: z3 terms for reals/ints/bools, symbolic finite
sums, transcendental function symbols, symbolic differentiation, and a numeric
evaluator (used only to *refute* verification conditions, never to prove)."""
import math
from fractions import Fraction
import z3

z3.set_param("auto_config", True)

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct lies outside the subset: the function is then *not* proved."""


class NotInContract(Unsupported):
    """the code reads something a contract's made-up object does not carry"""


# ---------------------------------------------------------------- functions
FUN = {}


def ufun(name, *sorts):
    key = (name, tuple(str(s) for s in sorts))
    if key not in FUN:
        FUN[key] = z3.Function(name, *sorts)
    return FUN[key]


EXP = ufun("exp", R, R)
LOG = ufun("log", R, R)
SIN = ufun("sin", R, R)
COS = ufun("cos", R, R)
SQRT = ufun("sqrt", R, R)
ATAN2 = ufun("atan2", R, R, R)
FLOOR = ufun("floorR", R, R)
PI = z3.Real("pi")
FINITE = ufun("isfinite", R, B)
NAN = z3.Real("nan")        # the value of unset pixels (contracts that set model_nan); absorbing under arithmetic
TRANS = {"exp", "log", "sin", "cos", "sqrt", "atan2", "floorR"}

_fresh = [0]


def fresh(name, sort=R):
    _fresh[0] += 1
    return z3.Const(f"{name}!{_fresh[0]}", sort)


LOOSE = set()       # symbols the engine constrains less than the operation they stand for does: no counterexample rests on them


def loose(name, sort=R):
    x = fresh(name, sort)
    LOOSE.add(x.decl().name())
    return x


def fresh_fun(name, *sorts):
    _fresh[0] += 1
    return z3.Function(f"{name}!{_fresh[0]}", *sorts)


# ---------------------------------------------------------------- lifting
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_conc(x):
    return isinstance(x, (bool, int, Fraction, float))


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite literal")
        return Fraction(repr(x))
    raise Unsupported(f"not a number: {x!r}")


def rv(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def to_real(x):
    if is_z3(x):
        if z3.is_int(x):
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x
    return rv(x)


def to_int(x):
    if is_z3(x):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(x):
            return x
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        raise Unsupported("real used as int")
    f = frac(x)
    if f.denominator != 1:
        raise Unsupported("non-integral int")
    return z3.IntVal(int(f))


def to_bool(x):
    if is_z3(x):
        if z3.is_bool(x):
            return x
        return x != 0
    return z3.BoolVal(bool(x))


def conc_of(x):
    """Return a python value if the z3 term is a literal."""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def simp(x):
    if is_z3(x):
        return conc_of(z3.simplify(x))
    return x


def is_intlike(x):
    if is_z3(x):
        return z3.is_int(x) or z3.is_bool(x)
    return isinstance(x, (bool, int))


def arith(op, a, b):
    """Binary arithmetic with exact rational folding."""
    if isinstance(a, float):
        a = frac(a)
    if isinstance(b, float):
        b = frac(b)
    if not is_z3(a) and not is_z3(b):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise Unsupported("literal division by zero")
            return Fraction(a) / Fraction(b)
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "**":
            if isinstance(b, Fraction) and b.denominator == 1:
                b = int(b)
            if isinstance(b, int):
                return Fraction(a) ** b if b < 0 else a ** b
            if b == Fraction(1, 2):
                return sqrt(a)
            raise Unsupported("power")
        raise Unsupported(op)
    # light identities keep terms small
    if op == "+":
        if not is_z3(a) and a == 0:
            return b if not z3.is_bool(b) else to_int(b)
        if not is_z3(b) and b == 0:
            return a if not z3.is_bool(a) else to_int(a)
    if op == "-" and not is_z3(b) and b == 0 and not z3.is_bool(a):
        return a
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if not is_z3(x):
                if x == 0:
                    return 0
                if x == 1 and not z3.is_bool(y):
                    return y if isinstance(x, int) else to_real(y)
    if op in "+-*" and is_intlike(a) and is_intlike(b):
        a, b = to_int(a), to_int(b)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    if op in ("//", "%") and is_intlike(a) and is_intlike(b):
        a, b = to_int(a), to_int(b)
        return a / b if op == "//" else a % b
    if op == "**":
        if is_z3(b):
            c = conc_of(z3.simplify(b))
            if is_z3(c):
                return EXP(to_real(b) * LOG(to_real(a)))
            b = c
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int):
            if b == 0:
                return 1
            r = a if not z3.is_bool(a) else to_int(a)
            for _ in range(abs(b) - 1):
                r = r * a
            return r if b > 0 else z3.RealVal(1) / to_real(r)
        if b == Fraction(1, 2):
            return sqrt(a)
        if b == Fraction(-1, 2):
            return z3.RealVal(1) / sqrt(a)
        return EXP(rv(b) * LOG(to_real(a)))
    a, b = to_real(a), to_real(b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "//":
        return FLOOR(a / b)
    if op == "%":
        return a - b * FLOOR(a / b)
    raise Unsupported(op)


def neg(a):
    if not is_z3(a):
        return -frac(a) if isinstance(a, (float, Fraction)) else -a
    return -(to_int(a) if z3.is_bool(a) else a)


def cmp(op, a, b):
    if not is_z3(a) and not is_z3(b):
        if isinstance(a, float):
            a = frac(a)
        if isinstance(b, float):
            b = frac(b)
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
    if (is_z3(a) and z3.is_bool(a) or isinstance(a, bool)) and \
       (is_z3(b) and z3.is_bool(b) or isinstance(b, bool)):
        a, b = to_bool(a), to_bool(b)
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        a, b = to_int(a), to_int(b)
    elif is_intlike(a) and is_intlike(b):
        a, b = to_int(a), to_int(b)
    else:
        a, b = to_real(a), to_real(b)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
            ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()


def land(*xs):
    out = []
    for x in xs:
        x = conc_of(x)
        if not is_z3(x):
            if not x:
                return False
            continue
        out.append(to_bool(x))
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def lor(*xs):
    out = []
    for x in xs:
        x = conc_of(x)
        if not is_z3(x):
            if x:
                return True
            continue
        out.append(to_bool(x))
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def lnot(x):
    x = conc_of(x)
    if not is_z3(x):
        return not x
    return z3.Not(to_bool(x))


def ite(c, a, b):
    c = conc_of(c)
    if not is_z3(c):
        return a if c else b
    if a is b:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    if not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b:
        return a
    ab = (is_z3(a) and z3.is_bool(a)) or isinstance(a, bool)
    bb = (is_z3(b) and z3.is_bool(b)) or isinstance(b, bool)
    if ab and bb:
        return z3.If(c, to_bool(a), to_bool(b))
    if is_intlike(a) and is_intlike(b):
        return z3.If(c, to_int(a), to_int(b))
    return z3.If(c, to_real(a), to_real(b))


def exp(a):
    if not is_z3(a):
        if a == 0:
            return 1
        return EXP(rv(a))
    a = to_real(a)
    if z3.is_app(a) and a.decl().eq(LOG):
        return a.arg(0)
    return EXP(a)


def log(a):
    if not is_z3(a):
        if a == 1:
            return 0
        return LOG(rv(a))
    a = to_real(a)
    if z3.is_app(a) and a.decl().eq(EXP):
        return a.arg(0)
    return LOG(a)


def sqrt(a):
    if not is_z3(a):
        f = frac(a)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
        return SQRT(rv(a))
    return SQRT(to_real(a))


def sin(a):
    if not is_z3(a) and a == 0:
        return 0
    return SIN(to_real(a))


def cos(a):
    if not is_z3(a) and a == 0:
        return 1
    return COS(to_real(a))


def absr(a):
    if not is_z3(a):
        return abs(a)
    if z3.is_bool(a):
        a = to_int(a)
    return z3.If(a >= 0, a, -a)


def rmin(a, b):
    return ite(cmp("<=", a, b), a, b)


def rmax(a, b):
    return ite(cmp(">=", a, b), a, b)


# ---------------------------------------------------------------- traversal
def consts_of(e, acc=None, seen=None):
    """Free 0-ary uninterpreted constants in order of first occurrence."""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(PI):
                acc.append(t)
        elif z3.is_app(t):
            stack.extend(reversed(t.children()))
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return acc


def contains(e, c):
    """Does constant (or any of a list) occur in e?"""
    ids = {x.get_id() for x in (c if isinstance(c, (list, tuple, set)) else [c])}
    if not is_z3(e):
        return False
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack.extend(t.children())
    return False


def decls_of(e):
    out, seen, stack = {}, set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                out.setdefault(d.name(), []).append(t)
            stack.extend(t.children())
    return out


def subst(e, pairs):
    if not is_z3(e):
        return e
    ps = []
    for a, b in pairs:
        if not is_z3(b):
            b = rv(b) if a.sort() == R else (to_int(b) if a.sort() == I else to_bool(b))
        elif a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        ps.append((a, b))
    return z3.substitute(e, *ps)


# ---------------------------------------------------------------- sums
class SumInfo:
    __slots__ = ("fn", "params", "v", "lo", "hi", "body")


SUMS = {}          # decl name -> SumInfo
_SUMKEY = {}
_keep = []


def mk_sum(lo, hi, fn):
    """sum_{v=lo}^{hi-1} fn(v) as a real term."""
    lo_c, hi_c = conc_of(lo), conc_of(hi)
    if not is_z3(lo_c) and not is_z3(hi_c):
        tot = 0
        for k in range(int(lo_c), int(hi_c)):
            tot = arith("+", tot, fn(k))
        return tot
    v = fresh("v", I)
    body = fn(v)
    return sum_from_body(lo, hi, v, body)


def norm_divmod(e):
    """(m*t + k) div m -> t + k div m  and  (m*t + k) mod m -> k mod m  for integer constants m > 0"""
    if not is_z3(e):
        return e
    subs, seen, st = [], set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            st.extend(t.children())
            if t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)):
                m = t.arg(1).as_long()
                num = z3.simplify(t.arg(0), som=True)
                if m <= 0:
                    continue
                q, k, ok = [], 0, True
                for a in (num.children() if z3.is_add(num) else [num]):
                    if z3.is_int_value(a):
                        k += a.as_long()
                    elif z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % m == 0:
                        c = a.arg(0).as_long() // m
                        rest = a.children()[1:]
                        f = rest[0]
                        for x in rest[1:]:
                            f = f * x
                        q.append(c * f if c != 1 else f)
                    else:
                        ok = False
                if ok and q:
                    r = z3.IntVal(k % m) if t.decl().kind() == z3.Z3_OP_MOD else z3.simplify(z3.Sum(q) + k // m)
                    subs.append((t, r))
    return z3.substitute(e, *subs) if subs else e


def lin1(d, v):
    """(c, e) with d == c*v + e, c = +-1 and e free of v (else None)"""
    d0, d1, d2 = (z3.substitute(d, (v, z3.IntVal(k))) for k in (0, 1, 2))
    c1, c2 = z3.simplify(d1 - d0, som=True), z3.simplify(d2 - d1, som=True)
    if not (z3.is_int_value(c1) and z3.is_int_value(c2)) or c1.as_long() != c2.as_long() or abs(c1.as_long()) != 1:
        return None
    c = c1.as_long()
    if contains(z3.simplify(d - d0 - c * v, som=True), v):
        return None
    return c, z3.simplify(d0)


def solve_eq(x, v):
    """e with x <-> v == e, for an integer equation linear in v with coefficient +-1 (else None)"""
    if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and z3.is_int(x.arg(0)) and contains(x, v)):
        return None
    r = lin1(x.arg(0) - x.arg(1), v)
    return None if r is None else z3.simplify(-r[1] if r[0] == 1 else r[1])


def bound_of(x, v):
    """("lo", e): x <-> v >= e; ("hi", e): x <-> v < e; None otherwise"""
    neg = False
    while z3.is_not(x):
        neg, x = not neg, x.arg(0)
    k = x.decl().kind() if z3.is_app(x) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_int(x.arg(0)) or not contains(x, v):
        return None
    d = x.arg(0) - x.arg(1)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        d, k = -d, {z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
    if neg:                      # not(d <= 0) <-> -d < 0
        d, k = -d, z3.Z3_OP_LT if k == z3.Z3_OP_LE else z3.Z3_OP_LE
    r = lin1(d, v)
    if r is None:
        return None
    c, e = r                     # c*v + e <= 0  (or < 0)
    if c == 1:
        return "hi", z3.simplify(-e + 1 if k == z3.Z3_OP_LE else -e)
    return "lo", z3.simplify(e if k == z3.Z3_OP_LE else e + 1)


def is_zero(e):
    return (z3.is_rational_value(e) or z3.is_int_value(e)) and (e.as_long() == 0 if z3.is_int_value(e) else e.numerator_as_long() == 0)


def sum_from_body(lo, hi, v, body):
    body = z3.simplify(norm_divmod(to_int(body) if is_intlike(body) else to_real(body)))
    srt = body.sort()
    c = conc_of(body)
    if not is_z3(c) and c == 0:
        return 0
    lo, hi = z3.simplify(to_int(lo)), z3.simplify(to_int(hi))
    if not contains(body, v):
        n = arith("-", hi, lo)
        return ite(cmp(">", n, 0), arith("*", n, body), 0)
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and is_zero(body.arg(2)):
        # conditions that do not depend on the summation index go outside
        g = body.arg(0)
        cs = list(g.children()) if z3.is_and(g) else [g]
        out = [x for x in cs if not contains(x, v)]
        for x in cs:
            e = solve_eq(x, v)
            if e is not None:
                # only one term: the index is determined
                rest = [z3.substitute(y, (v, e)) for y in cs if y is not x]
                return ite(z3.simplify(z3.And(lo <= e, e < hi, *rest)), z3.substitute(body.arg(1), (v, e)), 0)
        if out:
            dep = [x for x in cs if contains(x, v)]
            inner = z3.If(z3.And(*dep), body.arg(1), body.arg(2)) if dep else body.arg(1)
            return ite(z3.And(*out) if len(out) > 1 else out[0], sum_from_body(lo, hi, v, inner), 0)
    ps, seen = [], set()
    for e in (lo, hi, body):
        consts_of(e, ps, seen)
    ps = [p for p in ps if not p.eq(v)]
    canon = [z3.Const(f"$p{k}_{p.sort()}", p.sort()) for k, p in enumerate(ps)]
    V = z3.Int("$sv")
    sub = list(zip(ps, canon)) + [(v, V)]
    kb, kl, kh = (z3.substitute(e, *sub) for e in (body, lo, hi))
    key = (kb.get_id(), kl.get_id(), kh.get_id())
    if key not in _SUMKEY:
        _keep.extend([kb, kl, kh])
        info = SumInfo()
        name = f"SUM#{len(_SUMKEY)}"
        info.fn = z3.Function(name, *([c.sort() for c in canon] + [srt]))
        info.params, info.v, info.lo, info.hi, info.body = canon, V, kl, kh, kb
        SUMS[name] = info
        _SUMKEY[key] = info
    info = _SUMKEY[key]
    return info.fn(*ps) if ps else z3.Const(info.fn.name(), srt)


def sum_parts(t):
    """(v, lo, hi, body) of a SUM application, instantiated at its arguments."""
    info = SUMS.get(t.decl().name())
    if info is None:
        return None
    v = fresh("v", I)
    sub = [(p, t.arg(k)) for k, p in enumerate(info.params)] + [(info.v, v)]
    return (v, z3.substitute(info.lo, *sub), z3.substitute(info.hi, *sub),
            z3.substitute(info.body, *sub))


def is_sum(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in SUMS


def rewrite_fun(e, fmap, memo=None):
    """replace applications of the given function symbols (name -> callable on
    argument terms), also inside sum bodies"""
    memo = {} if memo is None else memo
    if not is_z3(e):
        return e
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = e
    if z3.is_app(e) and e.num_args() > 0:
        if is_sum(e):
            v, lo, hi, body = sum_parts(e)
            b2 = rewrite_fun(body, fmap, memo)
            if not b2.eq(body):
                r = sum_from_body(rewrite_fun(lo, fmap, memo), rewrite_fun(hi, fmap, memo), v, b2)
            else:
                ch = [rewrite_fun(c, fmap, memo) for c in e.children()]
                r = e.decl()(*ch)
        else:
            ch = [rewrite_fun(c, fmap, memo) for c in e.children()]
            nm = e.decl().name()
            if nm in fmap and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = fmap[nm](*ch)
                r = to_real(r) if e.sort() == R else to_int(r) if e.sort() == I else to_bool(r)
            elif any(not a.eq(b) for a, b in zip(ch, e.children())):
                r = z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)]) \
                    if False else e.decl()(*ch)
    elif z3.is_quantifier(e):
        n = e.num_vars()
        vs = [fresh("rq", e.var_sort(j)) for j in range(n)]
        b = z3.substitute_vars(e.body(), *reversed(vs))
        b2 = rewrite_fun(b, fmap, memo)
        r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, to_bool(b2)) if not b2.eq(b) else e
    memo[k] = (r, e)
    return r


def fun_apps(e, name):
    """applications of a function symbol inside e (including sum bodies)"""
    out, seen, st = [], set(), [e]
    while st:
        t = st.pop()
        if not is_z3(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().name() == name and t.num_args():
                out.append(t)
            if is_sum(t):
                _, lo, hi, body = sum_parts(t)
                st.append(body)
            st.extend(t.children())
    return out


# ---------------------------------------------------------------- derivatives
def diff(e, x, memo=None, funs=None):
    """Symbolic derivative of real term e w.r.t. real constant x.

    Conditionals are differentiated branch-wise (valid away from the measure
    zero switching set; their condition is kept).  `funs` may map a function
    declaration name to a callable(args)->term giving d f(args)/dx directly."""
    memo = {} if memo is None else memo
    funs = funs or {}
    e = to_real(e)
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = _diff(e, x, memo, funs)
    memo[k] = (r, e)
    return r


def _diff(e, x, memo, funs):
    D = lambda t: diff(t, x, memo, funs)
    if e.eq(x):
        return 1
    if not contains(e, x) and not funs:
        return 0
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return 0
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = 0
        for c in ch:
            r = arith("+", r, D(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = D(ch[0])
        for c in ch[1:]:
            r = arith("-", r, D(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        return neg(D(ch[0]))
    if k == z3.Z3_OP_MUL:
        r = 0
        for i, c in enumerate(ch):
            d = D(c)
            if not is_z3(d) and d == 0:
                continue
            for j, o in enumerate(ch):
                if j != i:
                    d = arith("*", d, o)
            r = arith("+", r, d)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        da, db = D(a), D(b)
        t1 = arith("/", da, b) if is_z3(da) or da != 0 else 0
        if not is_z3(db) and db == 0:
            return t1
        return arith("-", t1, arith("/", arith("*", a, db), b * b))
    if k == z3.Z3_OP_POWER:
        n = conc_of(ch[1])
        if is_z3(n):
            raise Unsupported("derivative of power")
        return arith("*", arith("*", n, arith("**", ch[0], n - 1)), D(ch[0]))
    if k == z3.Z3_OP_ITE:
        return ite(ch[0], D(ch[1]), D(ch[2]))
    if k == z3.Z3_OP_TO_REAL:
        return 0
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = e.decl().name()
        if nm in funs:
            return funs[nm](e)
        if nm in SUMS:
            v, lo, hi, body = sum_parts(e)
            if z3.is_int(body):
                return 0
            return sum_from_body(lo, hi, v, to_real(diff(body, x, None, funs)))
        if not contains(e, x):
            return 0
        if nm == "exp":
            return arith("*", e, D(ch[0]))
        if nm == "log":
            return arith("/", D(ch[0]), ch[0])
        if nm == "sin":
            return arith("*", COS(ch[0]), D(ch[0]))
        if nm == "cos":
            return arith("*", -SIN(ch[0]), D(ch[0]))
        if nm == "sqrt":
            return arith("/", D(ch[0]), 2 * e)
        if nm == "atan2":
            y, xx = ch
            num = arith("-", arith("*", xx, D(y)), arith("*", y, D(xx)))
            return arith("/", num, xx * xx + y * y)
    raise Unsupported(f"derivative of {e.decl()}")


# ---------------------------------------------------------------- numeric evaluation
class NumFail(Exception):
    pass


class NEnv:
    """A (partial, randomly completed) interpretation used to refute VCs."""

    def __init__(self, rng, consts=None, hints=None):
        self.rng = rng
        self.c = dict(consts or {})     # name -> value
        self.f = {}                     # (name, args) -> value
        self.hints = hints or {}        # name prefix -> callable(rng)
        self.mp = None                  # mpmath: evaluate with 50 digits

    def precise(self):
        """the same interpretation, evaluated with 50 digits (missing values raise)"""
        import mpmath
        mpmath.mp.dps = 50
        e = NEnv(None, {k: (mpmath.mpf(v) if isinstance(v, float) else v) for k, v in self.c.items()}, {})
        e.f = {k: (mpmath.mpf(v) if isinstance(v, float) else v) for k, v in self.f.items()}
        e.mp = mpmath
        return e

    def const(self, t):
        n = t.decl().name()
        if n not in self.c:
            self.c[n] = self.draw(n, t.sort())
        return self.c[n]

    def draw(self, n, sort):
        if self.mp:
            raise NumFail("value not drawn before")
        base = n.split("!")[0]
        if base in self.hints:
            return self.hints[base](self.rng)
        if sort == I:
            return self.rng.randint(0, 4)
        if sort == B:
            return self.rng.random() < 0.5
        return self.rng.choice([self.rng.uniform(-2, 2), self.rng.uniform(0.1, 2),
                                self.rng.uniform(0.1, 2)])

    def fun(self, t, args):
        n = t.decl().name()
        key = (n, tuple(round(a, 12) if isinstance(a, float) else round(float(a), 12)
                        if self.mp and isinstance(a, self.mp.mpf) else a for a in args))
        if key not in self.f:
            self.f[key] = self.draw(n, t.sort())
        return self.f[key]


def neval(e, env, memo=None):
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = _neval(e, env, memo)
    memo[k] = (r, e)
    return r


def _neval(e, env, memo):
    ev = lambda t: neval(t, env, memo)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        if env.mp:
            return env.mp.mpf(e.numerator_as_long()) / e.denominator_as_long()
        return e.numerator_as_long() / e.denominator_as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_quantifier(e):
        # bounded evaluation of quantified hypotheses over small ints
        if any(e.var_sort(i) != I for i in range(e.num_vars())):
            raise NumFail("quantifier over reals")
        import itertools
        vals = []
        for tup in itertools.product(range(-1, 6), repeat=e.num_vars()):
            b = z3.substitute_vars(e.body(), *[z3.IntVal(x) for x in reversed(tup)])
            vals.append(neval(b, env, {}))
        return all(vals) if e.is_forall() else any(vals)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == "pi":
            return +env.mp.pi if env.mp else math.pi
        if n in SUMS:
            v, lo, hi, body = sum_parts(e)
            a, b = ev(lo), ev(hi)
            if b - a > 60:
                raise NumFail("long sum")
            tot = 0 if e.sort() == I else 0.0
            for j in range(int(a), int(b)):
                tot += neval(z3.substitute(body, (v, z3.IntVal(j))), env, {})
            return tot
        if not ch:
            return env.const(e)
        a = [ev(c) for c in ch]
        math = env.mp or globals()["math"]
        if n == "log" and not a[0] > 0 or n == "sqrt" and a[0] < 0:
            raise NumFail(n)
        try:
            if n == "exp":
                return math.exp(a[0])
            if n == "log":
                return math.log(a[0])
            if n == "sin":
                return math.sin(a[0])
            if n == "cos":
                return math.cos(a[0])
            if n == "sqrt":
                return math.sqrt(a[0])
            if n == "atan2":
                return math.atan2(a[0], a[1])
            if n == "floorR":
                return math.floor(a[0])
        except (ValueError, OverflowError) as x:
            raise NumFail(str(x))
        return env.fun(e, a)
    if k == z3.Z3_OP_ITE:
        return ev(ch[1]) if ev(ch[0]) else ev(ch[2])
    if k == z3.Z3_OP_AND:
        return all(ev(c) for c in ch)
    if k == z3.Z3_OP_OR:
        return any(ev(c) for c in ch)
    if k == z3.Z3_OP_NOT:
        return not ev(ch[0])
    if k == z3.Z3_OP_IMPLIES:
        return (not ev(ch[0])) or ev(ch[1])
    a = [ev(c) for c in ch]
    if k == z3.Z3_OP_ADD:
        return sum(a)
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r -= x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in a:
            r *= x
        return r
    if k == z3.Z3_OP_DIV:
        if a[1] == 0:
            raise NumFail("div0")
        return a[0] / a[1]
    if k == z3.Z3_OP_IDIV:
        if a[1] == 0:
            raise NumFail("div0")
        return a[0] // a[1]
    if k == z3.Z3_OP_MOD:
        if a[1] == 0:
            raise NumFail("div0")
        return a[0] % a[1]
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if k in (z3.Z3_OP_TO_REAL,):
        return env.mp.mpf(a[0]) if env.mp else a[0]
    if k == z3.Z3_OP_TO_INT:
        return int(math.floor(a[0]))
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if k == z3.Z3_OP_LT:
        return a[0] < a[1]
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if k == z3.Z3_OP_GT:
        return a[0] > a[1]
    if k == z3.Z3_OP_EQ:
        if isinstance(a[0], float) or isinstance(a[1], float) or env.mp:
            m = max(1.0, abs(a[0]), abs(a[1]))
            return abs(a[0] - a[1]) <= 1e-7 * m
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return all(a[i] != a[j] for i in range(len(a)) for j in range(i))
    raise NumFail(f"cannot evaluate {e.decl()}")
