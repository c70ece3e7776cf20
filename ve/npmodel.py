"""Model of the numpy operations the repository uses, on arrays of symbolic size.

Floats are reals, integer dtypes are mathematical integers (listed as
assumptions in the evidence).  Anything not modelled raises Unsupported, which
makes the function *not proved* (never silently accepted)."""
import math

import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, is_z3, conc_of, arith, cmp, land, lor, lnot, ite
from .state import (Partial, Nd, Buf, Rec, SList, SDict, Seq, Obj, Name, code_of, Container, TR,
                    ident, full_inv, kind_sort, asconc_shape, dim_eq)


class PyRaise(Exception):
    """a modelled python exception"""
    def __init__(self, etype, msg=""):
        self.etype, self.msg = etype, msg
        super().__init__(f"{etype}: {msg}")


class Ctx:
    """hooks installed by the interpreter"""
    interp = None


def CX():
    return Ctx.interp


def token():
    c = CX()
    if c is None:
        return 0
    pc = c.pc
    return (len(pc), pc[-1].get_id() if pc and is_z3(pc[-1]) else 0,
            sum(h.get_id() for h in pc if is_z3(h)), len(c.facts))


class DType:
    width = True        # False: the type of a modelled array, whose width is not known

    def __init__(self, name, kind, fields=None):
        self.name, self.kind, self.fields = name, kind, fields

    def __repr__(self):
        return f"dtype({self.name})"


DT = {n: DType(n, "real") for n in ("float64", "float32", "float", "float_")}
DT.update({n: DType(n, "int") for n in ("int64", "int32", "int16", "uint8", "int", "int_", "int8", "uint32", "uintp", "uint64")})
DT.update({n: DType(n, "bool") for n in ("bool", "bool_")})
DT["float64"].name = "float64"


def dtype_of(d, default="float64"):
    if d is None:
        return DT[default]
    if isinstance(d, DType):
        return d
    if isinstance(d, str):
        m = {"<f4": "float32", "f4": "float32", "<f8": "float64", "f8": "float64", "<i4": "int32",
             "i4": "int32", "<i2": "int16", "i8": "int64", "d": "float64", "i": "int32", "u1": "uint8",
             "O": "O"}
        n = m.get(d, m.get(d.lstrip("<=|>"), d))
        n = {"?": "bool", "f": "float32", "i2": "int16", "b1": "bool"}.get(n, n)
        if n in DT:
            return DT[n]
    if isinstance(d, tuple) and tuple(d) == ("btype", "bool"):
        return DT["bool"]
    if d is float:
        return DT["float64"]
    if d is int:
        return DT["int64"]
    if d is bool:
        return DT["bool"]
    raise Unsupported(f"dtype {d!r}")


# ------------------------------------------------------------------ arrays
def _key(ix):
    return tuple(i.get_id() if is_z3(i) else i for i in ix)


def mk_nd(shape, at, kind="real", name=None):
    memo = {}

    def fn(ix):
        k = (_key(ix), token())
        r = memo.get(k)
        if r is None:
            r = (at(*ix), ix)
            memo[k] = r
        return r[0]
    b = Buf(len(shape), fn, kind, name)
    return Nd(shape, b, ident, full_inv(len(shape)))


def snap(nd):
    fn, fwd = nd.buf.fn, nd.fwd
    return lambda *ix: fn(fwd(tuple(ix)))


def scalar_kind(x):
    if is_z3(x):
        return "bool" if z3.is_bool(x) else "int" if z3.is_int(x) else "real"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    return "real"


def is_scalar(x):
    return is_z3(x) or isinstance(x, (bool, int, float, Fraction))


def as_nd(v):
    if isinstance(v, Nd):
        return v
    if is_scalar(v):
        return mk_nd((), lambda: v, scalar_kind(v))
    if isinstance(v, Obj) and callable(v.a.get("__int__")):
        return as_nd(v.a["__int__"]())
    if isinstance(v, SList):
        v = v.v
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return mk_nd((0,), lambda i: T.rv(0))
        items = [as_nd(x) for x in v]
        shp = items[0].shape
        for it in items[1:]:
            if len(it.shape) != len(shp):
                raise Unsupported("ragged array")
            for a, b in zip(it.shape, shp):
                if not same_dim(a, b):
                    raise Unsupported("ragged array")
        ats = [snap(it) for it in items]
        kinds = {it.kind for it in items}
        kind = "real" if "real" in kinds else "int" if "int" in kinds else "bool"

        def at(i, *r):
            i = conc_of(i)
            if not is_z3(i):
                return ats[i](*r)
            out = ats[-1](*r)
            for k in range(len(ats) - 2, -1, -1):
                out = ite(cmp("==", i, k), ats[k](*r), out)
            return out
        return mk_nd((len(items),) + shp, at, kind)
    if isinstance(v, Seq):
        i0 = T.fresh("seqprobe", T.I)
        with CX().assuming(cmp(">=", i0, 0), cmp("<", i0, v.n)):
            probe = as_nd(v.at(i0))
        for s in probe.shape:
            if is_z3(s) and T.contains(s, i0):
                raise Unsupported("ragged symbolic array")
        return mk_nd((v.n,) + probe.shape, lambda i, *r: snap(as_nd(v.at(i)))(*r), probe.kind)
    raise Unsupported(f"array from {type(v).__name__}")


def same_dim(a, b):
    r = dim_eq(a, b)
    if r is None:
        return CX().valid(cmp("==", a, b))
    return r


def need_same(a, b):
    """numpy raises ValueError on a mismatch"""
    if same_dim(a, b):
        return True
    c = CX()
    if c.lenient:
        return True
    if c.branch(cmp("==", a, b)):
        return True
    for x in (a, b):
        if is_z3(x) and c.maybe(cmp("==", x, 1)):
            raise Unsupported("size-1 broadcast of symbolic dimension")
    raise PyRaise("ValueError", "shape mismatch")


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if not is_z3(x) and x == 1:
                continue
            if not is_z3(d) and d == 1:
                d = x
                continue
            need_same(d, x)
            if is_z3(d) and not is_z3(x):
                d = x
        out.append(d)
    return tuple(out)


def bidx(shape, ix):
    """index tuple into an operand of `shape` given the broadcast index"""
    k = len(ix) - len(shape)
    return tuple(0 if (not is_z3(s) and s == 1) else i for s, i in zip(shape, ix[k:]))


def ew(fn, *args, kind=None):
    """elementwise with broadcasting; scalars stay scalars"""
    if all(is_scalar(a) for a in args):
        return fn(*args)
    if all(is_scalar(a) or (isinstance(a, Nd) and a.ndim == 0) for a in args):
        return fn(*[a.at() if isinstance(a, Nd) else a for a in args])
    nds = [as_nd(a) for a in args]
    shp = bshape([a.shape for a in nds])
    ats = [(snap(a), a.shape) for a in nds]
    if kind is None:
        ks = {a.kind for a in nds}
        kind = "real" if "real" in ks else "int" if "int" in ks else "bool"

    def at(*ix):
        return fn(*[f(*bidx(s, ix)) for f, s in ats])
    return mk_nd(shp, at, kind)


def elementwise(fn, kind=None):
    def f(*a, **k):
        k.pop("dtype", None)
        out = k.pop("out", None)
        if k:
            raise Unsupported(f"kwargs {list(k)}")
        r = ew(fn, *a, kind=kind)
        if out is not None:
            assign(out, r)
            return out
        return r
    return f


BIN = {"+": "+", "-": "-", "*": "*", "/": "/", "//": "//", "%": "%", "**": "**"}


def binop(op, a, b):
    if op == "@":
        return matmul(a, b)
    if op in ("&", "|", "^"):
        def f(x, y):
            if scalar_kind(x) == "bool" and scalar_kind(y) == "bool":
                if op == "&":
                    return land(x, y)
                if op == "|":
                    return lor(x, y)
                return cmp("!=", x, y)
            if not is_z3(x) and not is_z3(y):
                return {"&": x & y, "|": x | y, "^": x ^ y}[op]
            raise Unsupported("bitwise op on ints")
        return ew(f, a, b)
    kind = "real" if op == "/" else None

    def g(x, y):
        if getattr(CX(), "model_nan", False) and any(isinstance(v, float) and v != v or is_z3(v) and v.eq(T.NAN) for v in (x, y)):
            return T.NAN
        for v in (x, y):
            if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                raise Unsupported("non-finite arithmetic")
        if op in "+-*" and scalar_kind(x) == "bool" and scalar_kind(y) == "bool" and (is_z3(x) or is_z3(y)):
            x, y = T.to_int(x), T.to_int(y)
        if op == "%" and (is_z3(x) or is_z3(y)) and T.is_intlike(x) and T.is_intlike(y):
            c = CX()
            if c is not None and is_z3(y) and c.valid(land(cmp(">=", x, 0), cmp("<=", x, y), cmp(">", y, 0))):
                return ite(cmp("==", x, y), 0, x)        # wrap-around by one
        return arith(op, x, y)
    return ew(g, a, b, kind=kind)


def compare(op, a, b):
    if isinstance(a, Name) or isinstance(b, Name):
        return cmp(op, code_of(a), code_of(b))

    def f(x, y):
        inf = float("inf")
        if isinstance(x, float) and x != x or isinstance(y, float) and y != y:
            return op == "!="
        if isinstance(x, float) and x in (inf, -inf) or isinstance(y, float) and y in (inf, -inf):
            if not is_z3(x) and not is_z3(y):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            s = x if isinstance(x, float) else y
            big = (s == inf) == (s is y)        # finite OP +inf  or -inf OP finite
            return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
        return cmp(op, x, y)
    return ew(f, a, b, kind="bool")


def unary(op, a):
    if op == "-":
        return ew(lambda x: -x if isinstance(x, float) else T.neg(x), a)
    if op == "~":
        def f(x):
            if scalar_kind(x) == "bool":
                return lnot(x)
            return arith("-", T.neg(x), 1)
        return ew(f, a)
    if op == "+":
        return a
    raise Unsupported(op)


# ------------------------------------------------------------------ indexing
def norm_int(k, n):
    """python index -> 0 <= k < n or IndexError"""
    c = CX()
    k = conc_of(k)
    if not is_z3(k):
        k = int(k)
        if k < 0:
            k = arith("+", n, k)
    else:
        if not c.valid(cmp(">=", k, 0)):
            if c.branch(cmp(">=", k, 0)):
                pass
            else:
                k = arith("+", k, n)
    ok = land(cmp(">=", k, 0), cmp("<", k, n))
    if not c.valid(ok):
        if not c.branch(ok):
            raise PyRaise("IndexError", "index out of bounds")
    return conc_of(k)


def _clamp(x, n, default):
    c = CX()
    if x is None:
        return default
    x = conc_of(x)
    if not is_z3(x):
        x = int(x)
        if x < 0:
            y = arith("+", n, x)
            if c.valid(cmp(">=", y, 0)):
                return conc_of(T.simp(y)) if not is_z3(y) else y
            return T.rmax(y, 0)
        if c.valid(cmp("<=", x, n)):
            return x
        return T.rmin(x, n)
    if c.valid(cmp(">=", x, 0)):
        pass
    else:
        x = ite(cmp(">=", x, 0), x, T.rmax(arith("+", x, n), 0))
    if c.valid(cmp("<=", x, n)):
        return x
    return T.rmin(x, n)


def norm_slice(s, n):
    step = 1 if s.step is None else conc_of(s.step)
    if is_z3(step):
        raise Unsupported("symbolic slice step")
    step = int(step)
    c = CX()
    if step == 1:
        a = _clamp(s.start, n, 0)
        b = _clamp(s.stop, n, n)
        ln = arith("-", b, a)
        if is_z3(ln):
            ln = T.simp(ln)
        if is_z3(ln):
            if not c.valid(cmp(">=", ln, 0)):
                ln = T.rmax(ln, 0)
        else:
            ln = max(ln, 0)
        return a, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return arith("-", n, 1), n, -1
    if step > 1:
        a = _clamp(s.start, n, 0)
        b = _clamp(s.stop, n, n)
        ln = arith("//", arith("+", arith("-", b, a), step - 1), step)
        if is_z3(ln):
            if not c.valid(cmp(">=", ln, 0)):
                ln = T.rmax(ln, 0)
        else:
            ln = max(0, ln)
        return a, ln, step
    raise Unsupported("slice step")


def expand_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    nreal = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Nd) and k.kind == "bool":
            nreal += k.ndim
        else:
            nreal += 1
    if any(k is Ellipsis for k in key):
        j = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:j] + (slice(None),) * (ndim - nreal) + key[j + 1:]
    else:
        key = key + (slice(None),) * (ndim - nreal)
    return key


def is_adv(k):
    return isinstance(k, (Nd, SList, Seq)) and not (isinstance(k, Nd) and k.ndim == 0)


def basic_view(nd, key):
    """returns (shape, fwd, inv) for basic indexing"""
    key = expand_key(key, nd.ndim)
    maps = []        # per source dim: ("i", k) or ("s", start, len, step, outpos)
    shape = []
    d = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        if d >= nd.ndim:
            raise PyRaise("IndexError", "too many indices for array")
        if isinstance(k, Nd) and k.ndim == 0:
            k = k.at()
        if isinstance(k, slice):
            a, ln, st = norm_slice(slice(*[x.at() if isinstance(x, Nd) else x for x in (k.start, k.stop, k.step)]),
                                   nd.shape[d])
            maps.append(("s", a, ln, st, len(shape)))
            shape.append(ln)
        elif is_scalar(k):
            if scalar_kind(k) == "real":
                raise PyRaise("IndexError", "float index")
            maps.append(("i", norm_int(k, nd.shape[d])))
        else:
            raise Unsupported(f"index {k!r}")
        d += 1
    if d > nd.ndim:
        raise PyRaise("IndexError", "too many indices")
    nout = len(shape)

    def fwd(ix):
        out = []
        for m in maps:
            if m[0] == "i":
                out.append(m[1])
            else:
                _, a, ln, st, p = m
                out.append(arith("+", a, arith("*", st, ix[p])))
        return tuple(out)

    def inv(r):
        conds, out = [], [0] * nout
        for x, m in zip(r, maps):
            if m[0] == "i":
                conds.append(cmp("==", x, m[1]))
            else:
                _, a, ln, st, p = m
                if st == 1:
                    out[p] = arith("-", x, a) if not (not is_z3(a) and a == 0) else x
                elif st == -1:
                    out[p] = arith("-", a, x)
                else:
                    out[p] = arith("//", arith("-", x, a), st)
                    conds.append(cmp("==", arith("%", arith("-", x, a), st), 0))
                conds.append(cmp(">=", out[p], 0))
                conds.append(cmp("<", out[p], ln))
        return land(*conds), tuple(out)
    return tuple(shape), fwd, inv


def view(nd, key):
    shape, f, g = basic_view(nd, key)
    ofwd, oinv = nd.fwd, nd.inv

    def fwd(ix):
        return ofwd(f(ix))

    inv = None
    if oinv is not None:
        def inv(r):
            c1, ix = oinv(r)
            c2, jx = g(ix)
            return land(c1, c2), jx
    return Nd(shape, nd.buf, fwd, inv)


def getitem(nd, key):
    if isinstance(key, SList) and not isinstance(key.v, (list, Seq)):
        raise Unsupported("index")
    ks = key if isinstance(key, tuple) else (key,)
    if not any(is_adv(k) for k in ks):
        r = view(nd, key)
        if r.ndim == 0:
            return r.at()
        return r
    return fancy_get(nd, key)


def setitem(nd, key, val):
    ks = key if isinstance(key, tuple) else (key,)
    if not any(is_adv(k) for k in ks):
        assign(view(nd, key), val)
        return
    fancy_set(nd, key, val)


def cast_to(kind, v):
    k = scalar_kind(v)
    if kind == "real" and k != "real":
        return T.to_real(v) if is_z3(v) else v
    if kind == "int" and k == "real":
        return trunc(v)
    if kind == "bool" and k != "bool":
        return cmp("!=", v, 0)
    return v


def assign(sub, val):
    """sub[...] = val"""
    v = as_nd(val)
    # numpy allows dropping leading length-1 dims of the value
    vs = v.shape
    if len(vs) > len(sub.shape):
        if not all((not is_z3(x)) and x == 1 for x in vs[:len(vs) - len(sub.shape)]):
            raise PyRaise("ValueError", "could not broadcast")
        drop = len(vs) - len(sub.shape)
        f0 = snap(v)
        v = mk_nd(vs[drop:], lambda *ix: f0(*([0] * drop + list(ix))), v.kind)
        vs = v.shape
    for a, b in zip(sub.shape[len(sub.shape) - len(vs):], vs):
        if not is_z3(b) and b == 1:
            continue
        need_same(a, b)
    f = snap(v)
    old = sub.buf.fn
    if sub.inv is None:
        raise Unsupported("assignment through a non-invertible view")
    inv, kind = sub.inv, sub.buf.kind
    memo = {}
    sh = sub.shape

    def fn(r):
        k = (_key(r), token())
        if k in memo:
            return memo[k][0]
        c, ix = inv(r)
        cc = conc_of(c)
        if is_z3(cc):
            s = CX().decide(cc)
            if s is not None:
                cc = s
        if not is_z3(cc) and not cc:
            out = old(r)
        else:
            with CX().assuming(cc):
                new = cast_to(kind, f(*bidx(vs, ix)))
            if not is_z3(cc):
                out = new
            else:
                out = ite(cc, new, old(r))
        memo[k] = (out, r)
        return out
    sub.buf.set(fn)


# ---- boolean masks: a Filter abstraction (count, selection, rank)
class Filt:
    """positions i in [0,n) with p(i), in increasing order"""
    def __init__(self, n, p):
        self.n, self.p = n, p
        c = CX()
        self.cnt = T.fresh("cnt", T.I)
        self.sel = T.fresh_fun("sel", T.I, T.I)
        self.rank = T.fresh_fun("rank", T.I, T.I)
        k, i = z3.Int("fk"), z3.Int("fi")
        sel, rank, cnt = self.sel, self.rank, self.cnt
        nn = T.to_int(n)
        pi = T.to_bool(p(i))
        c.no_bound(pi)
        c.fact(z3.Implies(nn >= 0, z3.And(cnt >= 0, cnt <= nn)))
        c.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt),
               z3.And(0 <= sel(k), sel(k) < nn, T.to_bool(p(sel(k))), rank(sel(k)) == k)),
               patterns=[sel(k)]))
        c.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn, pi),
               z3.And(0 <= rank(i), rank(i) < cnt, sel(rank(i)) == i)), patterns=[rank(i)]))
        k2 = z3.Int("fk2")
        c.fact(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < cnt), sel(k) < sel(k2)),
               patterns=[z3.MultiPattern(sel(k), sel(k2))]))


_filters = {}


def filt(n, p):
    """the same mask gives the same filter"""
    v = z3.Int("$fv")
    t = T.to_bool(p(v))
    t = z3.simplify(t)
    key = (t.get_id(), T.to_int(n).get_id())
    c = CX()
    tab = c.filters
    if key not in tab:
        tab[key] = (Filt(n, p), t)
    return tab[key][0]


def mask_key(m):
    """identity of a many-dimensional mask: its size and its value at generic indices"""
    vs = [z3.Int(f"$mk{j}") for j in range(m.ndim)]
    t = z3.simplify(T.to_bool(snap(m)(*vs)))
    return t, tuple(z3.simplify(T.to_int(d)) for d in m.shape)


def mask_select(nd, m):
    """a[mask] with a many-dimensional mask: a vector whose order is not modelled; it can only be assigned through the same mask"""
    if m.ndim != nd.ndim:
        raise Unsupported("multi-dimensional mask")
    for a, b in zip(m.shape, nd.shape):
        need_same(a, b)
    cnt = T.loose("cnt", T.I)
    CX().fact(cnt >= 0)

    def no(*ix):
        raise Unsupported("element of a selection by a multi-dimensional mask")
    r = mk_nd((cnt,), no, nd.kind)
    r.tag = ("mask_select", mask_key(m), snap(nd))
    return r


def fancy_get(nd, key):
    key = expand_key(key, nd.ndim)
    adv = [j for j, k in enumerate(key) if is_adv(k)]
    arrs = [as_nd(key[j]) for j in adv]
    if len(adv) == 1 and arrs[0].kind == "bool":
        m = arrs[0]
        if m.ndim != 1:
            return mask_select(nd, m)
        pos = adv[0]
        if any(k is None for k in key):
            raise Unsupported("newaxis with mask")
        need_same(m.shape[0], nd.shape[pos])
        mat = snap(m)
        n = conc_of(m.shape[0])
        cvals = None
        if not is_z3(n):
            vals = [conc_of(T.simp(mat(i))) for i in range(n)]
            if all(not is_z3(v) for v in vals):
                cvals = [i for i in range(n) if vals[i]]
        if cvals is not None:
            idx = as_nd([*cvals]) if cvals else mk_nd((0,), lambda i: 0, "int")
        else:
            fl = filt(n, mat)
            idx = mk_nd((fl.cnt,), lambda i: fl.sel(T.to_int(i)), "int")
        rest = list(key)
        rest[pos] = slice(None)
        base = view(nd, tuple(rest))
        # position of the masked axis in the output
        op = sum(1 for k in rest[:pos] if not is_scalar(k))
        f, ia = snap(base), snap(idx)
        shp = base.shape[:op] + idx.shape + base.shape[op + 1:]
        r = mk_nd(shp, lambda *ix: f(*(ix[:op] + (ia(ix[op]),) + ix[op + 1:])), nd.kind)
        r.tag = ("masked", m)
        return r
    if any(a.kind == "bool" for a in arrs):
        raise Unsupported("mixed mask indexing")
    if any(k is None for k in key):
        raise Unsupported("newaxis with fancy index")
    shp = bshape([a.shape for a in arrs])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    # scalars mixed with advanced: numpy treats them as advanced too
    rest = list(key)
    for j in adv:
        rest[j] = slice(None)
    scal = [j for j, k in enumerate(rest) if is_scalar(k)]
    if scal and not (contiguous and all(j < adv[0] or j > adv[-1] for j in scal)):
        raise Unsupported("mixed scalar/fancy")
    base = view(nd, tuple(rest))
    outpos = [sum(1 for k in rest[:j] if not is_scalar(k)) for j in adv]
    if not contiguous:
        raise Unsupported("non-contiguous fancy indices")
    if scal and any(not is_z3(0) and j < adv[0] for j in scal) and any(j > adv[-1] for j in scal):
        raise Unsupported("mixed scalar/fancy")
    ats = [(snap(a), a.shape) for a in arrs]
    f = snap(base)
    o0, m = outpos[0], len(shp)
    dims = [base.shape[o] for o in outpos]

    def at(*ix):
        bi = ix[o0:o0 + m]
        jj = []
        for (g, s), n in zip(ats, dims):
            q = g(*bidx(s, bi))
            q = conc_of(q)
            if not is_z3(q):
                q = int(q)
                q = arith("+", n, q) if q < 0 else q
            elif not CX().valid(cmp(">=", q, 0)):
                q = ite(cmp(">=", q, 0), q, arith("+", q, n))
            jj.append(q)
        return f(*(ix[:o0] + tuple(jj) + ix[o0 + m:]))
    oshape = base.shape[:o0] + shp + base.shape[o0 + len(adv):]
    # bounds: numpy raises IndexError
    ws = [T.fresh("bi", T.I) for _ in shp]
    c = CX()
    inr = [land(cmp(">=", w, 0), cmp("<", w, s)) for w, s in zip(ws, shp)]
    for (g, s), n in zip(ats, dims):
        with c.assuming(*inr):
            q = g(*bidx(s, tuple(ws)))
            ok = land(cmp(">=", q, T.neg(n)), cmp("<", q, n))
            if not c.valid(ok):
                c.soft_bound(ok)
    return mk_nd(oshape, at, nd.kind)


def fancy_set(nd, key, val):
    key = expand_key(key, nd.ndim)
    adv = [j for j, k in enumerate(key) if is_adv(k)]
    if len(adv) > 1 and not any(k is None for k in key):
        return scatter(nd, key, adv, val)
    if len(adv) != 1 or any(k is None for k in key):
        raise Unsupported("fancy assignment")
    pos = adv[0]
    m = as_nd(key[pos])
    rest = list(key)
    rest[pos] = slice(None)
    base = view(nd, tuple(rest))
    op = sum(1 for k in rest[:pos] if not is_scalar(k))
    if base.inv is None:
        raise Unsupported("assignment through non-invertible view")
    old, inv, kind = nd.buf.fn, base.inv, nd.buf.kind
    v = as_nd(val)
    f = snap(v) if v.tag is None or v.tag[0] != "mask_select" else None
    vs = v.shape
    if m.kind == "bool":
        if m.ndim > 1:
            if base.ndim != m.ndim:
                raise Unsupported("mask rank")
            ma = snap(m)
            g2 = lambda *ix: f()
            if v.ndim != 0:
                if not (isinstance(val, Nd) and val.tag and val.tag[0] == "mask_select"):
                    raise Unsupported("masked assignment of array through 2-d mask")
                (t1, d1), (t2, d2) = mask_key(m), val.tag[1]
                if not (t1.eq(t2) and len(d1) == len(d2) and all(x.eq(y) for x, y in zip(d1, d2))):
                    raise Unsupported("masked assignment with another mask")
                g2 = val.tag[2]

            def fn2(r):
                c, ix = inv(r)
                return ite(land(c, ma(*ix)), cast_to(kind, g2(*ix)), old(r))
            nd.buf.set(fn2)
            return
        need_same(m.shape[0], base.shape[op])
        ma = snap(m)
        n = m.shape[0]
        sub_shape = None
        if v.ndim >= 1 and len(vs) >= base.ndim - op and not (not is_z3(vs[len(vs) - (base.ndim - op)]) and vs[len(vs) - (base.ndim - op)] == 1):
            fl = filt(n, ma)
            need_same(fl.cnt, vs[len(vs) - (base.ndim - op)])
            rk = fl.rank
        else:
            rk = None

        def fn(r):
            c, ix = inv(r)
            cc = land(c, ma(ix[op]))
            jx = tuple(ix)
            if rk is not None:
                jx = ix[:op] + (rk(T.to_int(ix[op])),) + ix[op + 1:]
            cc = conc_of(T.simp(cc)) if is_z3(cc) else cc
            if not is_z3(cc) and not cc:
                return old(r)
            return ite(cc, cast_to(kind, f(*bidx(vs, jx[len(jx) - len(vs):]))), old(r))
        nd.buf.set(fn)
        return
    # integer index array: last write wins; require distinct indices or scalar value
    n = conc_of(m.shape[0]) if m.ndim == 1 else None
    if m.ndim == 1 and n is not None and not is_z3(n):
        ma = snap(m)
        for i in range(n):
            kk = list(rest)
            kk[pos] = ma(i)
            if v.ndim == 0 or len(vs) < base.ndim - op:
                vi = v
            elif not is_z3(vs[len(vs) - (base.ndim - op)]) and vs[len(vs) - (base.ndim - op)] == 1:
                vi = getitem(v, tuple([slice(None)] * (len(vs) - (base.ndim - op)) + [0]))
            else:
                vi = getitem(v, tuple([slice(None)] * (len(vs) - (base.ndim - op)) + [i]))
            setitem(nd, tuple(kk), vi)
        return
    if m.ndim == 1:
        return scatter(nd, key, adv, val)
    raise Unsupported("fancy assignment")


def scatter(nd, key, adv, val):
    """a[.., i0[k], i1[k], ..] = v[k] for vectors of indices: a location holds the value of the last k that names it.  mem(x) = some k names
    location x, pos(x) = the last such k"""
    arrs = [as_nd(key[j]) for j in adv]
    if any(a.ndim != 1 or a.kind != "int" for a in arrs) or adv != list(range(adv[0], adv[-1] + 1)):
        raise Unsupported("fancy assignment")
    rest = list(key)
    for j in adv:
        rest[j] = slice(None)
    base = view(nd, tuple(rest))
    op, na = sum(1 for k in rest[:adv[0]] if not is_scalar(k)), len(adv)
    if base.inv is None:
        raise Unsupported("assignment through non-invertible view")
    old, inv, kind = nd.buf.fn, base.inv, nd.buf.kind
    v = as_nd(val)
    f, vs = snap(v), v.shape
    n = arrs[0].shape[0]
    for a in arrs[1:]:
        need_same(n, a.shape[0])
    tail = base.ndim - op - na              # dimensions after the indexed ones
    if len(vs) > tail and not (not is_z3(vs[len(vs) - tail - 1]) and vs[len(vs) - tail - 1] == 1):
        need_same(vs[len(vs) - tail - 1], n)
    c = CX()
    gs = [snap(a) for a in arrs]
    dims = [base.shape[op + q] for q in range(na)]

    def ind(q, k):
        x = T.to_int(gs[q](k))
        return x
    w = T.fresh_fun("pos", *([T.I] * na + [T.I]))
    mem = T.fresh_fun("mem", *([T.I] * na + [T.B]))
    k, xs = z3.Int("gk"), [z3.Int(f"gx{q}") for q in range(na)]
    nn = T.to_int(n)
    kk = T.fresh("bi", T.I)
    with c.assuming(kk >= 0, kk < nn):
        neg = []
        for q in range(na):
            x = ind(q, kk)
            neg.append(not c.valid(x >= 0))         # otherwise: counted from the end
    at = lambda t: [(lambda x: z3.If(x >= 0, x, x + T.to_int(dims[q])) if neg[q] else x)(ind(q, t)) for q in range(na)]
    mk = at(k)
    pat = []
    for x in mk:
        if not pat:
            p = _subpat(x, k)
            pat = [p] if p is not None else []
    c.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nn), z3.And(mem(*mk), w(*mk) >= k)), patterns=pat))
    c.fact(z3.ForAll(xs, z3.Implies(mem(*xs), z3.And(0 <= w(*xs), w(*xs) < nn, *[a == x for a, x in zip(at(w(*xs)), xs)])),
                     patterns=[mem(*xs)]))

    def fn(r):
        cnd, ix = inv(r)
        xi = [T.to_int(i) for i in ix[op:op + na]]
        jx = tuple(ix[:op]) + (w(*xi),) + tuple(ix[op + na:])
        return ite(land(cnd, mem(*xi)), cast_to(kind, f(*bidx(vs, jx[len(jx) - len(vs):]))), old(r))
    nd.buf.set(fn)


def _subpat(t, k):
    """a subterm g(k) with g uninterpreted: a trigger"""
    if not (is_z3(t) and z3.is_app(t)):
        return None
    if _ispat(t, k) and any(t.arg(i).eq(k) for i in range(t.num_args())):
        return t
    for i in range(t.num_args()):
        p = _subpat(t.arg(i), k)
        if p is not None:
            return p
    return None


def _ispat(t, k):
    return is_z3(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0


# ------------------------------------------------------------------ index arithmetic
def _poly(t):
    """integer term -> {monomial(tuple of (id,exp)): coeff}; None if not polynomial"""
    atoms = {}

    def go(e):
        e = conc_of(e)
        if not is_z3(e):
            return {(): int(e)} if e else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in e.children():
                for m, v in go(c).items():
                    out[m] = out.get(m, 0) + v
            return {m: v for m, v in out.items() if v}
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            out = dict(go(ch[0]))
            for c in ch[1:]:
                for m, v in go(c).items():
                    out[m] = out.get(m, 0) - v
            return {m: v for m, v in out.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in go(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): 1}
            for c in e.children():
                out = pmul(out, go(c))
            return out
        atoms[e.get_id()] = e
        return {((e.get_id(), 1),): 1}
    try:
        p = go(t)
    except Exception:
        return None, None
    return p, atoms


def pmul(a, b):
    out = {}
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + v1 * v2
    return {m: v for m, v in out.items() if v}


def p2t(p, atoms):
    out = 0
    for m, v in sorted(p.items()):
        t = v
        for x, e in m:
            for _ in range(e):
                t = arith("*", t, atoms[x])
        out = arith("+", out, t)
    return out


def _mdiv(p, m):
    """multivariate division by the leading term of m under several orders"""
    cands = []
    for lead in m:
        q, r = {}, dict(p)
        lv = m[lead]
        ok = True
        for _ in range(60):
            hit = None
            for mono, v in r.items():
                if v % lv:
                    continue
                d = dict(mono)
                good = True
                for x, e in lead:
                    if d.get(x, 0) < e:
                        good = False
                        break
                    d[x] -= e
                if good and (lead != () or True):
                    rest = tuple(sorted((x, e) for x, e in d.items() if e))
                    hit = (rest, v // lv)
                    break
            if hit is None or lead == ():
                break
            rest, c = hit
            q[rest] = q.get(rest, 0) + c
            sub = pmul({rest: c}, m)
            for mm, v in sub.items():
                r[mm] = r.get(mm, 0) - v
                if not r[mm]:
                    del r[mm]
        if q:
            cands.append((q, r))
    return cands


def divmod_sym(t, m):
    """(t div m, t mod m) using a polynomial quotient validated by the prover"""
    t, m = conc_of(t), conc_of(m)
    if not is_z3(t) and not is_z3(m):
        return int(t) // int(m), int(t) % int(m)
    c = CX()
    if not is_z3(m):
        if m == 1:
            return t, 0
    if c.valid(land(cmp(">=", t, 0), cmp("<", t, m))):
        return 0, t
    p, at1 = _poly(T.simp(t) if False else t)
    d, at2 = _poly(m)
    if p is not None and d is not None:
        atoms = {**at1, **at2}
        for q, r in _mdiv(p, d):
            rt = p2t(r, atoms)
            if c.valid(land(cmp(">=", rt, 0), cmp("<", rt, m))):
                return conc_of(p2t(q, atoms)), conc_of(rt)
        if not is_z3(m):
            q = {mm: v // m for mm, v in p.items() if v // m}
            r = {mm: v % m for mm, v in p.items() if v % m}
            rt = p2t(r, atoms)
            if q and c.valid(land(cmp(">=", rt, 0), cmp("<", rt, m))):
                return conc_of(p2t(q, atoms)), conc_of(rt)
    return arith("//", t, m), arith("%", t, m)


def prod_dims(s):
    r = 1
    for x in s:
        r = arith("*", r, x)
    return r


def reshape(nd, shape, copy=False):
    shape = [conc_of(s) for s in shape]
    if any((not is_z3(s)) and s == -1 for s in shape):
        j = [k for k, s in enumerate(shape) if not is_z3(s) and s == -1][0]
        others = prod_dims([s for k, s in enumerate(shape) if k != j])
        tot = prod_dims(nd.shape)
        if not is_z3(others) and others == 1:
            shape[j] = tot
        else:
            q, r = divmod_sym(tot, others)
            if not CX().valid(cmp("==", r, 0)):
                raise Unsupported("reshape -1")
            shape[j] = q
    shape = tuple(shape)
    if len(shape) == len(nd.shape) and all(same_dim(a, b) for a, b in zip(shape, nd.shape)):
        return Nd(shape, nd.buf, nd.fwd, nd.inv)
    need_same_size(prod_dims(shape), prod_dims(nd.shape))
    src = nd.shape

    def conv(ix, frm, to):
        flat = 0
        for i, n in zip(ix, frm):
            flat = arith("+", arith("*", flat, n), i)
        out = []
        rem = flat
        for k in range(len(to)):
            m = prod_dims(to[k + 1:])
            if k == len(to) - 1:
                out.append(rem)
            else:
                q, rem = divmod_sym(rem, m)
                out.append(q)
        return tuple(out)

    f1, f2 = strip(src), strip(shape)
    ofwd, oinv = nd.fwd, nd.inv

    def fwd(ix):
        return ofwd(conv(ix, shape, src))

    inv = None
    if oinv is not None:
        def inv(r):
            c, ix = oinv(r)
            return c, conv(ix, src, shape)
    return Nd(shape, nd.buf, fwd, inv)


def strip(s):
    return [x for x in s if is_z3(x) or x != 1]


def need_same_size(a, b):
    pa, aa = _poly(a) if is_z3(a) else ({(): a} if a else {}, {})
    pb, bb = _poly(b) if is_z3(b) else ({(): b} if b else {}, {})
    if pa == pb:
        return
    if CX().valid(cmp("==", a, b)):
        return
    if CX().branch(cmp("==", a, b)):
        return
    raise PyRaise("ValueError", "cannot reshape")


def copy(nd):
    f = snap(nd)
    return mk_nd(nd.shape, f, nd.kind)


def transpose(nd, axes=None):
    n = nd.ndim
    axes = list(axes) if axes is not None else list(range(n))[::-1]
    ofwd, oinv = nd.fwd, nd.inv

    def fwd(ix):
        src = [None] * n
        for k, a in enumerate(axes):
            src[a] = ix[k]
        return ofwd(tuple(src))
    inv = None
    if oinv is not None:
        def inv(r):
            c, ix = oinv(r)
            return c, tuple(ix[a] for a in axes)
    return Nd(tuple(nd.shape[a] for a in axes), nd.buf, fwd, inv)


# ------------------------------------------------------------------ reductions
def axis_list(nd, axis):
    if axis is None:
        return list(range(nd.ndim))
    axis = conc_of(axis)
    if isinstance(axis, (int, Fraction)):
        axis = int(axis)
        if axis >= nd.ndim or axis < -nd.ndim:
            raise PyRaise("AxisError", "axis out of bounds")
        return [axis % nd.ndim]
    return sorted(int(a) % nd.ndim for a in axis)


def reduce_(a, axis, keepdims, step):
    nd = as_nd(a)
    ax = axis_list(nd, axis)
    f = snap(nd)
    keep = [k for k in range(nd.ndim) if k not in ax]
    shp = tuple(nd.shape[k] for k in keep)

    def at(*ix):
        def rec(j, cur):
            if j == len(ax):
                return f(*[cur[k] for k in range(nd.ndim)])
            return step(nd.shape[ax[j]], lambda v: rec(j + 1, {**cur, ax[j]: v}))
        if keepdims:
            base = {k: ix[k] for k in keep}
        else:
            base = dict(zip(keep, ix))
        return rec(0, base)
    if keepdims:
        return mk_nd(tuple(1 if k in ax else nd.shape[k] for k in range(nd.ndim)), at, nd.kind)
    if not shp:
        return at()
    return mk_nd(shp, at, nd.kind)


def tel_sum(n, g):
    """sum_{v<n} g(v) for n >= 0; a telescoping body g(v) = F(v+1) - F(v) sums to F(n) - F(0)"""
    if is_z3(conc_of(n)):
        v = T.fresh("tel", T.I)
        with CX().binding(v, v >= 0, cmp("<", v, n)):
            e = g(v)
        if is_z3(e) and z3.is_int(e):
            st, seen = [e], set()
            while st:
                t = st.pop()
                if t.get_id() in seen or not T.contains(t, v) or t.eq(v):
                    continue
                seen.add(t.get_id())
                st.extend(t.children())
                if z3.is_int(t):
                    at = lambda k: z3.substitute(t, (v, T.to_int(k)))
                    d = z3.simplify(e - (at(v + 1) - t), som=True)
                    if not z3.is_int_value(d) and z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
                        with CX().assuming(v >= 0, cmp("<", v, n)):
                            if CX().valid(d == 0):
                                return T.simp(at(n) - at(0))
                    if z3.is_int_value(d) and d.as_long() == 0:
                        return T.simp(at(n) - at(0))
    return r_sum(n, g)


def r_sum(n, g):
    c = CX()

    def body(v):
        if is_z3(v):
            with c.binding(v, cmp(">=", v, 0), cmp("<", v, n)):
                x = g(v)
        else:
            x = g(v)
        return T.to_int(x) if is_z3(x) and z3.is_bool(x) else (int(x) if isinstance(x, bool) else x)
    return T.mk_sum(0, n, body)


def np_sum(a, axis=None, keepdims=False, dtype=None, out=None):
    r = reduce_(a, axis, keepdims, tel_sum if isinstance(a, Nd) and a.ndim == 1 and a.kind == "int" else r_sum)
    if isinstance(a, Nd) and a.kind == "bool" and a.ndim == 1 and is_z3(r):      # a count
        n = T.to_int(a.shape[0])
        CX().fact(z3.Implies(n >= 0, z3.And(r >= 0, r <= n)))
    return r


def r_prod(n, g):
    n = conc_of(n)
    if not is_z3(n):
        r = 1
        for k in range(int(n)):
            r = arith("*", r, g(k))
        return r
    v = T.fresh("v", T.I)
    c = CX()
    with c.assuming(cmp(">=", v, 0), cmp("<", v, n)):
        x = g(v)
        if not c.valid(cmp(">", x, 0)):
            raise Unsupported("product of possibly non-positive terms")
    return T.exp(r_sum(n, lambda k: T.log(g(k))))


def np_prod(a, axis=None, keepdims=False, dtype=None):
    return reduce_(a, axis, keepdims, r_prod)


def quant(n, g, ex):
    n = conc_of(n)
    if not is_z3(n):
        xs = [g(k) for k in range(int(n))]
        return lor(*xs) if ex else land(*xs)
    v = T.fresh("qv", T.I)
    rng = [cmp(">=", v, 0), cmp("<", v, n)]
    with CX().binding(v, *rng):
        b = T.to_bool(g(v))
    if ex:
        return z3.Exists([v], z3.And(*[T.to_bool(x) for x in rng], b))
    return z3.ForAll([v], z3.Implies(z3.And(*[T.to_bool(x) for x in rng]), b))


def truth(x):
    if scalar_kind(x) == "bool":
        return x
    return cmp("!=", x, 0)


def np_any(a, axis=None, keepdims=False):
    if a is None:
        return False
    if isinstance(a, (SList, tuple)) and not (a.v if isinstance(a, SList) else a):
        return False
    return reduce_(ew(truth, a, kind="bool"), axis, keepdims, lambda n, g: quant(n, g, True))


def np_all(a, axis=None, keepdims=False):
    return reduce_(ew(truth, a, kind="bool"), axis, keepdims, lambda n, g: quant(n, g, False))


def extremum(op):
    def red(n, g):
        n = conc_of(n)
        c = CX()
        if not is_z3(n):
            n = int(n)
            if n == 0:
                raise PyRaise("ValueError", "zero-size reduction")
            r = g(0)
            for k in range(1, n):
                r = (T.rmax if op == "max" else T.rmin)(r, g(k))
            return r
        if not c.valid(cmp(">", n, 0)):
            if not c.branch(cmp(">", n, 0)):
                raise PyRaise("ValueError", "zero-size reduction")
        v = T.fresh("qv", T.I)
        with c.assuming(cmp(">=", v, 0), cmp("<", v, n)):
            x = g(v)
        x = T.to_int(x) if T.is_intlike(x) else T.to_real(x)
        key = (op, z3.simplify(z3.substitute(x, (v, z3.Int("$mx")))).get_id(), T.to_int(n).get_id())
        if key in c.extrema:
            return c.extrema[key][0]
        c.no_bound(z3.substitute(x, (v, z3.IntVal(0))))
        m = T.fresh("ext", x.sort())
        w = T.fresh("wit", T.I)
        le = (x <= m) if op == "max" else (x >= m)
        nn = T.to_int(n)
        c.fact(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < nn), le)))
        c.fact(z3.Implies(nn > 0, z3.And(w >= 0, w < nn, z3.substitute(x, (v, w)) == m)))
        c.extrema[key] = (m, x, v, nn, op)
        return m
    return red


def ext_axis(op, a, axis, keepdims):
    """extremum along one symbolic axis of an array: a Skolem function of the remaining indices"""
    nd = as_nd(a)
    if nd.ndim < 2 or axis is None or keepdims or not isinstance(axis, int):
        return None
    ax = axis % nd.ndim
    n = conc_of(nd.shape[ax])
    keep = [k for k in range(nd.ndim) if k != ax]
    if not is_z3(n) or all(not is_z3(conc_of(nd.shape[k])) for k in keep):
        return None
    c = CX()
    if not c.valid(cmp(">", n, 0)):
        if not c.branch(cmp(">", n, 0)):
            raise PyRaise("ValueError", "zero-size reduction")
    f = snap(nd)
    vs = [T.fresh("qv", T.I) for _ in range(nd.ndim)]
    rng = [land(cmp(">=", v, 0), cmp("<", v, m)) for v, m in zip(vs, nd.shape)]
    with c.assuming(*rng):
        x = f(*vs)
    if not is_z3(x):
        return None
    x = T.to_int(x) if T.is_intlike(x) else T.to_real(x)
    c.no_bound(x)
    outer = [vs[k] for k in keep]
    E = T.fresh_fun("extf", *([T.I] * len(outer) + [x.sort()]))
    c.extfuns.append(E)
    W = T.fresh_fun("witf", *([T.I] * (len(outer) + 1)))
    orng = T.to_bool(land(*[rng[k] for k in keep]))
    le = (x <= E(*outer)) if op == "max" else (x >= E(*outer))
    c.fact(z3.ForAll(vs, z3.Implies(z3.And(orng, T.to_bool(rng[ax])), le)))
    w = W(*outer)
    c.fact(z3.ForAll(outer, z3.Implies(orng, z3.And(w >= 0, w < T.to_int(n), z3.substitute(x, (vs[ax], w)) == E(*outer))),
                     patterns=[E(*outer)]))
    return mk_nd(tuple(nd.shape[k] for k in keep), lambda *ix: E(*[T.to_int(i) for i in ix]), nd.kind)


def np_max(a, axis=None, keepdims=False):
    r = ext_axis("max", a, axis, keepdims)
    if r is not None:
        return r
    return reduce_(a, axis, keepdims, extremum("max"))


def np_min(a, axis=None, keepdims=False):
    r = ext_axis("min", a, axis, keepdims)
    if r is not None:
        return r
    return reduce_(a, axis, keepdims, extremum("min"))


def np_median(a, axis=None):
    """a number between the smallest and the largest element"""
    nd = as_nd(a)
    if nd.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported("median")
    c = CX()
    n, f = nd.shape[0], snap(nd)
    v = T.fresh("qv", T.I)
    with c.assuming(cmp(">=", v, 0), cmp("<", v, n)):
        x = f(v)
    x = T.to_real(x)
    key = ("median", z3.simplify(z3.substitute(x, (v, z3.Int("$mx")))).get_id(), T.to_int(n).get_id())
    if key in c.extrema:
        return c.extrema[key][0]
    c.no_bound(z3.substitute(x, (v, z3.IntVal(0))))
    lo, hi = np_min(nd), np_max(nd)
    m = T.loose("median", T.R)
    c.fact(z3.And(T.to_real(lo) <= m, m <= T.to_real(hi)))
    c.extrema[key] = (m, x)
    return m


def np_arg(op):
    """index of the first smallest / largest element of a vector"""
    def fn(a, axis=None):
        nd = as_nd(a)
        if nd.ndim != 1:
            raise Unsupported("argmin rank")
        n, g = conc_of(nd.shape[0]), snap(nd)
        c = CX()
        if not is_z3(n):
            n = int(n)
            if n == 0:
                raise PyRaise("ValueError", "attempt to get argmin of an empty sequence")
            k, best = 0, g(0)
            for j in range(1, n):
                b = cmp("<" if op == "min" else ">", g(j), best)
                k, best = ite(b, j, k), ite(b, g(j), best)
            return k
        if not c.valid(cmp(">", n, 0)):
            if not c.branch(cmp(">", n, 0)):
                raise PyRaise("ValueError", "attempt to get argmin of an empty sequence")
        v = T.fresh("qv", T.I)
        with c.assuming(cmp(">=", v, 0), cmp("<", v, n)):
            x = g(v)
        x = T.to_int(x) if T.is_intlike(x) else T.to_real(x)
        key = ("arg" + op, z3.simplify(z3.substitute(x, (v, z3.Int("$mx")))).get_id(), T.to_int(n).get_id())
        if key in c.extrema:
            return c.extrema[key][0]
        c.no_bound(z3.substitute(x, (v, z3.IntVal(0))))
        w = T.fresh("argx", T.I)
        nn = T.to_int(n)
        xw = z3.substitute(x, (v, w))
        le = (xw <= x) if op == "min" else (xw >= x)
        lt = (xw < x) if op == "min" else (xw > x)
        c.fact(z3.And(w >= 0, w < nn))
        c.fact(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < nn), le)))
        c.fact(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < w), lt)))
        c.extrema[key] = (w, x)
        return w
    return fn


def np_mean(a, axis=None, keepdims=False, dtype=None):
    nd = as_nd(a)
    n = prod_dims([nd.shape[k] for k in axis_list(nd, axis)])
    return binop("/", np_sum(nd, axis, keepdims), n)


def matmul(a, b):
    a, b = as_nd(a), as_nd(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("*", a, b)
    fa, fb = snap(a), snap(b)
    k = a.shape[-1]
    if b.ndim == 1:
        need_same(k, b.shape[0])
        if a.ndim == 1:
            return r_sum(k, lambda v: arith("*", fa(v), fb(v)))
        return mk_nd(a.shape[:-1], lambda *ix: r_sum(k, lambda v: arith("*", fa(*ix, v), fb(v))))
    need_same(k, b.shape[-2])
    if a.ndim == 1:
        return mk_nd(b.shape[:-2] + (b.shape[-1],),
                     lambda *ix: r_sum(k, lambda v: arith("*", fa(v), fb(*ix[:-1], v, ix[-1]))))
    if a.ndim == 2 and b.ndim == 2:
        return mk_nd((a.shape[0], b.shape[1]),
                     lambda i, j: r_sum(k, lambda v: arith("*", fa(i, v), fb(v, j))))
    bs = bshape([a.shape[:-2], b.shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()
    na, nb = a.ndim - 2, b.ndim - 2
    sa, sb = a.shape, b.shape
    nbs = len(bs)

    def at(*ix):
        p, i, j = ix[:-2], ix[-2], ix[-1]
        ia = bidx(sa[:-2], p) if na else ()
        ib = bidx(sb[:-2], p) if nb else ()
        return r_sum(k, lambda v: arith("*", fa(*ia, i, v), fb(*ib, v, j)))
    return mk_nd(tuple(bs) + (a.shape[-2], b.shape[-1]), at)


def np_dot(a, b):
    a, b = as_nd(a), as_nd(b)
    if b.ndim > 2 or a.ndim > 2 and b.ndim > 1:
        if b.ndim == 2:
            fa, fb, k = snap(a), snap(b), a.shape[-1]
            need_same(k, b.shape[0])
            return mk_nd(a.shape[:-1] + (b.shape[1],),
                         lambda *ix: r_sum(k, lambda v: arith("*", fa(*ix[:-1], v), fb(v, ix[-1]))))
        raise Unsupported("dot of high-rank arrays")
    return matmul(a, b)


def trunc(x):
    if not is_z3(x):
        f = T.frac(x)
        return int(f)
    if not z3.is_real(x):
        return T.to_int(x)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    fl = z3.ToInt(x)
    if CX().valid(x >= 0):
        return fl
    return z3.If(x >= 0, fl, -z3.ToInt(-x))


def astype(nd, d):
    d = dtype_of(d)
    if isinstance(nd, Nd):
        f = snap(nd)
        return mk_nd(nd.shape, lambda *ix: cast_to(d.kind, f(*ix)), d.kind)
    return cast_to(d.kind, nd)


def shape_arg(s):
    if is_scalar(s):
        return (s,)
    if isinstance(s, SList):
        s = s.v
    if isinstance(s, Nd):
        s = tolist(s)
    return tuple(x.at() if isinstance(x, Nd) else x for x in s)


def tolist(nd):
    n = conc_of(nd.shape[0])
    if is_z3(n):
        raise Unsupported("symbolic length")
    return [getitem(nd, k) for k in range(n)]


def const_arr(val):
    def f(shape, dtype=None, order=None):
        if isinstance(dtype, DType) and dtype.fields is not None or isinstance(dtype, DtypeSpec):
            return rec_zeros(shape, dtype)
        d = dtype_of(dtype)
        return mk_nd(shape_arg(shape), lambda *ix: cast_to(d.kind, val), d.kind)
    return f


def addr_of(v):
    """address of the memory of an array: one number per buffer, different buffers have different ones"""
    if isinstance(v, Rec):
        b = next(iter(v.fields.values()))[0]
    elif isinstance(v, Nd):
        if v.fwd is not ident:
            raise Unsupported("address of a view")
        b = v.buf
    else:
        raise Unsupported("address")
    a = getattr(b, "addr", None)
    if a is None:
        a = b.addr = T.fresh("addr", T.I)
        c = CX()
        c.fact(a > 0)
        for o in c.addrs:
            c.fact(a != o)
        c.addrs.append(a)
    return a


class DtypeSpec:
    """structured dtype"""
    def __init__(self, fields, fam=None):
        self.fields = fields        # ordered name -> (DType, tail shape)
        self.fam = fam

    @property
    def names(self):
        return tuple(self.fields)


def rec_zeros(shape, spec):
    shape = shape_arg(shape)
    fields = {}
    for nm, (d, tail) in spec.fields.items():
        k = getattr(d, "kind", "real")
        zero = {"real": T.rv(0), "int": z3.IntVal(0), "bool": z3.BoolVal(False)}[k]
        fields[nm] = (Buf(len(shape) + len(tail), lambda ix, z=zero: z, k, f"rec.{nm}"), tuple(tail))
    return Rec(shape, fields)


def strides(v):
    """arbitrary positive byte strides, one per axis of this view"""
    if getattr(v, "_strides", None) is None:
        v._strides = tuple(T.loose("stride", T.I) for _ in v.shape)
        for x in v._strides:
            CX().fact(x > 0)
    return v._strides


def as_strided(x, shape=None, strides=None, **kw):
    """each new stride has to be a combination of the strides of the same array: index k of the result moves that far along its axes"""
    base = as_nd(x)
    st = getattr(base, "_strides", None)
    if st is None or shape is None or strides is None:
        raise Unsupported("as_strided")
    coef = []
    for t in strides:
        t = T.to_int(t)
        row = []
        for d in range(len(st)):
            row.append(z3.simplify(z3.substitute(t, *[(s, z3.IntVal(1 if e == d else 0)) for e, s in enumerate(st)])))
        rest = z3.simplify(t - sum((c * s for c, s in zip(row, st)), z3.IntVal(0)), som=True)
        if not CX().valid(rest == 0) or any(T.contains(c, s) for c in row for s in st):
            raise Unsupported("as_strided: stride")
        coef.append(row)
    shape = shape_arg(shape)
    f = snap(base)
    pos = lambda ix: [sum((T.to_int(i) * row[d] for i, row in zip(ix, coef)), z3.IntVal(0)) for d in range(len(st))]
    ws = [T.fresh("bi", T.I) for _ in shape]
    c = CX()
    with c.assuming(*[land(cmp(">=", w, 0), cmp("<", w, s)) for w, s in zip(ws, shape)]):
        for q, n in zip(pos(ws), base.shape):
            ok = land(cmp(">=", q, 0), cmp("<", q, n))
            if not c.valid(ok):
                c.soft_bound(ok)
    return mk_nd(shape, lambda *ix: f(*pos(ix)), base.kind)


def like(fn):
    def f(a, dtype=None):
        if isinstance(a, (Nd,)):
            if dtype is None:
                k = a.kind
                return mk_nd(a.shape, lambda *ix: cast_to(k, fn), k)
            d = dtype_of(dtype)
            return mk_nd(a.shape, lambda *ix: cast_to(d.kind, fn), d.kind)
        nd = as_nd(a)
        return mk_nd(nd.shape, lambda *ix: cast_to(nd.kind, fn), nd.kind)
    return f


def np_empty(shape, dtype=None, order=None):
    if isinstance(dtype, DtypeSpec):
        return rec_zeros(shape, dtype)
    d = dtype_of(dtype)
    shape = shape_arg(shape)
    if not shape:
        c = T.fresh("empty", kind_sort(d.kind))
        return mk_nd((), lambda: c, d.kind)
    f = T.fresh_fun("empty", *([T.I] * len(shape) + [kind_sort(d.kind)]))
    return mk_nd(shape, lambda *ix: f(*[T.to_int(i) for i in ix]), d.kind)


def np_full(shape, val, dtype=None):
    sh = shape_arg(shape)
    v = as_nd(val)
    f = snap(v)
    return mk_nd(sh, lambda *ix: f(*bidx(v.shape, ix)) if v.ndim else f(), v.kind)


def np_array(v, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    from . import pyint
    if isinstance(v, Rec):
        return rec_copy(v)
    if isinstance(dtype, DtypeSpec):
        raise Unsupported("structured array from values")
    if isinstance(dtype, str) and dtype in ("S", "U"):
        its = list(v) if isinstance(v, (list, tuple)) else v.v if isinstance(v, SList) and isinstance(v.v, list) else None
        if its is None or not all(isinstance(x, (str, bytes)) for x in its):
            raise Unsupported("array of text")
        return SList([x.encode() if dtype == "S" and isinstance(x, str) else x.decode() if dtype == "U" and isinstance(x, bytes) else x for x in its])
    if dtype is not None and not isinstance(dtype, DType):
        dtype = dtype_of(dtype)
    if isinstance(v, Seq):
        nd = as_nd(v)
    else:
        nd = as_nd(v)
    f = snap(nd)
    kind = nd.kind if dtype is None else dtype.kind
    return mk_nd(nd.shape, lambda *ix: cast_to(kind, f(*ix)), kind)


def np_asarray(v, dtype=None):
    if isinstance(v, Nd) and (dtype is None or dtype_of(dtype).kind == v.kind):
        return v
    return np_array(v, dtype=dtype)


def np_atleast_1d(v):
    if isinstance(v, Rec):
        if v.ndim == 0:
            return rec_view(v, None)
        return v
    nd = as_nd(v)
    if nd.ndim == 0:
        return getitem(nd, None) if isinstance(v, Nd) else mk_nd((1,), lambda i: nd.at(), nd.kind)
    return nd


def np_atleast_2d(v):
    nd = np_atleast_1d(v)
    if nd.ndim == 1:
        return view(nd, (None, slice(None)))
    return nd


def np_arange(*a, dtype=None):
    a = [x.at() if isinstance(x, Nd) else x for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    st = conc_of(st)
    clo, chi = conc_of(lo), conc_of(hi)
    kind = dtype_of(dtype).kind if dtype is not None else "real" if any(scalar_kind(x) == "real" for x in (lo, hi, st)) else "int"
    if not any(is_z3(x) for x in (clo, chi, st)) and st and any(isinstance(x, Fraction) for x in (clo, chi, st)):
        n = max(math.ceil(Fraction(chi - clo) / Fraction(st)), 0)
        return mk_nd((n,), lambda i: arith("+", clo, arith("*", st, i)), kind)
    if all(not is_z3(x) and isinstance(x, int) for x in (clo, chi, st)) and st:
        return mk_nd((len(range(clo, chi, st)),), lambda i: arith("+", clo, arith("*", st, i)), kind)
    n = arith("-", hi, lo)
    if not is_z3(st) and isinstance(st, int) and st > 1 and not any(is_z3(x) and z3.is_real(x) for x in (lo, hi)):
        n = T.to_int(n)
        return mk_nd((z3.If(n > 0, (n + (st - 1)) / st, z3.IntVal(0)),), lambda i: arith("+", lo, arith("*", st, i)), "int")
    if not (not is_z3(st) and st == 1):
        raise Unsupported("arange step")
    if is_z3(n):
        if not CX().valid(cmp(">=", n, 0)):
            n = T.rmax(n, 0)
    else:
        n = max(n, 0)
    return mk_nd((n,), lambda i: arith("+", lo, i), "int")


def prefix_sum(lens, k):
    """sum_{j<k} lens(j)"""
    return r_sum(k, lens)


def np_concatenate(seq, axis=0, dtype=None):
    axis = int(axis) if axis is not None else 0
    if isinstance(seq, SList):
        seq = seq.v
    if isinstance(seq, Seq):
        return concat_sym(seq, axis)
    items = [as_nd(x) if not isinstance(x, Rec) else x for x in seq]
    if any(isinstance(x, Rec) for x in items):
        if not all(isinstance(x, Rec) and x.fam is None and x.ndim == 1 for x in items) or \
           any(set(x.fields) != set(items[0].fields) for x in items):
            raise Unsupported("concatenate records")
        cols = {k: np_concatenate(SList([x.field(k) for x in items])) for k in items[0].fields}
        tot = 0
        for x in items:
            tot = arith("+", tot, x.shape[0])
        return Rec((tot,), {k: (c.buf, tuple(c.shape[1:])) for k, c in cols.items()}, None, name="cat")
    if len(items) == 0:
        raise PyRaise("ValueError", "need at least one array")
    nd0 = items[0]
    axis = axis % nd0.ndim
    for it in items[1:]:
        for d in range(nd0.ndim):
            if d != axis:
                need_same(nd0.shape[d], it.shape[d])
    offs, tot = [], 0
    for it in items:
        offs.append(tot)
        tot = arith("+", tot, it.shape[axis])
    ats = [snap(x) for x in items]

    def at(*ix):
        i = ix[axis]
        c = CX()
        out = None
        for k in range(len(items) - 1, -1, -1):
            lo, hi = offs[k], arith("+", offs[k], items[k].shape[axis])
            inside = land(cmp(">=", i, lo), cmp("<", i, hi))
            d = c.decide(inside)
            if d is False:
                continue
            jx = ix[:axis] + (arith("-", i, lo),) + ix[axis + 1:]
            with c.assuming(inside):
                v = ats[k](*jx)
            if d is True:
                return v
            out = v if out is None else ite(cmp("<", i, hi), v, out)
        if out is None:
            out = ats[-1](*(ix[:axis] + (arith("-", i, offs[-1]),) + ix[axis + 1:]))
        return out
    kinds = {x.kind for x in items}
    kind = "real" if "real" in kinds else "int" if "int" in kinds else "bool"
    shp = tuple(tot if d == axis else nd0.shape[d] for d in range(nd0.ndim))
    return mk_nd(shp, at, kind)


def concat_sym(seq, axis):
    """concatenate a symbolic number of arrays.  Decoding of a flat position p
    uses (blk, off): p = sum_{j<blk} len_j + off."""
    c = CX()
    i0 = T.fresh("cb", T.I)
    n = seq.n
    with c.assuming(cmp(">=", i0, 0), cmp("<", i0, n)):
        probe = as_nd(seq.at(i0))
    if axis != 0:
        raise Unsupported("symbolic concatenate axis")
    ln = probe.shape[0]
    if not (is_z3(ln) and T.contains(ln, i0)):
        # uniform: reshape of the stack
        st = as_nd(seq)
        return reshape(st, (arith("*", n, ln),) + tuple(st.shape[2:]))
    ln = T.to_int(ln)

    def lens(j):
        return z3.substitute(ln, (i0, T.to_int(j)))
    total = prefix_sum(lens, n)
    blk = T.fresh_fun("blk", T.I, T.I)
    start = lambda b: prefix_sum(lens, b)

    def at(p, *r):
        # syntactic decode:  p = start(b) + o
        b, o = decode_ragged(p, lens, n)
        if b is None:
            raise Unsupported("cannot decode ragged position")
        return snap(as_nd(seq.at(b)))(o, *r)
    nd = mk_nd((total,) + probe.shape[1:], at, probe.kind)
    nd.tag = ("ragged", n, lens)
    return nd


def decode_ragged(p, lens, n):
    """p syntactically start(b)+o with 0<=b<n, 0<=o<len_b"""
    c = CX()
    if not is_z3(p):
        return None, None
    p = T.to_int(p)
    pp, atoms = _poly(p)
    if pp is None:
        return None, None
    cands = [z3.IntVal(0)]
    for aid, a in atoms.items():
        if T.is_sum(a):
            _, lo, hi, body = T.sum_parts(a)
            cands.append(hi)
    for b in cands:
        s = prefix_sum(lens, b)
        o = T.simp(arith("-", p, s))
        if c.valid(land(cmp(">=", b, 0), cmp("<", b, n), cmp(">=", o, 0), cmp("<", o, lens(b)))):
            return conc_of(b), o
    return None, None


def np_stack(seq, axis=0):
    axis = int(axis)
    nd = as_nd(SList(seq.v) if isinstance(seq, SList) else seq)
    if axis == 0:
        return nd
    axes = list(range(1, nd.ndim))
    axis = axis % nd.ndim
    axes.insert(axis, 0)
    return transpose(nd, axes)


def np_hstack(seq):
    items = seq.v if isinstance(seq, SList) else seq
    if isinstance(items, Seq):
        return np_concatenate(seq, 0)
    nds = [np_atleast_1d(x) for x in items]
    return np_concatenate(SList(nds), 0 if nds[0].ndim == 1 else 1)


def np_vstack(seq):
    items = seq.v if isinstance(seq, SList) else seq
    if isinstance(items, Seq):
        raise Unsupported("vstack")
    return np_concatenate(SList([np_atleast_2d(x) for x in items]), 0)


def np_cumsum(a, axis=None, dtype=None):
    nd = as_nd(a)
    if nd.ndim != 1:
        raise Unsupported("cumsum rank")
    f = snap(nd)
    return mk_nd(nd.shape, lambda i: tel_sum(arith("+", i, 1), f), nd.kind)


def np_diff(a, n=1, axis=-1):
    nd = as_nd(a)
    f = snap(nd)
    if n != 1 or not isinstance(axis, int):
        raise Unsupported("diff")
    ax = axis % nd.ndim
    shp = nd.shape[:ax] + (arith("-", nd.shape[ax], 1),) + nd.shape[ax + 1:]
    return mk_nd(shp, lambda *ix: arith("-", f(*ix[:ax], arith("+", ix[ax], 1), *ix[ax + 1:]), f(*ix)), nd.kind)


def np_where(c, a=None, b=None):
    if a is None and b is None:
        nd = as_nd(c)
        m = snap(nd)
        if nd.ndim == 2:
            n0, n1 = nd.shape
            fl = filt(arith("*", n0, n1), lambda k: truth(m(*divmod_sym(k, n1))))
            return tuple(mk_nd((fl.cnt,), lambda k, j=j: divmod_sym(fl.sel(T.to_int(k)), n1)[j], "int") for j in range(2))
        if nd.ndim != 1:
            raise Unsupported("where rank")
        fl = filt(nd.shape[0], lambda i: truth(m(i)))
        return (mk_nd((fl.cnt,), lambda k: fl.sel(T.to_int(k)), "int"),)
    ka = {as_nd(a).kind, as_nd(b).kind}
    return ew(lambda x, y, z: ite(truth(x), y, z), c, a, b, kind="real" if "real" in ka else None)


def np_clip(a, lo, hi, out=None):
    r = a
    # numpy: minimum(maximum(a, lo), hi)
    if lo is not None:
        r = ew(T.rmax, r, lo)
    if hi is not None:
        r = ew(T.rmin, r, hi)
    if out is not None:
        assign(out, r)
        return out
    return r


class Sort:
    """argsort of n values x(i): a permutation `order` with inverse `place`, values non-decreasing along it"""
    def __init__(self, n, x, order, place):
        self.n, self.x, self.order, self.place = n, x, order, place


def np_argsort(a, axis=-1, kind=None, **kw):
    nd = as_nd(a)
    if nd.ndim != 1 or kw:
        raise Unsupported("argsort")
    c = CX()
    n, g = conc_of(nd.shape[0]), snap(nd)
    nn = T.to_int(n)
    v = T.fresh("qv", T.I)
    with c.assuming(cmp(">=", v, 0), cmp("<", v, n)):
        x = g(v)
    x = T.to_int(x) if T.is_intlike(x) else T.to_real(x)
    key = ("argsort", z3.simplify(z3.substitute(x, (v, z3.Int("$mx")))).get_id(), nn.get_id(), kind == "stable")
    if key not in c.extrema:
        c.no_bound(z3.substitute(x, (v, z3.IntVal(0))))
        od, pl = T.fresh_fun("order", T.I, T.I), T.fresh_fun("place", T.I, T.I)
        i, j = z3.Int("si"), z3.Int("sj")
        xv = lambda t: z3.substitute(x, (v, T.to_int(t)))
        c.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= od(i), od(i) < nn, pl(od(i)) == i)), patterns=[od(i)]))
        c.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= pl(i), pl(i) < nn, od(pl(i)) == i)), patterns=[pl(i)]))
        c.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn), xv(od(i)) <= xv(od(j))), patterns=[z3.MultiPattern(od(i), od(j))]))
        if kind == "stable":
            c.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn, xv(od(i)) == xv(od(j))), od(i) < od(j)), patterns=[z3.MultiPattern(od(i), od(j))]))
        c.extrema[key] = (Sort(nn, xv, od, pl), x)
    so = c.extrema[key][0]

    def at(i):
        i = T.to_int(i)
        c.fact(z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= so.order(i), so.order(i) < nn, so.place(so.order(i)) == i)))
        return so.order(i)
    return mk_nd((n,), at, "int")


def np_sort(a, axis=-1, kind=None):
    nd = as_nd(a)
    o = snap(np_argsort(nd))
    f = snap(nd)
    return mk_nd(nd.shape, lambda i: f(o(i)), nd.kind)


def np_len(v):
    if isinstance(v, SList):
        v = v.v
    if isinstance(v, (list, tuple, str, dict)):
        return len(v)
    if isinstance(v, (Nd, Rec)):
        if v.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, SDict):
        return len(v.d)
    raise Unsupported(f"len of {type(v).__name__}")


# ------------------------------------------------------------------ records
def rec_copy(r):
    fields = {}
    for nm in r.fields:
        nd = r.field(nm)
        f = snap(nd)
        buf, tail = r.fields[nm]
        fields[nm] = (Buf(nd.ndim, lambda ix, f=f: f(*ix), buf.kind, buf.name), tail)
    fam = None
    if r.fam is not None:
        buf, tail, pred = r.fam
        fn, fwd, k = buf.fn, r.fwd, r.ndim
        fam = (Buf(1 + k + len(tail), lambda ix: fn((ix[0],) + tuple(fwd(ix[1:1 + k])) + tuple(ix[1 + k:])),
                   buf.kind), tail, pred)
    return Rec(r.shape, fields, fam, name=r.name)


class _Shape:
    def __init__(self, shape):
        self.shape = shape
        self.ndim = len(shape)


def rec_view(r, key):
    shape, f, g = basic_view(_Shape(r.shape), key)
    ofwd, oinv = r.fwd, r.inv

    def inv(x):
        c1, ix = oinv(x)
        c2, jx = g(ix)
        return land(c1, c2), jx
    return Rec(shape, r.fields, r.fam, lambda ix: ofwd(f(ix)), inv, r.name)


def rec_getitem(r, key):
    if isinstance(key, (str, Name)):
        try:
            nd = r.field(key)
        except KeyError:
            if isinstance(r.name, Partial):
                raise Unsupported(f"column {key} not in the contract of {r.name}")
            raise PyRaise("ValueError", f"no field of name {key}")
        return nd.at() if nd.ndim == 0 else nd
    if is_adv(key):
        # fancy row selection -> copy
        out = {}
        idx = as_nd(key)
        shp = None
        for nm in r.fields:
            nd = fancy_get(r.field(nm), key)
            buf, tail = r.fields[nm]
            shp = nd.shape[:len(nd.shape) - len(tail)]
            out[nm] = (nd.buf, tail)
        fam = None
        if r.fam is not None:
            buf, tail, pred = r.fam
            if idx.kind == "bool":
                m = snap(idx)
                fl = filt(idx.shape[0], m)
                ia = lambda i: fl.sel(T.to_int(i))
                shp = (fl.cnt,)
            else:
                ia = snap(idx)
                shp = idx.shape
            fn, fwd = buf.fn, r.fwd
            fam = (Buf(buf.ndim, lambda ix: fn((ix[0],) + tuple(fwd((ia(ix[1]),))) + tuple(ix[2:])), buf.kind),
                   tail, pred)
        return Rec(shp, out, fam, name=r.name)
    return rec_view(r, key)


def rec_setitem(r, key, val):
    if isinstance(key, (str, Name)):
        try:
            nd = r.field(key)
        except KeyError:
            if isinstance(r.name, Partial):
                raise Unsupported(f"column {key} not in the contract of {r.name}")
            raise PyRaise("ValueError", f"no field of name {key}")
        assign(nd, val)
        return
    if isinstance(val, Rec):
        for nm in r.fields:
            if nm not in val.fields:
                raise Unsupported("record assignment with different fields")
            setitem(r.field(nm), key, rec_get(val, nm))
        if r.fam is not None:
            if val.fam is None:
                raise Unsupported("record family assignment")
            _fam_set(r, key, val)
        return
    raise Unsupported("record assignment")


def rec_get(r, nm):
    nd = r.field(nm)
    return nd


def _fam_set(r, key, val):
    buf, tail, pred = r.fam
    vbuf = val.fam[0]
    vf, vfwd = vbuf.fn, val.fwd
    shp = tuple(r.shape)
    # expose the family as an array whose first axis is the name code
    full = Nd((T.fresh("ncode", T.I),) + shp + tuple(tail), buf,
              lambda ix: (ix[0],) + tuple(r.fwd(ix[1:1 + len(shp)])) + tuple(ix[1 + len(shp):]),
              lambda x: (lambda c, ix: (c, (x[0],) + tuple(ix) + tuple(x[1 + (buf.ndim - 1 - len(tail)):])))(
                  *r.inv(x[1:1 + (buf.ndim - 1 - len(tail))])))
    ks = key if isinstance(key, tuple) else (key,)
    vn = val.ndim
    src = Nd((full.shape[0],) + tuple(val.shape) + tuple(tail),
             Buf(vbuf.ndim, vf, vbuf.kind),
             lambda ix: (ix[0],) + tuple(vfwd(ix[1:1 + vn])) + tuple(ix[1 + vn:]), None)
    setitem(full, (slice(None),) + ks, src)
