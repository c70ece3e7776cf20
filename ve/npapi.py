"""Name tables: python builtins, numpy functions, methods of modelled values."""
import itertools
import math
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, NotInContract, is_z3, conc_of, arith, cmp, land, lor, lnot, ite
from .state import (Nd, Buf, Rec, SList, SDict, Seq, Obj, Name, code_of, Container, TR, FamObj, Poison)
from . import npmodel as N
from .npmodel import PyRaise, is_scalar, ew, elementwise

INF = float("inf")


def _expit(x):
    return arith("/", 1, arith("+", 1, T.exp(T.neg(x))))


def _cosh(x):
    return arith("/", arith("+", T.exp(x), T.exp(T.neg(x))), 2)


def _sinh(x):
    return arith("/", arith("-", T.exp(x), T.exp(T.neg(x))), 2)


def _hypot(a, b):
    return T.sqrt(arith("+", arith("*", a, a), arith("*", b, b)))


def _sign(x):
    return ite(cmp(">", x, 0), 1, ite(cmp("<", x, 0), -1, 0))


def _finite(x):
    if isinstance(x, float):
        return x == x and abs(x) != INF
    if getattr(N.CX(), "nonfinite", False):      # values may be non-finite: an uninterpreted predicate
        if is_z3(x) and z3.is_mul(x) and sum(not z3.is_rational_value(c) for c in x.children()) > 1:
            raise Unsupported("isfinite of a product")
        return T.FINITE(T.to_real(x))
    return True


def _atan2(y, x):
    return T.ATAN2(T.to_real(y), T.to_real(x))


def _atan(x):
    return T.ATAN2(T.to_real(x), T.rv(1))


def _floor(x):
    if not is_z3(x):
        import math
        return Fraction(math.floor(x))
    if z3.is_int(x):
        return T.to_real(x)
    return T.to_real(z3.ToInt(T.to_real(x)))


def _ceil(x):
    return T.neg(_floor(T.neg(x)))


def uf1(name):
    return lambda x: T.ufun(name, T.R, T.R)(T.to_real(x))


RTOL, ATOL = Fraction(1, 10 ** 5), Fraction(1, 10 ** 8)


def isclose(a, b, rtol=RTOL, atol=ATOL):
    d = ew(T.absr, N.binop("-", a, b))
    return N.compare("<=", d, N.binop("+", atol, N.binop("*", rtol, ew(T.absr, b))))


def install(I):
    I.builtins = builtins(I)
    e = elementwise
    pi = T.PI
    np = {
        "pi": pi, "inf": INF, "Inf": INF, "nan": float("nan"), "NaN": float("nan"), "newaxis": None,
        "ndarray": ("type", "ndarray"), "float": N.DT["float64"],
        "exp": e(T.exp), "log": e(T.log), "sqrt": e(T.sqrt, kind="real"), "sin": e(T.sin, kind="real"),
        "cos": e(T.cos, kind="real"), "abs": e(T.absr), "absolute": e(T.absr), "fabs": e(T.absr),
        "cosh": e(_cosh), "sinh": e(_sinh), "tan": e(lambda x: arith("/", T.sin(x), T.cos(x))),
        "tanh": e(lambda x: arith("/", _sinh(x), _cosh(x))),
        "log10": e(lambda x: arith("/", T.log(x), T.log(10))),
        "arctan2": e(_atan2, kind="real"), "arctan": e(_atan, kind="real"), "hypot": e(_hypot, kind="real"),
        "arcsin": e(uf1("asin"), kind="real"), "arccos": e(uf1("acos"), kind="real"),
        "square": e(lambda x: arith("*", x, x)), "sign": e(_sign), "floor": e(_floor, kind="real"),
        "ceil": e(_ceil, kind="real"), "isfinite": e(_finite, kind="bool"),
        "isnan": e(lambda x: False if not isinstance(x, float) else x != x, kind="bool"),
        "minimum": e(T.rmin), "maximum": e(T.rmax),
        "deg2rad": e(lambda x: arith("/", arith("*", x, pi), 180), kind="real"),
        "rad2deg": e(lambda x: arith("/", arith("*", x, 180), pi), kind="real"),
        "radians": e(lambda x: arith("/", arith("*", x, pi), 180), kind="real"),
        "degrees": e(lambda x: arith("/", arith("*", x, 180), pi), kind="real"),
        "mod": ufunc(lambda a, b: N.binop("%", a, b)), "remainder": ufunc(lambda a, b: N.binop("%", a, b)),
        "add": ufunc(lambda a, b: N.binop("+", a, b)), "subtract": ufunc(lambda a, b: N.binop("-", a, b)),
        "multiply": ufunc(lambda a, b: N.binop("*", a, b)), "divide": ufunc(lambda a, b: N.binop("/", a, b)),
        "power": ufunc(lambda a, b: N.binop("**", a, b)), "negative": lambda a: N.unary("-", a),
        "logical_and": lambda a, b: ew(lambda x, y: land(N.truth(x), N.truth(y)), a, b, kind="bool"),
        "logical_or": lambda a, b: ew(lambda x, y: lor(N.truth(x), N.truth(y)), a, b, kind="bool"),
        "logical_not": lambda a: ew(lambda x: lnot(N.truth(x)), a, kind="bool"),
        "greater": lambda a, b: N.compare(">", a, b), "less": lambda a, b: N.compare("<", a, b),
        "greater_equal": lambda a, b: N.compare(">=", a, b), "less_equal": lambda a, b: N.compare("<=", a, b),
        "equal": lambda a, b: N.compare("==", a, b), "not_equal": lambda a, b: N.compare("!=", a, b),
        "array_equal": lambda a, b: array_equal(I, a, b),
        "sum": N.np_sum, "prod": N.np_prod, "mean": N.np_mean, "any": N.np_any, "all": N.np_all,
        "max": N.np_max, "min": N.np_min, "amax": N.np_max, "amin": N.np_min,
        "dot": N.np_dot, "matmul": N.matmul, "cumsum": N.np_cumsum, "diff": N.np_diff, "where": N.np_where,
        "clip": N.np_clip, "zeros": N.const_arr(0), "ones": N.const_arr(1), "empty": N.np_empty,
        "full": N.np_full, "zeros_like": N.like(0), "ones_like": N.like(1),
        "empty_like": lambda a, dtype=None: N.np_empty(N.as_nd(a).shape, dtype or N.DType("k", N.as_nd(a).kind)),
        "array": N.np_array, "asarray": N.np_asarray, "ascontiguousarray": N.np_asarray,
        "atleast_1d": N.np_atleast_1d, "atleast_2d": N.np_atleast_2d, "arange": N.np_arange,
        "concatenate": N.np_concatenate, "hstack": N.np_hstack, "vstack": N.np_vstack, "stack": N.np_stack,
        "append": lambda a, b: N.np_concatenate(SList([N.np_atleast_1d(a), N.np_atleast_1d(b)])),
        "squeeze": lambda a, axis=None: squeeze(N.as_nd(a), axis), "transpose": lambda a, axes=None: N.transpose(N.as_nd(a), axes),
        "reshape": lambda a, s: N.reshape(N.as_nd(a), N.shape_arg(s)), "copy": lambda a: N.copy(N.as_nd(a)),
        "ravel": lambda a: N.reshape(N.as_nd(a), (-1,)), "size": lambda a: N.prod_dims(N.as_nd(a).shape),
        "shape": lambda a: N.as_nd(a).shape, "ndim": lambda a: N.as_nd(a).ndim,
        "outer": lambda a, b: outer(a, b), "eye": eye, "identity": eye, "diag": diag,
        "errstate": lambda **k: None, "isscalar": lambda x: is_scalar(x),
        "dtype": lambda d, align=False: mk_dtype(I, d), "nonzero": lambda a: N.np_where(a),
        "tile": tile, "repeat": repeat, "broadcast_to": lambda a, s: bcast(a, s),
        "searchsorted": unsup("searchsorted"), "argsort": N.np_argsort, "sort": N.np_sort, "argmax": N.np_arg("max"), "argmin": N.np_arg("min"), "interp": unsup("interp"), "unique": np_unique, "meshgrid": np_meshgrid, "append": np_append, "split": lambda a, cuts, axis=0: np_split(I, a, cuts, axis), "array_split": lambda a, cuts, axis=0: np_split(I, a, cuts, axis),
        "trace": lambda a: N.np_sum(diag(a)), "inner": lambda a, b: inner(a, b), "vdot": lambda a, b: inner(a, b), "einsum": einsum,
        "expand_dims": lambda a, axis: expand_dims(N.as_nd(a), axis), "swapaxes": lambda a, i, j: swapaxes(N.as_nd(a), i, j),
        "moveaxis": lambda a, i, j: moveaxis(N.as_nd(a), i, j), "linspace": linspace,
        "column_stack": lambda xs: N.np_concatenate(SList([x if x.ndim == 2 else N.view(x, (slice(None), None)) for x in map(N.as_nd, I.to_pylist(xs))]), 1),
        "flatnonzero": lambda a: N.np_where(N.reshape(N.as_nd(a), (-1,)))[0], "count_nonzero": lambda a, axis=None: N.np_sum(ew(lambda x: ite(N.truth(x), 1, 0), a, kind="int"), axis),
        "take": lambda a, idx, axis=None: take(I, a, idx, axis), "ptp": lambda a, axis=None: N.binop("-", N.np_max(a, axis), N.np_min(a, axis)),
        "isclose": isclose, "allclose": lambda a, b, rtol=RTOL, atol=ATOL: N.np_all(isclose(a, b, rtol, atol)),
        "isin": lambda a, b: isin(I, a, b), "in1d": lambda a, b: isin(I, a, b),
        "argwhere": lambda a: N.view(N.np_where(a)[0], (slice(None), None)) if N.as_nd(a).ndim == 1 else unsup("argwhere")(),
        "nansum": N.np_sum, "nanmax": N.np_max, "median": N.np_median, "linalg": None, "sctypeDict": SDict({k: N.DType(k, "real" if k[0] == "f" else "int") for k in ("float32", "float64", "int32", "int64")}),
    }
    np.update({k: v for k, v in N.DT.items() if k not in ("float", "int", "bool")})
    np["bool_"] = N.DT["bool"]
    from .pyint import Ext
    la = Ext("numpy.linalg", {"det": det, "inv": inv, "solve": solve, "norm": lambda a, axis=None: ew(T.sqrt, N.np_sum(N.binop("*", a, a), axis))})
    np["linalg"] = la
    np["lib"] = Ext("numpy.lib", {"stride_tricks": Ext("numpy.lib.stride_tricks", {"as_strided": N.as_strided})})
    I.ext["numpy"] = Ext("numpy", np)
    I.ext["numpy.linalg"] = la
    I.ext["scipy.special"] = Ext("scipy.special", {
        "expit": e(_expit, kind="real"), "logit": e(lambda y: T.neg(T.log(arith("-", arith("/", 1, y), 1)))),
        "gamma": e(uf1("gamma"), kind="real"), "gammaln": e(lambda x: T.log(uf1("gamma")(x)), kind="real"),
        "gammainc": unsup("gammainc"), "beta": unsup("beta"), "betaln": unsup("betaln")})
    I.ext["math"] = Ext("math", {"pi": pi, "exp": T.exp, "log": T.log, "sqrt": T.sqrt, "sin": T.sin, "cos": T.cos,
                                 "hypot": _hypot, "atan2": _atan2, "inf": INF, "fabs": T.absr})
    now = lambda: T.fresh("time", T.R)
    I.ext["time"] = Ext("time", {"time": now, "perf_counter": now, "monotonic": now})
    import os.path as osp

    def text(f):
        def g(*a):
            if not all(isinstance(x, str) for x in a):
                if any(x is None or is_scalar(x) or isinstance(x, (SList, SDict, Nd, tuple)) for x in a):
                    raise PyRaise("TypeError", "expected str, bytes or os.PathLike object")
                raise Unsupported("path of opaque text")
            return f(*a)
        return g
    path = Ext("os.path", {k: text(getattr(osp, k)) for k in ("join", "basename", "dirname", "splitext", "normpath")})
    I.ext["os"] = Ext("os", {"path": path})
    I.ext["os.path"] = path
    I.ext["functools"] = Ext("functools", {"reduce": lambda f, xs, *a: reduce_(I, f, xs, *a),
                                           "partial": lambda f, *a, **k: (lambda *b, **m: I.call(f, [*a, *b], {**k, **m}))})
    I.ext["itertools"] = Ext("itertools", {"chain": lambda *xs: SList(sum([I.to_pylist(x) for x in xs], [])),
                                           "product": lambda *xs, repeat=1: SList(list(itertools.product(*([I.to_pylist(x) for x in xs] * repeat))))})
    I.ext["copy"] = Ext("copy", {"deepcopy": lambda v: deepcopy(I, v), "copy": lambda v: shallow(I, v)})
    I.ext["argparse"] = Ext("argparse", {"Namespace": lambda **k: Obj(None, "Namespace", **k)})


def reduce_(I, f, xs, *a):
    xs = list(a) + I.to_pylist(xs)
    if not xs:
        raise PyRaise("TypeError", "reduce of an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        r = I.call(f, [r, x], {})
    return r


def ufunc(f):
    def g(a, b, out=None):
        r = f(a, b)
        if out is None:
            return r
        N.assign(out, r)
        return out
    return g


def unsup(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


def conc_values(a):
    """python list of the values of a 1-d array, when all of them are known"""
    nd = N.as_nd(a)
    n = conc_of(nd.shape[0]) if is_z3(nd.shape[0]) else nd.shape[0]
    if nd.ndim != 1 or is_z3(n):
        return None
    out = []
    for k in range(int(n)):
        x = nd.at(k)
        x = conc_of(T.simp(x)) if is_z3(x) else x
        if is_z3(x):
            return None
        out.append(x)
    return out


def np_unique(a, return_index=False, return_inverse=False, return_counts=False):
    vals = conc_values(a)
    if vals is None:
        raise Unsupported("unique of unknown values")
    u = sorted(set(vals))
    out = [N.as_nd(SList(u))]
    if return_index:
        out.append(N.as_nd(SList([vals.index(x) for x in u])))
    if return_inverse:
        out.append(N.as_nd(SList([u.index(x) for x in vals])))
    if return_counts:
        out.append(N.as_nd(SList([vals.count(x) for x in u])))
    return out[0] if len(out) == 1 else tuple(out)


def np_meshgrid(*xs, indexing="xy"):
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    a, b = N.as_nd(xs[0]), N.as_nd(xs[1])
    fa, fb = N.snap(a), N.snap(b)
    if indexing == "xy":
        sh = (b.shape[0], a.shape[0])
        return SList([N.mk_nd(sh, lambda i, j: fa(j), a.kind), N.mk_nd(sh, lambda i, j: fb(i), b.kind)])
    sh = (a.shape[0], b.shape[0])
    return SList([N.mk_nd(sh, lambda i, j: fa(i), a.kind), N.mk_nd(sh, lambda i, j: fb(j), b.kind)])


def np_append(a, b, axis=None):
    a, b = N.as_nd(a), N.as_nd(b)
    if axis is None:
        a, b = (x if x.ndim == 1 else N.reshape(x, (-1,)) for x in (a, b))
    return N.np_concatenate(SList([a, b]), 0 if axis is None else axis)


def np_split(I, a, cuts, axis=0):
    """pieces between consecutive cut positions (which must be ordered and inside)"""
    get = N.getitem
    if isinstance(a, Rec):
        nd, get = a, N.rec_getitem
    else:
        nd = N.as_nd(a)
    if not (isinstance(axis, int) and axis == 0):
        raise Unsupported("split axis")
    if N.is_scalar(cuts):
        raise Unsupported("split into equal parts")
    c = N.as_nd(cuts)
    k = conc_of(c.shape[0]) if is_z3(c.shape[0]) else c.shape[0]
    if is_z3(k):
        cf, n = N.snap(c), nd.shape[0]
        j = T.fresh("piece", T.I)
        with I.assuming(j >= 0, j < k):
            if not I.valid(land(cmp("<=", 0, cf(j)), cmp("<=", cf(j), n), lor(cmp("==", j + 1, k), cmp("<=", cf(j), cf(j + 1))))):
                raise Unsupported("split positions")

        def piece(i):
            i = T.to_int(i)
            return get(nd, slice(T.simp(z3.If(i == 0, 0, T.to_int(cf(i - 1)))), T.simp(z3.If(i == k, T.to_int(n), T.to_int(cf(i))))))
        return SList(Seq(arith("+", k, 1), piece, "pieces"))
    pts = [0] + [c.at(i) for i in range(int(k))] + [nd.shape[0]]
    out = []
    cp = [conc_of(x) for x in pts]
    if not any(is_z3(x) for x in cp):
        pts = [min(int(x), int(cp[-1])) for x in cp]
    for lo, hi in zip(pts, pts[1:]):
        if not I.valid(land(cmp("<=", lo, hi), cmp(">=", lo, 0))):
            raise Unsupported("split positions")
        out.append(get(nd, slice(lo, hi)))
    return SList(out)


def array_equal(I, a, b):
    a, b = N.as_nd(a), N.as_nd(b)
    if a.ndim != b.ndim:
        return False
    eqs = [cmp("==", x, y) for x, y in zip(a.shape, b.shape)]
    c = land(*eqs)
    if not I.branch(c):
        return False
    return N.np_all(N.compare("==", a, b))


def expand_dims(nd, axis):
    k = int(axis) % (nd.ndim + 1)
    return N.view(nd, tuple([slice(None)] * k + [None] + [slice(None)] * (nd.ndim - k)))


def swapaxes(nd, i, j):
    ax = list(range(nd.ndim))
    i, j = int(i) % nd.ndim, int(j) % nd.ndim
    ax[i], ax[j] = j, i
    return N.transpose(nd, tuple(ax))


def moveaxis(nd, i, j):
    if not (isinstance(i, int) and isinstance(j, int)):
        raise Unsupported("moveaxis")
    i, j = i % nd.ndim, j % nd.ndim
    ax = [k for k in range(nd.ndim) if k != i]
    ax.insert(j, i)
    return N.transpose(nd, tuple(ax))


def linspace(a, b, num=50, endpoint=True):
    n = conc_of(num)
    if is_z3(n) or not is_scalar(a) or not is_scalar(b):
        raise Unsupported("linspace")
    d = int(n) - 1 if endpoint else int(n)
    return N.mk_nd((int(n),), lambda i: arith("+", a, arith("*", i, arith("/", arith("-", b, a), d))) if d else a, "real")


def take(I, a, idx, axis=None):
    nd = N.as_nd(a)
    if axis is None and nd.ndim != 1 or axis not in (None, 0):
        raise Unsupported("take")
    return N.getitem(nd, idx)


def isin(I, a, b):
    nd = N.as_nd(b)
    if nd.ndim != 1:
        raise Unsupported("isin")
    return ew(lambda x: I.contains(nd, x), a, kind="bool")


def inner(a, b):
    a, b = N.as_nd(a), N.as_nd(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("inner of matrices")
    return N.np_dot(a, b)


def einsum(spec, *ops):
    """explicit-index product summed over the contracted letters"""
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    lhs, arrow, out = spec.partition("->")
    ins = lhs.split(",")
    nds = [N.as_nd(o) for o in ops]
    if len(ins) != len(nds) or any(len(t) != x.ndim for t, x in zip(ins, nds)):
        raise PyRaise("ValueError", "einsum")
    if not arrow:
        out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
    dims = {}
    for t, x in zip(ins, nds):
        for c, d in zip(t, x.shape):
            if c in dims and not N.same_dim(dims[c], d):
                raise Unsupported("einsum sizes")
            dims.setdefault(c, d)
    rest = [c for c in dict.fromkeys("".join(ins)) if c not in out]
    fs = [N.snap(x) for x in nds]

    def at(*ix):
        def go(env, todo):
            if todo:
                return N.r_sum(dims[todo[0]], lambda k: go({**env, todo[0]: k}, todo[1:]))
            r = 1
            for t, f in zip(ins, fs):
                r = arith("*", r, f(*[env[c] for c in t]))
            return r
        return go(dict(zip(out, ix)), rest)
    kind = "real" if any(x.kind == "real" for x in nds) else "int"
    return at() if not out else N.mk_nd(tuple(dims[c] for c in out), at, kind)


def corder(o):
    if o != "C":
        raise Unsupported("memory order")
    return True


def squeeze(nd, axis=None):
    if axis is not None:
        ax = [int(x) % nd.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
        for x in ax:
            if not N.CX().branch(T.cmp("==", nd.shape[x], 1)):
                raise PyRaise("ValueError", "cannot squeeze")
        return N.view(nd, tuple(0 if k in ax else slice(None) for k in range(nd.ndim)))
    keep = [k for k, s in enumerate(nd.shape) if not N.CX().branch(T.cmp("==", s, 1))]
    key = tuple(slice(None) if k in keep else 0 for k in range(nd.ndim))
    r = N.view(nd, key) if nd.ndim else nd
    return r


def outer(a, b):
    a, b = N.as_nd(a), N.as_nd(b)
    return N.binop("*", N.view(N.reshape(a, (-1,)), (slice(None), None)), N.view(N.reshape(b, (-1,)), (None, slice(None))))


def eye(n, dtype=None):
    return N.mk_nd((n, n), lambda i, j: ite(cmp("==", i, j), 1, 0), "real")


def diag(a):
    nd = N.as_nd(a)
    f = N.snap(nd)
    if nd.ndim == 1:
        n = nd.shape[0]
        return N.mk_nd((n, n), lambda i, j: ite(cmp("==", i, j), f(i), 0), nd.kind)
    return N.mk_nd((nd.shape[0],), lambda i: f(i, i), nd.kind)


def det(a):
    nd = N.as_nd(a)
    if nd.shape[-2:] != (2, 2):
        raise Unsupported("det")
    f = N.snap(nd)

    def at(*ix):
        return arith("-", arith("*", f(*ix, 0, 0), f(*ix, 1, 1)), arith("*", f(*ix, 0, 1), f(*ix, 1, 0)))
    return at() if nd.ndim == 2 else N.mk_nd(nd.shape[:-2], at)


def inv(a):
    nd = N.as_nd(a)
    if nd.shape[-2:] != (2, 2):
        raise Unsupported("inv")
    f = N.snap(nd)

    def at(*ix):
        p, i, j = ix[:-2], ix[-2], ix[-1]
        d = arith("-", arith("*", f(*p, 0, 0), f(*p, 1, 1)), arith("*", f(*p, 0, 1), f(*p, 1, 0)))
        v = ite(cmp("==", i, j), f(*p, arith("-", 1, i), arith("-", 1, j)), T.neg(f(*p, i, j)))
        return arith("/", v, d)
    return N.mk_nd(nd.shape, at)


def solve(a, b):
    A, B = N.as_nd(a), N.as_nd(b)
    if A.shape[-2:] != (2, 2):
        raise Unsupported("solve")
    return N.matmul(inv(A), B)


def tile(a, reps):
    nd = N.as_nd(a)
    if nd.ndim == 0:
        nd = N.np_atleast_1d(nd)
    if not is_scalar(reps) or nd.ndim != 1:
        raise Unsupported("tile")
    f, m = N.snap(nd), nd.shape[0]
    return N.mk_nd((arith("*", m, reps),), lambda i: f(N.divmod_sym(i, m)[1]), nd.kind)


def repeat(a, n, axis=None):
    nd = N.as_nd(a)
    if not is_scalar(n) or nd.ndim > 1:
        raise Unsupported("repeat")
    f = N.snap(nd)
    if nd.ndim == 0:
        return N.mk_nd((n,), lambda i: f(), nd.kind)
    return N.mk_nd((arith("*", nd.shape[0], n),), lambda i: f(N.divmod_sym(i, n)[0]), nd.kind)


def bcast(a, s):
    nd = N.as_nd(a)
    sh = N.shape_arg(s)
    f = N.snap(nd)
    return N.mk_nd(sh, lambda *ix: f(*N.bidx(nd.shape, ix)), nd.kind)


def mk_dtype(I, d):
    if isinstance(d, (N.DtypeSpec, N.DType)):
        return d
    if isinstance(d, SList) and isinstance(d.v, list):
        fields = {}
        for x in d.v:
            nm = x[0]
            if not isinstance(nm, str):
                raise Unsupported("dtype field")
            tail = ()
            if len(x) > 2:
                tail = N.shape_arg(x[2])
            fields[nm] = (N.dtype_of(x[1]) if not isinstance(x[1], (N.DtypeSpec,)) else x[1], tail)
        return N.DtypeSpec(fields)
    return N.dtype_of(d)


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Nd):
        r = N.copy(v)
    elif isinstance(v, Rec):
        r = N.rec_copy(v)
    elif isinstance(v, SList):
        if isinstance(v.v, list):
            r = SList([])
            memo[id(v)] = r
            r.d["v"] = [deepcopy(I, x, memo) for x in v.v]
            return r
        r = SList(v.v)
    elif isinstance(v, SDict):
        r = SDict({k: deepcopy(I, x, memo) for k, x in v.d.items()})
    elif isinstance(v, Obj):
        r = Obj(v.cls, v.name)
        memo[id(v)] = r
        r.a = {k: deepcopy(I, x, memo) for k, x in v.a.items()}
        return r
    elif isinstance(v, tuple):
        r = tuple(deepcopy(I, x, memo) for x in v)
    else:
        r = v
    memo[id(v)] = r
    return r


def shallow(I, v):
    if isinstance(v, Nd):
        return N.copy(v)
    if isinstance(v, SList):
        return SList(list(v.v) if isinstance(v.v, list) else v.v)
    if isinstance(v, SDict):
        return SDict(v.d)
    if isinstance(v, Obj):
        r = Obj(v.cls, v.name)
        r.a = dict(v.a)
        return r
    return v


def builtins(I):
    def b_len(v):
        if getattr(v, "isset", False):
            return set_len(I, v)
        if isinstance(v, Obj) and not isinstance(v, (SList,)):
            if "__len__" in v.a:
                return v.a["__len__"]()
            from .pyint import Cls, Bound
            if isinstance(v.cls, Cls):
                c, f = v.cls.find("__len__")
                if f:
                    return I.call(Bound(f, v), [], {})
        return N.np_len(v)

    def b_range(*a):
        a = [conc_of(x.at() if isinstance(x, Nd) else x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(not is_z3(x) for x in (lo, hi, st)):
            return SList(list(range(int(lo), int(hi), int(st))))
        if is_z3(st):
            raise Unsupported("symbolic range step")
        n = arith("-", hi, lo)
        if st != 1:
            if st < 1:
                raise Unsupported("range step")
            n = arith("//", arith("+", n, st - 1), st)
        if is_z3(n) and not I.valid(cmp(">=", n, 0)):
            n = T.rmax(n, 0)
        return SList(Seq(n, lambda i: arith("+", lo, arith("*", st, i))))

    def b_enumerate(v, start=0):
        it = I.iterable(v)
        if isinstance(it, list):
            return SList([(k + start, x) for k, x in enumerate(it)])
        return SList(Seq(it.n, lambda i: (arith("+", i, start), it.at(i))))

    def b_zip(*vs):
        its = [I.iterable(v) for v in vs]
        if all(isinstance(x, list) for x in its):
            return SList([tuple(t) for t in zip(*its)])
        ns = [N.np_len(SList(x)) for x in its]
        n = ns[0]
        for m in ns[1:]:
            if N.same_dim(n, m):
                continue
            n = T.rmin(n, m)
        return SList(Seq(n, lambda i: tuple(I.seq_at(x, i) for x in its)))

    def b_sum(v, start=0):
        it = I.iterable(v)
        if isinstance(it, list):
            r = start
            for x in it:
                r = I.binop("+", r, x)
            return r
        i0 = T.fresh("sp", T.I)
        with I.assuming(i0 >= 0, cmp("<", i0, it.n)):
            x = it.at(i0)
        if is_scalar(x):
            return arith("+", start, N.r_sum(it.n, lambda k: it.at(k)))
        return I.binop("+", start, N.np_sum(N.as_nd(it), 0))

    def b_minmax(op):
        def f(*a, **k):
            key = k.pop("key", None)
            if key is not None or "default" in k:
                it = I.to_pylist(a[0]) if len(a) == 1 else list(a)
                if not it and "default" in k:
                    return k["default"]
                if not it:
                    raise PyRaise("ValueError", "empty")
                best, kb = it[0], it[0] if key is None else I.call(key, [it[0]], {})
                for x in it[1:]:
                    kx = x if key is None else I.call(key, [x], {})
                    if I.branch(I.truth(I.cmpval(">" if op == "max" else "<", kx, kb))):
                        best, kb = x, kx
                return best
            if k:
                raise Unsupported("min/max kwargs")
            if len(a) == 1:
                if isinstance(a[0], Nd):
                    return (N.np_max if op == "max" else N.np_min)(a[0])
                it = I.iterable(a[0])
                if isinstance(it, Seq):
                    return (N.np_max if op == "max" else N.np_min)(N.as_nd(it))
                a = it
                if not a:
                    raise PyRaise("ValueError", "empty")
            r = a[0]
            for x in a[1:]:
                if isinstance(r, Nd):
                    r = r.at() if r.ndim == 0 else r
                if isinstance(x, Nd):
                    x = x.at() if x.ndim == 0 else x
                if isinstance(x, (tuple, str)) and type(x) is type(r):
                    r = x if I.branch(I.truth(I.cmpval(">" if op == "max" else "<", x, r))) else r
                    continue
                if not (is_scalar(x) and is_scalar(r)):
                    raise Unsupported("min/max of non-scalars")
                # python keeps the first on ties
                r = ite(cmp(">" if op == "max" else "<", x, r), x, r)
            return r
        return f

    def b_isinstance(v, t):
        from .pyint import Cls, Func, Ext
        ts = t if isinstance(t, tuple) and not (t and isinstance(t[0], str)) else (t,)
        for x in ts:
            if isinstance(x, Cls):
                c = getattr(v, "cls", None)
                if isinstance(c, Cls) and x in c.mro():
                    return True
            elif x == ("type", "ndarray"):
                if isinstance(v, (Nd, Rec)):
                    return True
            elif isinstance(x, tuple) and x and x[0] == "btype":
                k = x[1]
                if k not in ("str", "list", "dict", "tuple", "bool"):
                    raise Unsupported(f"isinstance of {k}")
                if k == "str" and isinstance(v, (str, Name)):
                    return True
                if k == "list" and isinstance(v, SList):
                    return True
                if k == "dict" and isinstance(v, SDict):
                    return True
                if k == "tuple" and isinstance(v, tuple):
                    return True
                if k == "bool" and N.is_scalar(v) and N.scalar_kind(v) == "bool":
                    return True
            elif isinstance(x, N.DType):
                if is_scalar(v) and N.scalar_kind(v) == x.kind and x.name in ("float64", "int64", "bool", "float", "int"):
                    return True
            else:
                raise Unsupported(f"isinstance of {getattr(x, 'name', x)}")
        return False

    def b_hasattr(o, k):
        try:
            I.getattr(o, k)
            return True
        except PyRaise as e:
            if e.etype == "AttributeError":
                return False
            raise
        except NotInContract:
            if isinstance(o, Obj) and o.cls is None:
                raise
            return False

    def b_getattr(o, k, *d):
        try:
            return I.getattr(o, k)
        except PyRaise as e:
            if e.etype == "AttributeError" and d:
                return d[0]
            raise
        except NotInContract:
            if d and not (isinstance(o, Obj) and o.cls is None):
                return d[0]
            raise

    def b_list(v=None):
        if v is None:
            return SList([])
        it = I.iterable(v)
        return SList(it if isinstance(it, Seq) else list(it))

    def b_tuple(v=()):
        it = I.iterable(v)
        if isinstance(it, Seq):
            raise Unsupported("tuple of symbolic length")
        return tuple(it)

    def b_dict(v=None, **k):
        if v is None:
            return SDict(k)
        if isinstance(v, SDict):
            return SDict({**v.d, **k})
        return SDict({**{I.hashable(a): b for a, b in [I.to_pylist(x) for x in I.to_pylist(v)]}, **k})

    def b_bool(v=False):
        return I.truth(v)

    def b_int(v=0, *a):
        if isinstance(v, Nd):
            v = v.at(*([0] * v.ndim))
        if isinstance(v, str):
            return int(v)
        return N.trunc(v)

    def b_float(v=0):
        if isinstance(v, Nd):
            v = v.at(*([0] * v.ndim))
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                raise PyRaise("ValueError", "could not convert string to float")
            return Fraction(v) if math.isfinite(v) else v
        if isinstance(v, float):
            return v
        return T.to_real(v) if is_z3(v) else Fraction(v)

    def b_abs(v):
        return ew(T.absr, v)

    def b_any(v):
        it = I.iterable(v)
        if isinstance(it, list):
            return lor(*[I.truth(x) for x in it])
        return N.quant(it.n, lambda k: I.truth(it.at(k)), True)

    def b_all(v):
        it = I.iterable(v)
        if isinstance(it, list):
            return land(*[I.truth(x) for x in it])
        return N.quant(it.n, lambda k: I.truth(it.at(k)), False)

    def b_reversed(v):
        it = I.iterable(v)
        if isinstance(it, list):
            return SList(it[::-1])
        return SList(Seq(it.n, lambda i: it.at(arith("-", arith("-", it.n, 1), i))))

    def b_sorted(v, key=None, reverse=False):
        it = I.iterable(v)
        if isinstance(it, list) and isinstance(reverse, bool) and (len(it) <= 4 or all(isinstance(x, (int, str)) for x in it)):
            ks = [x if key is None else I.call(key, [x], {}) for x in it]
            if all(isinstance(x, (int, str)) for x in ks):
                o = sorted(range(len(it)), key=lambda i: ks[i], reverse=reverse)
                return SList([it[i] for i in o])
            if all(is_scalar(x) for x in ks) or all(isinstance(x, tuple) for x in ks):     # stable insertion sort, one branch per comparison
                out = []
                for kx, x in zip(ks, it):
                    j = len(out)
                    while j > 0 and I.branch(I.truth(I.cmpval(">" if reverse else "<", kx, out[j - 1][0]))):
                        j -= 1
                    out.insert(j, (kx, x))
                return SList([x for _, x in out])
        if isinstance(it, Seq) and key is None and isinstance(reverse, bool):
            i, j = z3.Ints("srt_i srt_j")
            if N.scalar_kind(it.at(i)) == "int":
                # a monotone rearrangement: result(i) = input(p(i)) with p a permutation
                D, p, r = (T.fresh_fun(nm, T.I, T.I) for nm in ("sorted", "perm", "perminv"))
                n = it.n
                I.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, r(p(i)) == i, D(i) == it.at(p(i)))), patterns=[D(i)]),
                       z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= r(i), r(i) < n, p(r(i)) == i)), patterns=[r(i)]),
                       z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), D(i) >= D(j) if reverse else D(i) <= D(j)),
                                 patterns=[z3.MultiPattern(D(i), D(j))]))
                return SList(Seq(n, lambda k: D(T.to_int(k)), "sorted"))
        raise Unsupported("sorted")

    def b_set(v=None):
        it = [] if v is None else I.iterable(v)
        if isinstance(it, list) and all(isinstance(x, (int, str, bool)) for x in it):
            r = SList(list(dict.fromkeys(it)))
            r.pyset = True
            return r
        r = SList(it if isinstance(it, Seq) else list(it))
        r.isset = True           # duplicates not removed: membership only
        return r

    def b_setattr(o, k, v):
        I.setattr(o, k, v)

    def b_type(v):
        if isinstance(v, Obj):
            if v.cls is None:
                raise Unsupported("type() of an opaque value")
            return v.cls
        for x, c in ((SList, "list"), (SDict, "dict"), (str, "str"), (tuple, "tuple"), (bool, "bool")):
            if isinstance(v, x):
                return d[c]
        if is_scalar(v) and N.scalar_kind(v) in ("int", "real"):
            return d["int" if N.scalar_kind(v) == "int" else "float"]
        if v is None:
            return ("type", "NoneType")
        if isinstance(v, (Nd, Rec)):
            return ("type", "ndarray")
        raise Unsupported("type()")

    def b_vars(v):
        if isinstance(v, Obj):
            r = SDict()
            r.d = v.a
            return r
        raise Unsupported("vars()")

    def b_callable(v):
        from .pyint import Func, Bound, Cls
        return isinstance(v, (Func, Bound, Cls)) or callable(v)

    def b_divmod(a, b):
        return I.binop("//", a, b), I.binop("%", a, b)

    def b_round(x, nd=None):
        if nd is None and not is_z3(x) and is_scalar(x):
            return round(Fraction(x))
        raise Unsupported("round")

    def b_filter(f, v):
        return SList([x for x in I.to_pylist(v) if I.branch(I.truth(x if f is None else I.call(f, [x], {})))])

    def b_iter(v):
        return v if not isinstance(I.iterable(v), list) else SIter(I, I.iterable(v))

    def b_next(it, *d):
        if not isinstance(it, SIter):
            raise Unsupported("next")
        return it.next(*d)

    def b_delattr(o, k):
        if not isinstance(o, Obj):
            raise Unsupported("delattr")
        if k not in o.a:
            raise PyRaise("AttributeError", k)
        TR.delete(o, k)

    def b_map(f, v, *more):
        if more:
            return SList([I.call(f, list(x), {}) for x in zip(*[I.to_pylist(w) for w in (v, *more)])])
        it = I.iterable(v)
        if isinstance(it, list):
            return SList([I.call(f, [x], {}) for x in it])
        return SList(Seq(it.n, lambda i: I.pure(lambda: I.call(f, [it.at(i)], {}))))

    def b_str(v=""):
        if isinstance(v, (str, int)):
            return str(v)
        if isinstance(v, Name):
            return v
        from .pyint import Str, plain
        if plain(v) is not None:
            return str(plain(v))
        return Str()

    d = {"len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "sum": b_sum,
         "max": b_minmax("max"), "min": b_minmax("min"), "isinstance": b_isinstance, "hasattr": b_hasattr,
         "getattr": b_getattr, "setattr": b_setattr, "bool": BType("bool", b_bool), "abs": b_abs,
         "list": BType("list", b_list), "tuple": BType("tuple", b_tuple), "dict": BType("dict", b_dict),
         "int": IntType("int64", "int", b_int), "float": IntType("float64", "real", b_float), "any": b_any,
         "all": b_all, "reversed": b_reversed, "sorted": b_sorted, "type": b_type, "callable": b_callable,
         "vars": b_vars, "map": b_map, "str": BType("str", b_str), "print": lambda *a, **k: None, "set": BType("set", b_set),
         "True": True, "False": False, "None": None, "object": BType("object", lambda: Obj(None, "object")), "id": unsup("id"),
         "slice": lambda *a: slice(*a), "iter": b_iter, "next": b_next, "divmod": b_divmod, "filter": b_filter, "delattr": b_delattr, "Ellipsis": Ellipsis,
         "round": b_round, "NotImplementedError": "NotImplementedError", "ValueError": "ValueError",
         "Exception": "Exception", "KeyError": "KeyError", "TypeError": "TypeError", "RuntimeError": "RuntimeError"}
    return d


class SIter(SList):
    """an iterator over a known list; consumed from the front"""
    def __init__(self, I, items):
        SList.__init__(self, list(items))

    def next(self, *d):
        if self.v:
            x = self.v[0]
            self.set(self.v[1:])
            return x
        if d:
            return d[0]
        raise PyRaise("StopIteration", "")


class BType(tuple):
    """builtin type usable both as constructor and in isinstance"""
    def __new__(cls, name, f):
        o = tuple.__new__(cls, ("btype", name))
        o.f = f
        return o

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class IntType(N.DType):
    def __init__(self, name, kind, f):
        super().__init__(name, kind)
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


# ------------------------------------------------------------------ methods
def method(I, v, k):
    if k == "__array_interface__" and isinstance(v, (Nd, Rec)):
        return SDict({"data": (N.addr_of(v), False)})
    if isinstance(v, Nd):
        return nd_method(I, v, k)
    if isinstance(v, Rec):
        return rec_method(I, v, k)
    if isinstance(v, SList):
        return list_method(I, v, k)
    if isinstance(v, SDict):
        return dict_method(I, v, k)
    if isinstance(v, N.DtypeSpec):
        if k == "names":
            return v.names
        if k == "descr":
            return SList([(n, d, tuple(t)) if t else (n, d) for n, (d, t) in v.fields.items()])
    if isinstance(v, N.DType):
        if k == "name":
            return v.name
        if k == "names":
            return None
        if k == "kind":
            return {"real": "f", "int": "i", "bool": "b"}[v.kind]
    if isinstance(v, str):
        if k in ("lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "replace", "startswith", "endswith", "join",
                 "format", "find", "rfind", "count", "index", "title", "capitalize", "isdigit", "zfill", "removeprefix", "removesuffix", "splitlines"):
            def f(*a, **kw):
                if any(not isinstance(x, (str, int)) for x in a):
                    from .pyint import Str
                    if k == "join":
                        xs = I.to_pylist(a[0])
                        if all(isinstance(x, str) for x in xs):
                            return v.join(xs)
                    return Str()
                try:
                    r = getattr(v, k)(*a, **kw)
                except (ValueError, TypeError, IndexError, KeyError) as e:
                    raise PyRaise(type(e).__name__, k)
                return SList(r) if isinstance(r, list) else r
            return f
    if isinstance(v, tuple):
        if k == "index":
            return lambda x: list_index(I, list(v), x)
        if k == "count":
            return lambda x: v.count(x)
    if is_scalar(v):
        if k in ("astype",):
            return lambda d, **kw: N.astype(v, d)
        if k in ("sum", "mean", "max", "min", "squeeze", "flatten", "item", "copy", "prod"):
            return lambda *a, **kw: v
        if k == "shape":
            return ()
        if k == "ndim":
            return 0
        if k == "size":
            return 1
        if k == "T":
            return v
        if k == "any" or k == "all":
            return lambda *a: N.truth(v)
        if k == "reshape":
            return lambda *s: N.reshape(N.as_nd(v), N.shape_arg(s[0]) if len(s) == 1 else s)
        if k == "real":
            return v
    return None


def list_index(I, xs, x):
    for j, y in enumerate(xs):
        c = I.truth(I.cmpval("==", x, y))
        if I.branch(c):
            return j
    raise PyRaise("ValueError", "not in list")


def seq_index(I, s, x):
    """first position of x in a symbolic sequence: an abstract function with its
    defining axiom, per sequence"""
    v = T.fresh("qv", T.I)
    with I.assuming(v >= 0, cmp("<", v, s.n)):
        eq = T.to_bool(I.truth(I.cmpval("==", x, s.at(v))))
    # direct hit: x is syntactically the j-th element
    for cand in index_candidates(eq, v):
        if T.contains(cand, v):
            continue
        ok = z3.And(cand >= 0, cand < T.to_int(s.n), z3.substitute(eq, (v, cand)))
        first = z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < cand), z3.Not(eq)))
        if I.prover.valid(z3.And(ok, first), I.hyps(), 4000):
            return cand
    has = z3.Exists([v], z3.And(v >= 0, cmp("<", v, s.n), eq))
    if not I.branch(has):
        raise PyRaise("ValueError", "not in list")
    j = T.fresh("pos", T.I)
    I.no_bound(z3.substitute(eq, (v, z3.IntVal(0))))
    I.fact(j >= 0, cmp("<", j, s.n), z3.substitute(eq, (v, j)),
           z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < j), z3.Not(eq))))
    return j


def index_candidates(eq, v):
    out, st = [], [eq]
    while st:
        t = st.pop()
        if z3.is_app(t):
            if z3.is_eq(t):
                a, b = t.arg(0), t.arg(1)
                for x, y in ((a, b), (b, a)):
                    if x.eq(v):
                        out.append(y)
                    # f(v) == f(j)
                    if z3.is_app(x) and z3.is_app(y) and x.num_args() and x.decl().eq(y.decl()):
                        for p, q in zip(x.children(), y.children()):
                            if p.eq(v) and not q.eq(v):
                                out.append(q)
            st.extend(t.children())
    return out


def list_method(I, v, k):
    from .pyint import HavocList
    if k == "append":
        def f(x):
            v.set(I.list_extend(v.v, [x]))
        return f
    if k == "extend":
        def f(x):
            v.set(I.list_extend(v.v, I.iterable(x)))
        return f
    if isinstance(v.v, HavocList):
        raise Unsupported(f"list.{k} inside a symbolic loop")
    if k == "index":
        return lambda x: list_index(I, v.v, x) if isinstance(v.v, list) else seq_index(I, v.v, x)
    if k == "copy":
        return lambda: SList(list(v.v) if isinstance(v.v, list) else v.v)
    if k == "pop":
        def f(j=-1):
            n = N.np_len(v)
            if not I.branch(T.cmp(">", n, 0)):
                raise PyRaise("IndexError", "pop from empty list")
            r = I.getitem(v, j)
            list_delete(I, v, j)
            return r
        return f
    if isinstance(v.v, list):
        if k == "pop":
            def f(j=-1):
                if not v.v:
                    raise PyRaise("IndexError", "pop from empty list")
                x = list(v.v)
                r = x.pop(int(j))
                v.set(x)
                return r
            return f
        if k == "insert":
            def f(j, x):
                y = list(v.v)
                y.insert(int(j), x)
                v.set(y)
            return f
        if k == "remove":
            def f(x):
                j = list_index(I, v.v, x)
                v.set(v.v[:j] + v.v[j + 1:])
            return f
        if k == "count":
            return lambda x: I.builtins["sum"](SList([T.to_int(T.to_bool(I.truth(I.cmpval("==", x, y)))) for y in v.v]))
        if k == "add":
            def f(x):
                c = I.contains(v, x)
                if not I.branch(c):
                    v.set(v.v + [x])
            return f
        if k == "reverse":
            return lambda: v.set(v.v[::-1])
    return None


def list_delete(I, v, j):
    """del v[j]"""
    l, j = v.v, conc_of(j)
    if isinstance(l, list) and not is_z3(j):
        x = list(l)
        try:
            del x[int(j)]
        except IndexError:
            raise PyRaise("IndexError", "list index out of range")
        v.set(x)
        return
    if not isinstance(l, (list, Seq)):
        raise Unsupported("del item")
    n = N.np_len(v)
    j = N.norm_int(j, n)

    def at(i):
        c = T.cmp("<", i, j)
        d = I.decide(c)
        if d is True:
            return I.seq_at(l, i)
        if d is False:
            return I.seq_at(l, arith("+", i, 1))
        with I.assuming(c):
            x = I.seq_at(l, i)
        with I.assuming(T.lnot(c)):
            y = I.seq_at(l, arith("+", i, 1))
        return I.merge(c, x, y)
    v.set(Seq(arith("-", n, 1), at))


def set_len(I, v):
    """size of set(v): the length when the elements are pairwise distinct"""
    n = N.np_len(v)
    i, j = T.fresh("si", T.I), T.fresh("sj", T.I)
    with I.assuming(i >= 0, T.cmp("<", i, j), T.cmp("<", j, n)):
        ok = I.valid(T.lnot(T.to_bool(I.truth(I.cmpval("==", I.seq_at(v.v, i), I.seq_at(v.v, j))))))
    if ok:
        return n
    raise Unsupported("size of a symbolic set")


def dict_method(I, v, k):
    if k == "keys":
        return lambda: SList(list(v.d.keys()))
    if k == "values":
        return lambda: SList(list(v.d.values()))
    if k == "items":
        return lambda: SList(list(v.d.items()))
    if k == "get":
        return lambda a, d=None: v.d.get(I.hashable(a), d)
    if k == "pop":
        def f(a, *d):
            a = I.hashable(a)
            if a in v.d:
                r = v.d[a]
                TR.delete(v, a)
                return r
            if d:
                return d[0]
            raise PyRaise("KeyError", str(a))
        return f
    if k == "update":
        def f(o=None, **kw):
            if o is not None:
                for a, b in (o.d if isinstance(o, SDict) else dict(I.to_pylist(x) for x in I.to_pylist(o))).items():
                    v.set(a, b)
            for a, b in kw.items():
                v.set(a, b)
        return f
    if k == "setdefault":
        def f(a, d=None):
            a = I.hashable(a)
            if a not in v.d:
                v.set(a, d)
            return v.d[a]
        return f
    if k == "copy":
        return lambda: SDict(v.d)
    return None


def rec_method(I, v, k):
    if k == "shape":
        return v.shape
    if k == "ndim":
        return v.ndim
    if k == "size":
        return N.prod_dims(v.shape)
    if k == "dtype":
        return N.DtypeSpec({n: (N.DType(b.kind, b.kind), t) for n, (b, t) in v.fields.items()}, v.fam)
    if k == "copy":
        return lambda: N.rec_copy(v)
    return None


def nd_method(I, v, k):
    if k == "shape":
        return v.shape
    if k == "ndim":
        return v.ndim
    if k == "size":
        return N.prod_dims(v.shape)
    if k == "nbytes":           # widths are not modelled: one unknown item size per kind
        return arith("*", N.prod_dims(v.shape), z3.Int("itemsize_" + v.kind))
    if k == "T":
        return N.transpose(v)
    if k == "dtype":
        d = N.DType({"real": "float64", "int": "int64", "bool": "bool"}[v.kind], v.kind)
        d.width = False
        return d
    if k == "strides":
        return N.strides(v)
    if k in ("flat",):
        return N.reshape(v, (-1,))
    if k == "copy":
        return lambda *a: N.copy(v)
    if k == "astype":
        return lambda d, **kw: N.astype(v, d)
    if k == "reshape":
        return lambda *s, order="C": corder(order) and N.reshape(v, N.shape_arg(s[0]) if len(s) == 1 else tuple(s))
    if k == "flatten":
        return lambda order="C": corder(order) and N.copy(N.reshape(v, (-1,)))
    if k == "ravel":
        return lambda order="C": corder(order) and N.reshape(v, (-1,))
    if k == "transpose":
        return lambda *a: N.transpose(v, a[0] if len(a) == 1 and isinstance(a[0], tuple) else (a or None))
    if k == "squeeze":
        return lambda axis=None: squeeze(v, axis)
    if k == "fill":
        return lambda x: N.assign(v, x)
    if k == "tolist":
        def f():
            r = I.iterable(v)
            return SList(r)
        return f
    if k == "item":
        return lambda *a: v.at(*a) if a and len(a) == v.ndim else v.at(*([0] * v.ndim)) if not a else unsup("item")()
    if k == "take":
        return lambda idx, axis=None: take(I, v, idx, axis)
    if k == "swapaxes":
        return lambda i, j: swapaxes(v, i, j)
    if k == "trace":
        return lambda: N.np_sum(diag(v))
    tbl = {"sum": N.np_sum, "prod": N.np_prod, "mean": N.np_mean, "any": N.np_any, "all": N.np_all,
           "max": N.np_max, "min": N.np_min, "dot": N.np_dot, "cumsum": N.np_cumsum, "clip": N.np_clip, "argmin": N.np_arg("min"), "argmax": N.np_arg("max")}
    if k in tbl:
        return lambda *a, **kw: tbl[k](v, *a, **kw)
    return None
