"""Small functions run both by CPython and by the engine's interpreter (tools/conformance.py): the two must agree.
Exact binary fractions only, so that the engine's real arithmetic and float64 coincide."""
import os
from argparse import Namespace
from collections import namedtuple
from functools import reduce
from itertools import chain as ichain
import numpy as np

Pair = namedtuple("Pair", ["a", "b"])


class Base:
    K = 3
    cols = ["x", "y"]

    def __init__(self, a, b=2, *rest, c=5, **extra):
        self.a, self.b, self.c = a, b, c
        self.rest = rest
        self.extra = extra

    def get(self):
        return self.a + self.K

    @property
    def twice(self):
        return 2 * self.a

    @twice.setter
    def twice(self, v):
        self.a = v / 2

    @staticmethod
    def stat(x):
        return x + 1

    @classmethod
    def make(cls, x):
        return cls(x, b=x)

    def __len__(self):
        return 7

    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *a):
        self.left = True


class Derived(Base):
    K = 10

    def __init__(self, a, **kw):
        super().__init__(a, **kw)
        self.d = 1

    def get(self):
        return super().get() * 2


# ---- builtins and types
def t_isinstance():
    return (isinstance("a", str), isinstance(1, str), isinstance([1], list), isinstance((1,), list), isinstance({}, dict), isinstance((1,), (list, tuple)),
            isinstance(1.5, float), isinstance(3, int), isinstance(np.zeros(2), np.ndarray), isinstance([1], np.ndarray), isinstance(None, str), isinstance(True, bool),
            isinstance("a", (int, str)), isinstance(2, (float, int)))
def t_isinst_cls(): return isinstance(Derived(1), Base), isinstance(Base(1), Derived), isinstance(Base(1), (str, Base))
def t_type(): return type(3) is int, type("a") is str, type([1]) is list, type({}) is dict, type((1,)) == tuple, type(2.) is float, type(np.zeros(1)) is np.ndarray, type(np.zeros(1)) == np.ndarray
def t_none(): return None is None, 0 is None, [] == [], not [], not "", not 0, not {}, bool([0]), None == 0
def t_chain_cmp(): return 1 < 2 < 3, 1 < 3 < 2, 3 > 2 >= 2, 1 == 1 != 2
def t_boolops(): return 0 or 5, 3 and 4, None or "x", [] or [1], 0 and 1, not 0 and 7, "" or None
def t_ternary(): return [a if a > 1 else -a for a in (0, 1, 2, 3)]
def t_divmod(): return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 7 / 2, 2**3, 2**-1, divmod(7, 3), abs(-3), round(2.5), round(3.5), int(2.9), int(-2.9), float(3)
def t_minmax(): return max(1, 5, 3), min([4, 2, 8]), max([1, 2], key=lambda v: -v), min((3, 1), (2, 9)), max([], default=4)
def t_sum(): return sum([1, 2, 3]), sum([1, 2], 10), sum(i * i for i in range(4)), sum([[1], [2]], [])
def t_anyall(): return any([0, 1]), all([1, 0]), any([]), all([]), any(x > 2 for x in range(4)), all(x < 2 for x in range(4))
def t_sorted(): return sorted([3, 1, 2]), sorted([3, 1, 2], reverse=True), sorted(["b", "a"]), sorted([(2, 1), (1, 5)]), sorted([3, -4, 1], key=abs), sorted({3, 1, 2})
def t_reversed(): return list(reversed([1, 2, 3])), list(reversed(range(3))), [1, 2, 3][::-1]
def t_enumerate(): return list(enumerate("ab")), list(enumerate([5, 6], start=1)), list(enumerate([7], 3))
def t_zip(): return list(zip([1, 2], [3, 4, 5])), list(zip(*[(1, 2), (3, 4)])), dict(zip("ab", [1, 2]))
def t_map(): return list(map(str, [1, 2])), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(lambda v: v > 1, [1, 2, 3]))
def t_range(): return list(range(5)), list(range(2, 5)), list(range(5, 0, -2)), len(range(2, 9, 3)), 3 in range(5)
def t_str(): return "a-b".split("-"), "ab".upper(), "x".join(["a", "b"]), " a ".strip(), "abc".replace("b", "Z"), "abc".startswith("ab"), "abc".endswith("c"), "abc"[1], "abc"[-1], len("abc"), "b" in "abc", "a" + "b", "ab" * 2, "AB".lower()
def t_fmt(): return f"{1}/{'a'}", "{}-{}".format(1, "b"), "{0}{1}{0}".format("a", "b"), "%s/%d" % ("a", 3), f"{3:03d}", f"{2.5:.1f}", f"{'a'!r}", "{x}".format(x=4)
def t_split2(): return "a/b/c".split("/"), "a/b/c".rsplit("/", 1), "a b  c".split(), "a,b".split(",")[0], "a.b.c".partition(".")
def t_path(): return os.path.join("a", "b"), os.path.basename("a/b.fits"), os.path.dirname("a/b/c"), os.path.splitext("a.b")[0]


# ---- containers
def t_list():
    a = [1, 2]
    a.append(3); a += [4]; a.extend((5, 6)); a.insert(0, 0)
    b = a.pop(); c = a.pop(0); a.remove(3)
    d = a.index(4)
    a[0] = 9
    e = a.copy(); e.reverse()
    del e[0]
    return a, b, c, d, e, a.count(9), 4 in a, a + [1], [0] * 3, a == [9, 2, 4, 5]
def t_alias():
    a = [1]; b = a; b.append(2)
    c = list(a); c.append(3)
    return a, b, c
def t_slices():
    a = [0, 1, 2, 3, 4]
    b = a[1:3]; a[1:2] = [7, 8]
    return a, b, a[-2:], a[:-1], a[::2], a[3:1:-1], a[-1], a[10:]
def t_dict():
    d = {"a": 1}
    d["b"] = 2
    d.update(c=3); d.update({"a": 9})
    x = d.setdefault("z", []); x.append(1)
    y = d.pop("b"); w = d.pop("nope", None)
    return d, y, w, d.get("q"), d.get("q", 5), "a" in d, list(d), list(d.keys()), list(d.values()), list(d.items()), len(d), dict(d, k=1)["k"], {**d, "m": 2}["m"]
def t_dict2():
    d = dict(a=1, b=2)
    e = {k: v * 2 for k, v in d.items() if v > 1}
    for k in list(d):
        if k == "a": del d[k]
    return d, e, {1: 2} == {1: 2}, dict([("x", 1)]), {**d}
def t_set():
    s = {1, 2}; s.add(3)
    t = set([2, 3, 4])
    return sorted(s & t), sorted(s | t), sorted(s - t), len(s), 2 in s, s == {1, 2, 3}, sorted(set("aab")), {1} <= s, sorted(s ^ t)
def t_tuple():
    a, (b, c), *d = 1, (2, 3), 4, 5
    e = (1,) + (2,)
    x, y = 1, 2; x, y = y, x
    return a, b, c, d, e, x, y, (1, 2)[0], (1, 2) < (1, 3), len(e), 2 in e, e.index(2)
def t_star(): 
    def f(*a, **k): return a, sorted(k.items())
    return f(1, *[2, 3], z=4, **{"y": 5}), [*range(2), *[7]], {**{"a": 1}, "b": 2}
def t_defaults():
    def f(a, b=2, *c, d=4, **e): return a, b, c, d, sorted(e.items())
    return f(1), f(1, 3), f(1, 3, 5), f(1, d=9), f(1, x=3), f(b=7, a=8)
def t_closure():
    n = 0
    def g(v):
        nonlocal n
        n += v
        return n
    fs = [lambda k=k: k for k in range(3)]
    return g(2), g(3), n, [f() for f in fs]
def t_late():
    fs = [lambda: k for k in range(3)]
    return [f() for f in fs]
def t_comp(): return [i + j for i in range(2) for j in range(3) if j != 1], {i % 2 for i in range(4)} == {0, 1}, [[j for j in range(i)] for i in range(3)], sum(1 for i in range(5) if i % 2)
def t_namedtuple():
    p = Pair(1, b=2)
    a, b = p
    return p.a, p[1], a, b, p._fields, p._replace(a=5).a, len(p), p == (1, 2)
def t_namespace():
    n = Namespace(a=1, b=None)
    n.c = 3
    setattr(n, "d", 4)
    delattr(n, "a")
    return sorted(vars(n).items(), key=lambda kv: kv[0]), hasattr(n, "a"), hasattr(n, "b"), getattr(n, "zz", 7), getattr(n, "b", 7), "c" in n
def t_iter():
    it = iter([1, 2, 3])
    a = next(it); b = next(it); c = next(it, None); d = next(it, None)
    return a, b, c, d, list(ichain([1], [2, 3])), reduce(lambda x, y: x * y, [1, 2, 3, 4])


# ---- control flow
def t_while():
    i, out = 0, []
    while True:
        i += 1
        if i == 2: continue
        if i > 4: break
        out.append(i)
    else:
        out.append("never")
    return i, out
def t_forelse():
    out = []
    for k in (3, 5):
        for i in range(4):
            if i == k: break
        else:
            out.append(k)
    return out, i, k
def t_try():
    out = []
    for v in ({"a": 1}, {}, None, [0]):
        try:
            out.append(v["a"])
        except KeyError:
            out.append("key")
        except (TypeError, AttributeError) as e:
            out.append("type")
        else:
            out.append("else")
        finally:
            out.append("fin")
    return out
def t_raise():
    def f(x):
        if x: raise ValueError("bad")
        return 1
    try:
        f(1)
    except ValueError as e:
        return "caught", f(0)
def t_reraise():
    try:
        try:
            [].pop(0)
        except IndexError as e:
            raise RuntimeError("no") from e
    except RuntimeError:
        return "runtime"
def t_assert():
    try:
        assert 1 == 2, "no"
    except AssertionError:
        return "asserted"
def t_finally_return():
    log = []
    def f():
        try:
            return "r"
        finally:
            log.append(1)
    return f(), log
def t_with():
    b = Base(1)
    with b as c:
        x = c.entered
    return x, b.left, c is b
def t_retnested():
    for i in range(3):
        for j in range(3):
            if i * j == 2:
                return i, j
def t_aug():
    a = [1, 2]; b = a; b += [3]
    x = 3; x -= 1; x *= 4; x //= 3; x **= 2; x %= 3; x /= 2
    n = np.array([1., 2.]); m = n; m += 1; k = n; k = k + 1
    return a, x, n.tolist(), k.tolist()
def t_walrus():
    out = []
    if (n := 3) > 2: out.append(n)
    return out, [y for v in range(3) if (y := v * 2) > 1]
def t_global_const(): return Base.K, Derived.K, Base.cols


# ---- classes
def t_cls():
    b, d = Base(1), Derived(2, b=4, q=6)
    b.twice = 10
    return b.get(), d.get(), b.twice, d.twice, Base.stat(3), d.stat(4), Base.make(3).b, Derived.make(2).d, d.b, d.extra, len(b), d.rest, hasattr(d, "zip"), b.a
def t_clsattr():
    d = Derived(1)
    d.K = 100
    return d.get(), Derived.K, getattr(d, "get")(), d.__class__.__name__, type(d).__name__, vars(Base(1))["b"], Base(1).__dict__["c"]
def t_bound():
    f = Base(4).get
    g = Base.get
    return f(), g(Base(5)), [m() for m in (Base(1).get, Derived(1).get)]


# ---- numpy
def n_ctor(): return np.zeros(3), np.ones((2, 2)), np.full(2, 7), np.arange(4), np.arange(1, 4), np.arange(0, 1, .25), np.linspace(0, 1, 5), np.eye(2), np.empty((0, 2)).shape, np.zeros_like(np.ones(2)), np.array([[1, 2], [3, 4]]), np.identity(2), np.asarray([1., 2.]), np.full((2, 2), 1.5)
def n_index():
    a = np.arange(12).reshape(3, 4)
    return a[1], a[1, 2], a[:, 1], a[1:, :2], a[-1, -1], a[:, None].shape, a[..., 0], a[[0, 2]], a[[0, 2], [1, 3]], a[:, [0, 1]], a[::-1, 0], a[:, ::2], a[np.array([True, False, True])], a[a > 8]
def n_assign():
    a = np.zeros((3, 3))
    a[0] = 1; a[:, 1] += 2; a[1, 2] = 5; a[[0, 2], 0] = 9; a[a == 9] = -1
    b = a[1]; b[0] = 77
    c = a[1].copy(); c[0] = 0
    d = a[[1]]; d[0, 1] = -50
    return a, b, c
def n_view():
    a = np.arange(6.); b = a.reshape(2, 3); b[0, 0] = 9
    c = a[2:4]; c[:] = 0
    d = a.T; e = b.T; e[2, 1] = 4
    f = b.flatten(); f[1] = 100
    g = b.ravel(); g[4] = 50
    return a, b
def n_arith():
    a, b = np.array([1., 2., 4.]), np.array([[1.], [2.]])
    return a + 1, a * b, a - b, a / b, -a, a**2, 2**a, a // 2, a % 2, 1 / a, a > 1, (a > 1) & (a < 4), ~(a > 1), (a == 2) | (a == 4), a @ a, a.dot(a), abs(-a)
def n_reduce():
    a = np.array([[1., 2., 3.], [4., 5., 6.]])
    return a.sum(), a.sum(axis=0), a.sum(axis=1), a.sum(axis=-1, keepdims=True), a.mean(), a.mean(axis=0), a.max(), a.min(axis=1), a.prod(), np.sum(a), np.mean(a, axis=1), np.cumsum(a[0]), np.max(a, axis=0), np.any(a > 5), np.all(a > 0), (a > 2).sum(), a.argmax(), a.argmin(axis=1), np.ptp(a), a.sum(0)
def n_linalg():
    a, b = np.array([[2., 0.], [1., 4.]]), np.array([1., 2.])
    return a @ a, np.dot(a, b), np.matmul(a, b), np.linalg.inv(a), np.linalg.solve(a, b), a.T, np.outer(b, b), np.trace(a), np.diag(a), np.diag(b), np.einsum("ij,j->i", a, b), np.inner(b, b), np.transpose(a), np.vdot(b, b), np.einsum("ij,kj->ik", a, a), np.einsum("i,i", b, b)
def n_shape():
    a = np.arange(6)
    return a.reshape(2, 3), a.reshape(-1, 2), a.reshape((3, -1)), a[:, None].shape, np.atleast_2d(a).shape, np.atleast_1d(3), np.squeeze(a[None, :]).shape, a.size, a.ndim, len(a), a.reshape(2, 3).T.shape, np.expand_dims(a, 0).shape, np.atleast_2d(a.reshape(2, 3)).shape, np.swapaxes(a.reshape(1, 2, 3), 1, 2), a.reshape(2, 3).flatten(), np.ravel(a.reshape(2, 3)), np.moveaxis(a.reshape(1, 2, 3), 0, -1).shape
def n_concat():
    a, b = np.array([1, 2]), np.array([3])
    return np.concatenate([a, b]), np.hstack([a, b]), np.vstack([a, a]), np.stack([a, a], axis=1), np.append(a, 5), np.concatenate((a[None], a[None]), axis=0), np.split(np.arange(5), [2, 3]), np.array_split(np.arange(4), 2), np.repeat(a, 2), np.tile(a, 2), np.column_stack([a, a]), np.concatenate([a, np.zeros(2)]), np.r_[a, b], np.repeat(a, [2, 1])
def n_where(): 
    a = np.array([3, -1, 2, -5])
    return np.where(a > 0, a, 0), np.where(a > 0)[0], np.nonzero(a > 0)[0], np.flatnonzero(a < 0), np.argwhere(a > 0)[:, 0], np.clip(a, -2, 2), np.minimum(a, 0), np.maximum(a, 1), np.abs(a), np.sign(a), a.clip(0, 1), np.where(a > 5)[0].size
def n_sort():
    a = np.array([3, 1, 2])
    return np.sort(a), np.argsort(a), a[np.argsort(a)], np.unique(np.array([2, 1, 2])), np.searchsorted(np.array([1, 3, 5]), 3), np.searchsorted(np.array([1, 3, 5]), 3, side="right"), np.argsort(-a), np.argsort(a)[::-1], np.sort(a)[::-1], np.diff(np.array([1, 4, 9])), np.isin(a, [1, 3]), np.in1d(a, [2])
def n_dtype():
    a = np.zeros(2, dtype=int); a[0] = 3
    b = np.array([1.5, -2.5]).astype(int)
    c = np.zeros(2, dtype=bool); c[1] = True
    return a, b, c, c.sum(), np.array([True, False]).astype(int), np.int32(3), np.float64(2), a.dtype == int, np.array([1, 2]).dtype.kind, (~c).astype(int), np.bool_(1)
def n_meshgrid():
    y, x = np.meshgrid(np.arange(2), np.arange(3))
    u, w = np.meshgrid(np.arange(2), np.arange(3), indexing="ij")
    return x, y, u, w
def n_misc():
    a = np.array([1., 2., 4.])
    return np.isfinite(a), np.allclose(a, a), np.array_equal(a, a), a.tolist(), np.floor(a / 4), np.ceil(a / 4), np.round(a / 4), np.power(a, 2), np.square(a), np.sum(a, where=a > 1) if False else 0, np.multiply(a, 2), np.subtract(a, 1), np.add.reduce(a), np.hypot(np.array([3.]), 4.), np.sqrt(np.array([4., 9.])), np.logical_and(a > 1, a < 3), np.logical_or(a > 3, a < 2), np.logical_not(a > 1), np.count_nonzero(a > 1), np.mod(7, 3), np.pi > 3
def n_inplace():
    a = np.array([1., 2.]); b = a
    a = a * 2
    c = np.array([1., 2.]); d = c
    c *= 2; c -= 1; c /= 2
    np.multiply(c, 2, out=c)
    return a, b, c, d
def n_loop():
    out = np.empty((2, 3))
    for i, row in enumerate(np.arange(6).reshape(2, 3)):
        out[i] = row * 2
        row[0] = 5
    return out, [float(v) for v in out[0]], [x for x in np.arange(3)], sum(v for v in np.arange(3))
def n_struct():
    dt = np.dtype([("a", float), ("b", int), ("v", float, 2)])
    r = np.zeros(3, dtype=dt)
    r["a"] = [1, 2, 3]; r["b"][1] = 7; r[0]["a"] = 9; r["v"][:, 1] = 4; r[2]["v"] = [5, 6]
    row = r[1]; row["a"] = 55
    c = r.copy(); c["a"] = 0
    s = r[[0, 2]]; s["a"] = -1
    w = r[1:]; w["b"] = 3
    return r["a"], r["b"], r["v"], c["a"], s["a"], w["b"], r.dtype.names, len(r), r[["a", "b"]].dtype.names, "a" in r.dtype.names, r["a"][r["b"] == 3], r.shape, r[0]["a"], r["a"][0]
def n_struct2():
    r = np.zeros(2, dtype=[("x", "f8"), ("y", "i4")])
    r["x"] += 1; r["x"][:] *= 3
    for n in r.dtype.names:
        r[n] = r[n] + 1
    q = np.concatenate([r, r[:1]]); q["x"][0] = 50
    return r["x"], r["y"], q["x"], r[r["x"] > 3]["x"].size, r[0]["x"] == 4, r[-1]["y"], np.array([r[0]["x"], r[1]["y"]])
def n_bcast(): 
    a = np.arange(3.)
    return a[:, None] + a[None, :], (a[:, None] * np.ones((3, 2))).sum(axis=0), np.broadcast_to(a, (2, 3)), a[None, :, None].shape, np.ones((2, 1, 3)) * np.ones((4, 1)) if False else 0
def n_bool():
    m = np.array([True, False, True])
    a = np.arange(3.)
    a[~m] = -1
    b = a[m]; b[0] = 100
    n = m.copy(); n[0] = False; n |= np.array([False, True, False]); n &= m
    return a, b, m.any(), m.all(), m.sum(), np.flatnonzero(m), n, ~n, m & ~n, m ^ n
def n_fancy():
    a = np.zeros(5); i = np.array([1, 3])
    a[i] += 2; a[i] = a[i] * 3; a[i[0]] = 1
    b = np.zeros((2, 5)); b[:, i] = 4; b[1][i] = 7
    return a, b, a.take(i), np.take(a, i), a[list(i)], a[i[::-1]]
def n_scalar():
    a = np.array([1., 2.])
    x = a[0]; a[0] = 5
    s = a.sum(); 
    return x, s, float(a[1]), int(a[1]), a.item(1), a.max() - a.min(), min(a), max(a), sum(a), len(a), a.shape[0], 3 in a.tolist()

def t_parse():
    h = {"R": "POLYGON ICRS 1 2 3.5 4 5 6 7 8"}
    p = h["R"].split()[2:]
    q = np.array([float(x) for x in p]).reshape(4, 2)
    return p, q, q[1, 0], float("1e3"), int("12"), [float(x) for x in p]
