"""Mutable symbolic state with an undo trail, and the abstract array model.

An array is a (possibly strided) view on a Buf: root indices -> scalar.  Shapes
may be symbolic, contents are closures over index terms, so element-wise code is
handled for every length at once."""
import sys

import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, is_z3, conc_of


class Trail:
    def __init__(self):
        self.log = []
        self.watch = False

    def set(self, cont, key, val):
        d = cont.store()
        if key in d:
            self.log.append((cont, key, True, d[key]))
        else:
            self.log.append((cont, key, False, None))
        d[key] = val

    def delete(self, cont, key):
        d = cont.store()
        self.log.append((cont, key, True, d[key]))
        del d[key]

    def mark(self):
        return len(self.log)

    def writes(self, mark):
        """locations written since mark -> (existed_before, old value at mark)"""
        out = {}
        for cont, key, ex, old in self.log[mark:]:
            k = (id(cont), key)
            if k not in out:
                out[k] = (cont, key, ex, old)
        return out

    def undo(self, mark):
        while len(self.log) > mark:
            cont, key, ex, old = self.log.pop()
            d = cont.store()
            if ex:
                d[key] = old
            else:
                d.pop(key, None)


TR = Trail()


SERIAL = [0]


class Container:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        SERIAL[0] += 1
        o.serial = SERIAL[0]
        return o


class Env(Container):
    """a local/global namespace"""
    def __init__(self, parent=None, name=""):
        self.d = {}
        self.parent = parent
        self.name = name

    def store(self):
        return self.d

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.parent
        raise KeyError(k)

    def has(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return True
            e = e.parent
        return False

    def set(self, k, v):
        TR.set(self, k, v)


class Poison:
    def __init__(self, why):
        self.why = why


class Obj(Container):
    """heap object"""
    partial = False         # made up by a contract: it need not have every attribute the real one has
    def __init__(self, cls=None, name="obj", **attrs):
        self.cls = cls
        self.name = name
        self.a = dict(attrs)
        self.opaque = {}

    def store(self):
        return self.a

    def set(self, k, v):
        TR.set(self, k, v)

    def __repr__(self):
        return f"<Obj {self.name}>"


class SList(Container):
    """python list; items is a python list (concrete length) or a Seq"""
    def __init__(self, items):
        self.d = {"v": items}

    def store(self):
        return self.d

    @property
    def v(self):
        return self.d["v"]

    def set(self, items):
        TR.set(self, "v", items)

    def __repr__(self):
        return f"SList({self.v!r})"


class SDict(Container):
    def __init__(self, items=None):
        self.d = dict(items or {})

    def store(self):
        return self.d

    def set(self, k, v):
        TR.set(self, k, v)


class Seq:
    """immutable sequence of symbolic length: at(i) -> value.  Optionally known by its members: has(x), and whether they are distinct"""
    def __init__(self, n, at, name="seq", has=None, distinct=False):
        self.n, self.at, self.name, self.has, self.distinct = n, at, name, has, distinct

    def __repr__(self):
        return f"Seq({self.name}, n={self.n})"


class Name:
    """a symbolic string (e.g. the j-th band name): an integer code term"""
    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f"Name({self.code})"


_strcode = {}


def code_of(s):
    if isinstance(s, Name):
        return s.code
    if isinstance(s, str):
        if s not in _strcode:
            _strcode[s] = -(len(_strcode) + 1)
        return _strcode[s]
    raise Unsupported(f"not a name: {s!r}")


# ------------------------------------------------------------------ arrays
class Buf(Container):
    """storage: fn(tuple of index terms) -> scalar"""
    _n = 0

    def __init__(self, ndim, fn, kind="real", name=None):
        Buf._n += 1
        self.ndim = ndim
        self.kind = kind
        self.name = name or f"buf{Buf._n}"
        self.d = {"fn": fn}

    def store(self):
        return self.d

    @property
    def fn(self):
        return self.d["fn"]

    def set(self, fn):
        TR.set(self, "fn", fn)


def ident(ix):
    return tuple(ix)


class Nd:
    """array view.  root index = fwd(idx); inv(root idx) -> (cond, idx)"""
    def __init__(self, shape, buf, fwd=None, inv=None, fields=None):
        self.shape = tuple(conc_of(s) for s in shape)
        self.buf = buf
        self.fwd = fwd or ident
        self.inv = inv
        self.fields = fields          # structured dtype: {name: (kind, tail shape)}
        self.tag = None

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def kind(self):
        return self.buf.kind

    def at(self, *idx):
        if len(idx) != self.ndim:
            raise Unsupported(f"rank mismatch {len(idx)} vs {self.ndim}")
        return self.buf.fn(self.fwd(tuple(idx)))

    def __repr__(self):
        return f"Nd{self.shape}:{self.buf.name}"


def full_inv(ndim):
    def inv(r):
        return True, tuple(r)
    return inv


def mk_nd(shape, at, kind="real", name=None):
    """fresh array from an element function"""
    b = Buf(len(shape), lambda ix: at(*ix), kind, name)
    return Nd(shape, b, ident, full_inv(len(shape)))


def kind_sort(kind):
    return {"real": T.R, "int": T.I, "bool": T.B}[kind]


def sym_nd(name, shape, kind="real"):
    """uninterpreted input array"""
    f = T.ufun(name, *([T.I] * len(shape) + [kind_sort(kind)]))
    if len(shape) == 0:
        c = z3.Const(name, kind_sort(kind))
        return mk_nd((), lambda: c, kind, name)
    nd = mk_nd(shape, lambda *ix: f(*[T.to_int(i) for i in ix]), kind, name)
    return nd


def asconc_shape(shape):
    out = []
    for s in shape:
        s = T.simp(s)
        if is_z3(s):
            return None
        out.append(int(s))
    return tuple(out)


def dim_eq(a, b):
    a, b = conc_of(a), conc_of(b)
    if not is_z3(a) and not is_z3(b):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    r = T.simp(T.cmp("==", a, b))
    return r if not is_z3(r) else None


class Partial(str):
    """name of a table that a contract made up: it need not have every column the real one has"""


class Rec:
    """structured array: rows x named fields (possibly a symbolic family of
    fields, e.g. one per band)"""
    def __init__(self, shape, fields, fam=None, fwd=None, inv=None, name="rec"):
        self.shape = tuple(conc_of(x) for x in shape)
        self.fields = fields            # name -> (Buf over root row idx + tail, tail shape)
        self.fam = fam                  # (Buf over (code,)+root row+tail, tail shape, pred(code)) or None
        self.fwd = fwd or ident
        self.inv = inv or full_inv(len(shape))
        self.name = Partial(name) if sys._getframe(1).f_globals.get("__name__", "").startswith("contracts") else name

    @property
    def ndim(self):
        return len(self.shape)

    def field(self, nm):
        r = len(self.shape)
        fwd, inv = self.fwd, self.inv
        if isinstance(nm, str) and nm in self.fields:
            buf, tail = self.fields[nm]
            root = buf.ndim - len(tail)

            def f(ix):
                return tuple(fwd(ix[:r])) + tuple(ix[r:])

            def g(rx):
                c, ix = inv(rx[:root])
                return c, tuple(ix) + tuple(rx[root:])
            return Nd(self.shape + tuple(tail), buf, f, g)
        if self.fam is not None:
            buf, tail = self.fam[0], self.fam[1]
            code = code_of(nm)
            root = buf.ndim - 1 - len(tail)

            def f(ix):
                return (code,) + tuple(fwd(ix[:r])) + tuple(ix[r:])

            def g(rx):
                c, ix = inv(rx[1:1 + root])
                return T.land(T.cmp("==", rx[0], code), c), tuple(ix) + tuple(rx[1 + root:])
            return Nd(self.shape + tuple(tail), buf, f, g)
        raise KeyError(nm)

    def has(self, nm):
        return nm in self.fields

    def __repr__(self):
        return f"Rec({self.name},{self.shape},{list(self.fields)})"


class Fam:
    """family of objects of one class, indexed 0..n-1; attributes live in Bufs"""
    def __init__(self, cls, n, name="fam"):
        self.cls, self.n, self.name = cls, n, name
        self.attrs = {}                 # name -> Buf | ("nd", Buf, tail) | ("const", v) | ("fn", f(idx))

    def obj(self, i):
        return FamObj(self, i)


class FamObj:
    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    @property
    def cls(self):
        return self.fam.cls

    def __repr__(self):
        return f"{self.fam.name}[{self.idx}]"


class Star:
    """*args of a symbolic length, handed to a contracted callee"""
    def __init__(self, seq):
        self.seq = seq
