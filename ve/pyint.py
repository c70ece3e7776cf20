"""Symbolic interpreter for the Python source of the repository.

Functions are taken from /repo's current source with `ast` (nothing is copied or
re-written by hand).  Paths are explored by decision replay; loops over a
symbolic number of iterations are summarised by solving the recurrence each
written location satisfies (see Loops below); anything outside the subset raises
Unsupported and the function is reported as not proved."""
import ast
import math
import builtins
import os
import warnings
import contextlib
import z3
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, NotInContract, is_z3, conc_of, arith, cmp, land, lor, lnot, ite
from .state import (Star, Nd, Buf, Rec, SList, SDict, Seq, Obj, Name, code_of, Container, TR, SERIAL,
                    Env, Poison, Fam, FamObj, full_inv, kind_sort)
from . import npmodel as N
from .npmodel import PyRaise, is_scalar

MAXPATHS = 400


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


ASSIGNED = {}


class Cls:
    def __init__(self, name, node, mod, bases):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases
        self.ns = {}
        for s in node.body if node is not None else []:
            if isinstance(s, ast.FunctionDef):
                decs = [dec_name(d) for d in s.decorator_list]
                f = Func(s, mod, self, None)
                f.decs = decs
                if any(d.endswith(".setter") for d in decs):
                    self.ns[s.name + "@set"] = f
                else:
                    self.ns[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.ns[t.id] = ("lazy", s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.ns[s.target.id] = ("lazy", s.value)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def find(self, k, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if k in c.ns:
                return c, c.ns[k]
        return None, None

    @property
    def qual(self):
        return f"{self.mod.name}.{self.name}"

    def __repr__(self):
        return f"<class {self.name}>"


def dec_name(d):
    try:
        return ast.unparse(d)
    except Exception:
        return "?"


class Func:
    def __init__(self, node, mod, cls, env):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.decs = []
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        if self.cls is not None:
            return f"{self.mod.name}.{self.cls.name}.{self.name}"
        return f"{self.mod.name}.{self.name}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Mod:
    """a repository module, evaluated lazily name by name"""
    def __init__(self, interp, name, path):
        self.interp, self.name, self.path = interp, name, path
        self.src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src)
        self.env = Env(None, name)
        self.defs = {}
        self.stars = []
        self._index(self.tree.body)

    def _index(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for nm in names_in(t):
                        self.defs[nm] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = s
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(s)
                    else:
                        self.defs[a.asname or a.name] = s
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._index(h.body)
                self._index(s.body)
            elif isinstance(s, ast.If):
                self._index(s.orelse)
                self._index(s.body)

    def get(self, k):
        if k in self.env.d:
            return self.env.d[k]
        if self.name == "forcepho.kernel_limits" and not self.env.d.get("$loaded"):
            # a module without inputs: its real source is executed once
            self.env.d["$loaded"] = True
            for n2, x in exec_constants(self.src, os.path.join(self.interp.repo, "forcepho", "src")).items():
                self.env.d[n2] = x
            if k in self.env.d:
                return self.env.d[k]
        if k in self.defs:
            v = self._eval(k, self.defs[k])
            self.env.d[k] = v
            return v
        for s in self.stars:
            m = self.interp.import_from(self, s)
            if isinstance(m, Mod):
                try:
                    return m.get(k)
                except KeyError:
                    pass
        raise KeyError(k)

    def _eval(self, k, s):
        I = self.interp
        if isinstance(s, ast.FunctionDef):
            f = Func(s, self, None, None)
            f.decs = [dec_name(d) for d in s.decorator_list]
            return f
        if isinstance(s, ast.ClassDef):
            bases = []
            for b in s.bases:
                try:
                    bases.append(I.ev(b, Env(None), self))
                except (Unsupported, PyRaise):
                    bases.append(None)
            return Cls(s.name, s, self, bases)
        if isinstance(s, ast.Assign):
            e = Env(None)
            I.exec_block([s], e, self)
            for n2, v in e.d.items():
                self.env.d.setdefault(n2, v)
            return e.d[k]
        if isinstance(s, ast.AnnAssign):
            return I.ev(s.value, Env(None), self)
        if isinstance(s, ast.Import):
            for a in s.names:
                if (a.asname or a.name).split(".")[0] == k:
                    return I.import_mod(a.name if a.asname else a.name.split(".")[0])
        if isinstance(s, ast.ImportFrom):
            m = I.import_from(self, s)
            for a in s.names:
                if (a.asname or a.name) == k:
                    return I.mod_attr(m, a.name)
        raise Unsupported(f"global {k}")

    def __repr__(self):
        return f"<module {self.name}>"


def exec_constants(src, source_dir):
    import builtins

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if level:
            class ns:
                pass
            ns.source_dir = source_dir
            return ns
        return __import__(name, g, l, fromlist, level)
    g = {"__name__": "forcepho.kernel_limits", "__builtins__": {**vars(builtins), "__import__": imp}}
    exec(compile(src, "kernel_limits.py", "exec"), g)
    return {k: v for k, v in g.items() if isinstance(v, (int, float)) and not k.startswith("_")}


def names_in(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in names_in(x)]
    if isinstance(t, ast.Starred):
        return names_in(t.value)
    return []


class Ext:
    """external (trusted) module or namespace"""
    def __init__(self, name, table=None):
        self.name, self.table = name, table or {}

    def __repr__(self):
        return f"<ext {self.name}>"


def is_set(v):
    return getattr(v, "pyset", False) or getattr(v, "isset", False)


def plain(x):
    """the Python value of a known number or text, or None"""
    if isinstance(x, Name) or isinstance(x, bool):
        return None if isinstance(x, Name) else x
    if isinstance(x, (str, int)):
        return x
    if isinstance(x, Fraction) and Fraction(float(x)) == x:
        return float(x)
    return None


class Str:
    """opaque string"""
    def __repr__(self):
        return "<str>"


class Interp:
    def __init__(self, repo, prover, contracts=None):
        self.repo, self.prover = repo, prover
        self.contracts = contracts or {}
        self.mods = {}
        self.pc = []
        self.facts, self.bound = [], []
        self.dec, self.pos, self.alts = [], 0, []
        self.obs = []                # recorded obligations
        self.quiet = 0
        self.filters, self.extrema = {}, {}
        self.extfuns = []
        self.lenient = 0
        self.addrs = []
        self.touched = {}            # functions executed (qualname -> source digest)
        self.assumed = set()
        self.ext = {}
        self.depth = 0
        self.loops = 0
        self.softs = []
        N.Ctx.interp = self
        from . import npapi
        npapi.install(self)

    # ------------------------------------------------------------ logic
    def assume(self, *cs):
        for c in cs:
            c = conc_of(c)
            if not is_z3(c):
                if not c:
                    raise Infeasible()
                continue
            self.pc.append(T.to_bool(c))

    def fact(self, *cs):
        """definitional facts about fresh symbols: true everywhere on this path"""
        for c in cs:
            c = conc_of(c)
            if is_z3(c):
                self.facts.append(T.to_bool(c))

    def hyps(self):
        return self.facts + self.pc

    def no_bound(self, t):
        if self.bound and is_z3(t):
            cs = {c.get_id() for c in T.consts_of(t)}
            for b in self.bound:
                if b.get_id() in cs:
                    raise Unsupported("fresh symbol would depend on a bound variable")

    @contextlib.contextmanager
    def binding(self, v, *cs):
        self.bound.append(v)
        try:
            with self.assuming(*cs):
                yield
        finally:
            self.bound.pop()

    @contextlib.contextmanager
    def assuming(self, *cs):
        n = len(self.pc)
        for c in cs:
            c = conc_of(c)
            if is_z3(c):
                self.pc.append(T.to_bool(c))
        try:
            yield
        finally:
            # facts (axioms about fresh symbols) introduced inside stay valid outside
            del self.pc[n:]

    def valid(self, g):
        return self.prover.valid(g, self.hyps())

    def maybe(self, g):
        g = conc_of(g)
        if not is_z3(g):
            return bool(g)
        return self.prover.feasible(self.hyps() + [T.to_bool(g)])

    def decide(self, g):
        """True/False when the path condition settles g, else None"""
        g = conc_of(T.simp(g)) if is_z3(g) else g
        if not is_z3(g):
            return bool(g)
        hy = self.hyps()
        qf = [h for h in hy if not z3.is_quantifier(h)]
        if self.prover.valid(g, qf):
            return True
        if self.prover.valid(z3.Not(g), qf):
            return False
        if len(qf) == len(hy) or self.light:
            return None
        if self.valid(g):
            return True
        if self.valid(z3.Not(g)):
            return False
        return None

    light = False        # decide simplifications without the quantified hypotheses

    def soft_bound(self, g):
        self.softs.append(g)

    def branch(self, c):
        c = conc_of(c)
        if not is_z3(c):
            return bool(c)
        c = T.to_bool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            t = self.prover.feasible(self.hyps() + [c])
            f = self.prover.feasible(self.hyps() + [z3.Not(c)])
            if t and f:
                self.alts.append(self.dec[:self.pos] + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise Infeasible()
            self.dec.append(d)
        self.pos += 1
        self.pc.append(c if d else z3.Not(c))
        return d

    def explore(self, thunk, on_end):
        saved = (self.dec, self.pos, self.alts)
        base, mark = len(self.pc), TR.mark()
        fbase = len(self.facts)
        filt0, ext0 = dict(self.filters), dict(self.extrema)
        pending, n = [[]], 0
        try:
            while pending:
                self.dec, self.pos, self.alts = list(pending.pop()), 0, []
                n += 1
                if n > MAXPATHS:
                    raise Unsupported("too many paths")
                try:
                    try:
                        v, kind = thunk(), "ret"
                    except PyRaise as e:
                        v, kind = e, "raise"
                    alts = self.alts
                    on_end(kind, v)
                except Infeasible:
                    alts = self.alts
                pending += alts
                TR.undo(mark)
                del self.pc[base:]
                del self.facts[fbase:]
                self.filters, self.extrema = dict(filt0), dict(ext0)
        finally:
            TR.undo(mark)
            del self.pc[base:]
            del self.facts[fbase:]
            self.filters, self.extrema = filt0, ext0
            self.dec, self.pos, self.alts = saved
        return n

    def oblige(self, name, goal, hints=None):
        if self.quiet:
            return
        ob = self.prover.prove(name, goal if is_z3(conc_of(goal)) else bool(conc_of(goal)), self.hyps(), hints)
        self.obs.append(ob)
        return ob

    def pure(self, thunk):
        """evaluate without side effects, merging paths into one value"""
        outs = []
        base = len(self.pc)
        ser = SERIAL[0]
        mark = TR.mark()

        def end(kind, v):
            for (cont, key, ex, old) in TR.writes(mark).values():
                if cont.serial <= ser and not isinstance(cont, Env):
                    raise Unsupported("side effect in a pure expression")
            outs.append((kind, v, list(self.pc[base:])))
            facts.extend(self.facts[fb:])
            filts.update(self.filters)
            exts.update(self.extrema)
        facts, filts, exts, fb = [], {}, {}, len(self.facts)
        self.explore(thunk, end)
        self.facts.extend(facts)
        self.filters.update(filts)
        self.extrema.update(exts)
        if not outs:
            raise Infeasible()
        if len(outs) == 1 and outs[0][0] == "ret":
            # facts about fresh symbols introduced on the only path remain true
            for h in outs[0][2]:
                self.pc.append(h)
            return outs[0][1]
        if any(k == "raise" for k, _, _ in outs):
            # fork on the raising condition
            rs = [o for o in outs if o[0] == "raise"]
            cond = lor(*[land(*o[2]) for o in rs])
            if self.branch(cond):
                raise rs[0][1]
            outs = [o for o in outs if o[0] == "ret"]
        r = outs[-1][1]
        for k, v, pcs in reversed(outs[:-1]):
            r = self.merge(land(*pcs), v, r)
        return r

    def merge(self, c, a, b):
        if a is b:
            return a
        if is_scalar(a) and is_scalar(b):
            return ite(c, a, b)
        if isinstance(a, Nd) and isinstance(b, Nd) and a.ndim == b.ndim:
            shp = tuple(x if (not is_z3(x) and not is_z3(y) and x == y) or (is_z3(x) and is_z3(y) and x.eq(y))
                        else ite(c, x, y) for x, y in zip(a.shape, b.shape))
            fa, fb = N.snap(a), N.snap(b)
            return N.mk_nd(shp, lambda *ix: ite(c, fa(*ix), fb(*ix)), a.kind if a.kind == b.kind else "real")
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Name) or isinstance(b, Name):
            return Name(ite(c, code_of(a), code_of(b)))
        if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
            return a.fam.obj(ite(c, a.idx, b.idx))
        if not isinstance(a, (Container,)) and type(a) is type(b) and a == b:
            return a
        if a is None or b is None or isinstance(a, Poison) or isinstance(b, Poison):
            return Poison("merge of different kinds")
        raise Unsupported(f"merge {type(a).__name__}/{type(b).__name__}")

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.mods:
            p = os.path.join(self.repo, name.replace(".", "/"))
            if os.path.isdir(p):
                p = os.path.join(p, "__init__.py")
            else:
                p += ".py"
            if not os.path.exists(p):
                raise KeyError(name)
            self.mods[name] = Mod(self, name, p)
        return self.mods[name]

    def import_mod(self, name):
        if name in self.ext:
            return self.ext[name]
        if name.split(".")[0] == "forcepho":
            return self.module(name)
        return Ext(name)

    def import_from(self, mod, s):
        nm = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            nm = ".".join(parts + ([nm] if nm else []))
        return self.import_mod(nm)

    def mod_attr(self, m, k):
        if isinstance(m, Mod):
            try:
                return m.get(k)
            except KeyError:
                try:
                    return self.module(m.name + "." + k)
                except KeyError:
                    raise Unsupported(f"name {k} in {m.name}")
        if isinstance(m, Ext):
            full = m.name + "." + k
            if full in self.contracts:
                return Ext(full)
            if k in m.table:
                return m.table[k]
            if full in self.ext:
                return self.ext[full]
            return Ext(full)
        raise Unsupported(f"module attr {k}")

    def assigned_attrs(self):
        """attribute names that the repository assigns anywhere (obj.k = ..., class-level k = ..., setattr with a literal)"""
        r = ASSIGNED.get(self.repo)
        if r is None:
            r = ASSIGNED[self.repo] = set()
            for d, _, fs in os.walk(os.path.join(self.repo, "forcepho")):
                for f in fs:
                    if f.endswith(".py"):
                        try:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                t = ast.parse(open(os.path.join(d, f)).read())
                        except (SyntaxError, OSError, UnicodeDecodeError):
                            continue
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                r.add(x.attr)
                            elif isinstance(x, ast.ClassDef):
                                r.update(n.id for s in x.body if isinstance(s, (ast.Assign, ast.AnnAssign))
                                         for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" \
                                    and len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
                                r.add(x.args[1].value)
        return r

    def resolve(self, qual):
        """'forcepho.model:BoundedTransform.jacobian'"""
        m, _, path = qual.partition(":")
        v = self.module(m)
        for part in path.split("."):
            if isinstance(v, Mod):
                v = v.get(part)
            else:
                v = v.find(part)[1]
        if v is None:
            raise Unsupported(f"{qual} not found")
        return v

    # ------------------------------------------------------------ names
    def lookup(self, k, env, mod):
        e = env
        while e is not None:
            if k in e.d:
                v = e.d[k]
                if isinstance(v, Poison):
                    raise Unsupported(f"read of {k}: {v.why}")
                return v
            e = e.parent
        if mod is not None:
            try:
                return mod.get(k)
            except KeyError:
                pass
        if k in self.builtins:
            return self.builtins[k]
        if hasattr(builtins, k):
            raise Unsupported(f"builtin {k}")
        raise PyRaise("NameError", k)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env, mod):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env, mod)

    def e_Constant(self, n, env, mod):
        v = n.value
        if isinstance(v, float):
            return T.frac(v) if v == v and abs(v) != float("inf") else v
        if isinstance(v, complex) or isinstance(v, bytes):
            raise Unsupported("constant")
        return v

    def e_Name(self, n, env, mod):
        return self.lookup(n.id, env, mod)

    def e_Tuple(self, n, env, mod):
        return tuple(self.elts(n.elts, env, mod))

    def e_List(self, n, env, mod):
        return SList(self.elts(n.elts, env, mod))

    def e_Set(self, n, env, mod):
        return self.builtins["set"](SList(self.elts(n.elts, env, mod)))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.to_pylist(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, n, env, mod):
        d = SDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.ev(v, env, mod).d.items():
                    d.d[kk] = vv
            else:
                d.d[self.hashable(self.ev(k, env, mod))] = self.ev(v, env, mod)
        return d

    def hashable(self, k):
        if isinstance(k, (str, int, tuple, bool)) or k is None:
            return k
        if isinstance(k, Fraction):
            return k
        if isinstance(k, (Obj, Cls, Func, N.DType)):
            return k
        raise Unsupported(f"dict key {type(k).__name__}")

    def e_JoinedStr(self, n, env, mod):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                try:
                    x = self.ev(v.value, env, mod)
                except Unsupported:
                    return Str()
                spec = "" if v.format_spec is None else self.ev(v.format_spec, env, mod)
                x = plain(x)
                if x is None or isinstance(spec, Str) or v.conversion not in (-1, 115, 114):
                    return Str()
                if v.conversion != -1:
                    x = str(x) if v.conversion == 115 else repr(x)
                try:
                    out += format(x, spec)
                except (ValueError, TypeError):
                    raise PyRaise("ValueError", "format")
        return out

    def e_Attribute(self, n, env, mod):
        return self.getattr(self.ev(n.value, env, mod), n.attr)

    def e_Subscript(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        return self.getitem(v, self.ev_index(n.slice, env, mod))

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env, mod) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def e_UnaryOp(self, n, env, mod):
        if isinstance(n.op, ast.Not):
            t = self.truth(self.ev(n.operand, env, mod))
            return lnot(t)
        v = self.ev(n.operand, env, mod)
        op = {ast.USub: "-", ast.Invert: "~", ast.UAdd: "+"}[type(n.op)]
        if isinstance(v, bool) and op == "~":
            return ~v
        return N.unary(op, v)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
           ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}

    def e_BinOp(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        if type(n.op) not in self.OPS:
            raise Unsupported("operator")
        if isinstance(a, (str, Str)) and isinstance(n.op, ast.Mod):
            try:
                b = self.ev(n.right, env, mod)
            except Unsupported:
                return Str()
            xs = [plain(x) for x in (b if isinstance(b, tuple) else (b,))]
            if isinstance(a, Str) or any(x is None for x in xs):
                return Str()
            try:
                return a % tuple(xs)
            except (ValueError, TypeError):
                raise PyRaise("TypeError", "format")
        b = self.ev(n.right, env, mod)
        return self.binop(self.OPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if isinstance(a, str) and isinstance(b, str) and op == "+":
                return a + b
            if isinstance(a, str) and isinstance(b, int) and op == "*":
                return a * b
            if op in ("+", "%"):
                return Str()
            raise Unsupported("string op")
        if op == "+" and isinstance(a, SList) and isinstance(b, SList):
            return SList(self.seq_concat(a.v, b.v))
        if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "*" and isinstance(a, SList) and is_scalar(b):
            if isinstance(a.v, list) and not is_z3(conc_of(b)):
                return SList(a.v * int(b))
            if isinstance(a.v, list) and len(a.v) == 1:
                x = a.v[0]
                return SList(Seq(b, lambda i: x))
            raise Unsupported("list repetition")
        if op == "*" and isinstance(b, SList) and is_scalar(a):
            return self.binop(op, b, a)
        if op in ("-", "|", "&", "^") and isinstance(a, SList) and isinstance(b, SList):
            if not (getattr(a, "pyset", False) and getattr(b, "pyset", False)):
                raise Unsupported("set operation")
            x, y = a.v, b.v
            r = [k for k in x if (k in y) == (op == "&") or op == "|"]
            r += [k for k in y if k not in x] if op in ("|", "^") else []
            return self.builtins["set"](SList(r))
        if a is None or b is None:
            raise PyRaise("TypeError", "operand None")
        for x, y, nm in ((a, b, False), (b, a, True)):
            if isinstance(x, Obj) and isinstance(x.cls, Cls):
                meth = {"+": "add", "-": "sub", "*": "mul", "/": "truediv"}.get(op)
                k = f"__{'r' if nm else ''}{meth}__"
                c, f = x.cls.find(k)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        return N.binop(op, a, b)

    def seq_concat(self, a, b):
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(a, HavocList):
            return a.extend(b)
        na, nb = N.np_len(SList(a)), N.np_len(SList(b))
        if not is_z3(nb) and nb == 0:
            return a
        if not is_z3(na) and na == 0:
            return b

        def at(i):
            c = cmp("<", i, na)
            d = self.decide(c)
            if d is True:
                return self.seq_at(a, i)
            if d is False:
                return self.seq_at(b, arith("-", i, na))
            with self.assuming(c):
                x = self.seq_at(a, i)
            with self.assuming(lnot(c)):
                y = self.seq_at(b, arith("-", i, na))
            return self.merge(c, x, y)
        r = Seq(arith("+", na, nb), at)
        if any(isinstance(x, Seq) and x.has for x in (a, b)):
            ka, kb = self.members_of(a), self.members_of(b)
            if ka and kb:
                r.has = lambda x: lor(ka[0](x), kb[0](x))
                x = T.fresh("member", T.I)
                r.distinct = ka[1] and kb[1] and self.valid(lnot(land(ka[0](x), kb[0](x))))
        return r

    def members_of(self, s):
        """(membership, distinct) of a sequence known by its members, else None"""
        if isinstance(s, Seq):
            return (s.has, s.distinct) if s.has else None
        if not all(is_scalar(x) for x in s) or len(s) > 20:
            return None
        eq = [cmp("==", x, y) for k, x in enumerate(s) for y in s[:k]]
        return (lambda x: lor(*[cmp("==", x, y) for y in s]), all(not is_z3(e) and not e for e in eq))

    def abstract_seq(self, n, has, distinct, name="seq"):
        """a sequence of n integers known only by its members"""
        f = T.fresh_fun(name, T.I, T.I)

        def at(i):
            i = T.to_int(i)
            self.fact(z3.Implies(z3.And(i >= 0, i < n), T.to_bool(has(f(i)))))
            return f(i)
        r = Seq(n, at, name, has, distinct)
        r.abstract, r.raw = True, f
        return r

    def seq_at(self, s, i):
        if isinstance(s, Seq):
            return s.at(i)
        i = conc_of(T.simp(i)) if is_z3(i) else i
        if not is_z3(i):
            return s[i]
        r = s[-1]
        for k in range(len(s) - 2, -1, -1):
            r = self.merge(cmp("==", i, k), s[k], r)
        return r

    def e_BoolOp(self, n, env, mod):
        isand = isinstance(n.op, ast.And)
        last = None
        acc = []
        for k, x in enumerate(n.values):
            v = self.ev(x, env, mod)
            if k == len(n.values) - 1:
                if acc:
                    t = self.truth(v)
                    if isinstance(v, (bool,)) or (is_z3(v) and z3.is_bool(v)):
                        return land(*acc, t) if isand else lor(*acc, t)
                    if self.branch(land(*acc) if isand else lor(*acc)) == isand:
                        return v
                    return not isand
                return v
            t = conc_of(self.truth(v))
            if not is_z3(t):
                if t != isand:
                    return v
                continue
            if is_z3(v) and z3.is_bool(v) and self.simple(n.values[k + 1:]):
                acc.append(t)
                continue
            if self.branch(t) != isand:
                return v
        return last

    def simple(self, nodes):
        """no calls or subscripts that could raise when the guard is false"""
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, (ast.Call, ast.Subscript, ast.Div)):
                    return False
        return True

    def e_Compare(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        out = []
        for op, r in zip(n.ops, n.comparators):
            b = self.ev(r, env, mod)
            out.append(self.compare(op, a, b))
            a = b
        if len(out) == 1:
            return out[0]
        return land(*[self.truth(x) for x in out])

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
                if isinstance(a, Poison) or isinstance(b, Poison):
                    raise Unsupported("identity of merged value")
            elif isinstance(a, (Container, Cls, Func)) or isinstance(b, (Container, Cls, Func)):
                r = a is b
            elif isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
                r = cmp("==", a.idx, b.idx)
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else lnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else lnot(r)
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.cmpval(o, a, b)

    def cmpval(self, o, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and not isinstance(x, (SList, SDict)) and x.cls is None and y is not None and not isinstance(y, (Obj, Cls)):
                raise NotInContract(f"comparison of {x.name} with a value")      # a stand-in of a contract
        if a is None or b is None or isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if isinstance(a, Name) or isinstance(b, Name):
                if a is None or b is None:
                    return o == "!="
                return cmp(o, code_of(a), code_of(b))
            if isinstance(a, Str) or isinstance(b, Str):
                raise Unsupported("opaque string compare")
            if o == "==":
                return a == b if type(a) is type(b) else False
            if o == "!=":
                return a != b if type(a) is type(b) else True
            if isinstance(a, str) and isinstance(b, str):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            raise PyRaise("TypeError", "comparison")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if o in ("==", "!="):
                r = len(a) == len(b) and land(*[self.truth(self.cmpval("==", x, y)) for x, y in zip(a, b)])
                return r if o == "==" else lnot(r)
            r = cmp(o, len(a), len(b))          # lexicographic
            for x, y in reversed(list(zip(a, b))):
                e, l = self.truth(self.cmpval("==", x, y)), self.truth(self.cmpval(o.rstrip("="), x, y))
                r = lor(l, land(e, r))
            return r
        if isinstance(a, SDict) and isinstance(b, SDict) and o in ("==", "!="):
            r = set(a.d) == set(b.d) and land(*[self.truth(self.cmpval("==", x, b.d[k])) for k, x in a.d.items()])
            return r if o == "==" else lnot(r)
        if isinstance(a, (SDict, tuple, SList)) and isinstance(b, (SDict, tuple, SList)) and type(a) is not type(b) and o in ("==", "!="):
            return o == "!="
        if isinstance(a, SList) and isinstance(b, SList):
            if is_set(a) or is_set(b):
                if not (is_set(a) and is_set(b)) and o in ("==", "!="):
                    return o == "!="
                if not (getattr(a, "pyset", False) and getattr(b, "pyset", False)):
                    raise Unsupported("set comparison")
                x, y = set(a.v), set(b.v)
                return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            if isinstance(a.v, list) and isinstance(b.v, list) and o in ("==", "!="):
                r = len(a.v) == len(b.v) and land(*[self.truth(self.cmpval("==", x, y)) for x, y in zip(a.v, b.v)])
                return r if o == "==" else lnot(r)
            raise Unsupported("list comparison")
        if isinstance(a, N.DType) or isinstance(b, N.DType):
            try:
                x, y = N.dtype_of(a), N.dtype_of(b)
            except Unsupported:
                if isinstance(a, N.DType) and isinstance(b, N.DType):
                    raise
                return o == "!="
            if x is y:
                return o == "=="
            if x.kind != y.kind:
                return o == "!="
            al = {"float": "float64", "float_": "float64", "int": "int64", "int_": "int64", "bool_": "bool"}
            if (x.width and y.width) or x.kind == "bool":
                return (al.get(x.name, x.name) == al.get(y.name, y.name)) == (o == "==")
            raise Unsupported("comparison with the data type of an array (widths are not modelled)")
        if isinstance(a, (Obj, Cls)) or isinstance(b, (Obj, Cls)):
            if o not in ("==", "!="):
                raise Unsupported("order of objects")
            r = a is b
            return r if o == "==" else (not r)
        if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
            return cmp(o, a.idx, b.idx)
        return N.compare(o, a, b)

    def contains(self, cont, x):
        if isinstance(cont, SDict):
            return self.hashable(x) in cont.d
        if isinstance(cont, SList):
            cont = cont.v
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, (list, tuple)):
            return lor(*[self.truth(self.cmpval("==", x, y)) for y in cont])
        if isinstance(cont, dict):
            return x in cont
        if isinstance(cont, Seq) and cont.has and is_scalar(x):
            return cont.has(x)
        if isinstance(cont, Seq):
            v = T.fresh("qv", T.I)
            with self.assuming(v >= 0, cmp("<", v, cont.n)):
                b = self.truth(self.cmpval("==", x, cont.at(v)))
            return z3.Exists([v], z3.And(v >= 0, cmp("<", v, cont.n), T.to_bool(b)))
        if isinstance(cont, Nd):
            return N.np_any(N.compare("==", cont, x))
        if isinstance(cont, Obj):
            c, f = cont.cls.find("__contains__") if isinstance(cont.cls, Cls) else (None, None)
            if f:
                return self.call(Bound(f, cont), [x], {})
            if callable(cont.a.get("__contains__")):
                return cont.a["__contains__"](x)
        raise Unsupported(f"in {type(cont).__name__}")

    def e_IfExp(self, n, env, mod):
        t = conc_of(self.truth(self.ev(n.test, env, mod)))
        if not is_z3(t):
            return self.ev(n.body if t else n.orelse, env, mod)
        if self.branch(t):
            return self.ev(n.body, env, mod)
        return self.ev(n.orelse, env, mod)

    def e_Lambda(self, n, env, mod):
        f = Func(n, mod, None, env)
        f.defaults = [self.ev(d, env, mod) for d in n.args.defaults]
        return f

    def e_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        env.set(n.target.id, v)
        return v

    def e_Starred(self, n, env, mod):
        raise Unsupported("starred")

    # ------------------------------------------------------------ comprehension
    def e_ListComp(self, n, env, mod):
        return SList(self.comp(n.elt, n.generators, env, mod))

    def e_GeneratorExp(self, n, env, mod):
        return SList(self.comp(n.elt, n.generators, env, mod))

    def e_SetComp(self, n, env, mod):
        return self.builtins["set"](SList(self.comp(n.elt, n.generators, env, mod)))

    def e_DictComp(self, n, env, mod):
        items = self.comp(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n.generators, env, mod)
        if not isinstance(items, list):
            raise Unsupported("symbolic dict comprehension")
        return SDict({self.hashable(k): v for k, v in items})

    def comp(self, elt, gens, env, mod):
        tg = {x.id for q in gens for x in ast.walk(q.target) if isinstance(x, ast.Name)}
        for f in ast.walk(elt):
            if isinstance(f, ast.Lambda) and tg & {x.id for x in ast.walk(f.body) if isinstance(x, ast.Name)} - {a.arg for a in f.args.args}:
                raise Unsupported("a function that captures a comprehension variable")
        g = gens[0]
        it = self.iterable(self.ev(g.iter, env, mod))
        if isinstance(it, Seq) and not is_z3(conc_of(it.n)):
            it = [it.at(k) for k in range(int(conc_of(it.n)))]
        if isinstance(it, list):
            out = []
            for x in it:
                e = Env(env)
                self.bind(g.target, x, e, mod)
                ok = True
                for c in g.ifs:
                    if not self.branch(self.truth(self.ev(c, e, mod))):
                        ok = False
                        break
                if not ok:
                    continue
                if len(gens) > 1:
                    r = self.comp(elt, gens[1:], e, mod)
                    if not isinstance(r, list):
                        if out or len(it) > 1:
                            r = self.seq_concat(out, r)
                            out = r
                            continue
                        return r
                    out.extend(r)
                else:
                    out.append(self.ev(elt, e, mod))
            return out
        # symbolic length
        snap_env = self.freeze(env)
        if getattr(it, "abstract", False) and len(gens) == 1 and isinstance(g.target, ast.Name) and isinstance(elt, ast.Name) and elt.id == g.target.id:
            def cond(x):
                def th():
                    e = Env(snap_env)
                    self.bind(g.target, x, e, mod)
                    return land(*[self.truth(self.ev(c, e, mod)) for c in g.ifs])
                return self.pure(th)
            if not g.ifs:
                return it
            n, base = T.loose("cnt", T.I), it
            self.fact(n >= 0, cmp("<=", n, base.n))
            gx = T.fresh("member", T.I)
            cg = T.to_bool(cond(gx))          # now: the lists it mentions may change later
            return self.abstract_seq(n, lambda x: land(base.has(x), z3.substitute(cg, (gx, T.to_int(x)))), base.distinct)
        if g.ifs:
            def p(i):
                def th():
                    e = Env(snap_env)
                    self.bind(g.target, it.at(i), e, mod)
                    return land(*[self.truth(self.ev(c, e, mod)) for c in g.ifs])
                with self.assuming(cmp(">=", i, 0), cmp("<", i, it.n)):
                    return self.pure(th)
            gi = T.fresh("ci", T.I)
            pg = p(gi)
            pg = conc_of(T.simp(pg)) if is_z3(pg) else pg
            if not is_z3(pg):           # the condition does not depend on the element
                if not pg:
                    return []
            else:
                fl = N.filt(it.n, p)
                base = it
                it = Seq(fl.cnt, lambda k: base.at(fl.sel(T.to_int(k))))
        if len(gens) > 1:
            # flat nested comprehension: uniform inner length only
            i0 = T.fresh("co", T.I)

            def inner(i):
                def th():
                    e = Env(snap_env)
                    self.bind(g.target, it.at(i), e, mod)
                    r = self.comp(elt, gens[1:], e, mod)
                    return r
                return self.pure(th)
            with self.assuming(i0 >= 0, cmp("<", i0, it.n)):
                m = N.np_len(SList(inner(i0)))
            if is_z3(m) and T.contains(m, i0):
                raise Unsupported("ragged nested comprehension")
            tot = arith("*", it.n, m)

            def at2(k):
                q, r = N.divmod_sym(k, m)
                return self.seq_at(inner(q), r)
            return Seq(tot, at2)

        def at(i):
            def th():
                e = Env(snap_env)
                self.bind(g.target, it.at(i), e, mod)
                return self.ev(elt, e, mod)
            with self.assuming(*( [cmp(">=", i, 0), cmp("<", i, it.n)] if is_z3(conc_of(i)) or is_z3(it.n) else [])):
                return self.pure(th)
        # definedness / exceptions at a generic index
        i0 = T.fresh("co", T.I)
        with self.assuming(cmp(">=", i0, 0), cmp("<", i0, it.n)):
            ok = self.maybe(True)
            if ok:
                at(i0)
        # evaluate against a snapshot of the heap: refuse later mutation (checked by TR length)
        return Seq(it.n, at)

    def freeze(self, env):
        e = Env(None)
        chain = []
        x = env
        while x is not None:
            chain.append(x)
            x = x.parent
        for x in reversed(chain):
            e.d.update(x.d)
        return e

    # ------------------------------------------------------------ attributes
    def getattr(self, v, k):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (Mod, Ext)):
            return self.mod_attr(v, k)
        if isinstance(v, Obj):
            if k in v.a:
                x = v.a[k]
                if isinstance(x, Poison):
                    raise Unsupported(f"attribute {k}: {x.why}")
                return x
            if k == "__class__":
                return v.cls
            if k == "__dict__":
                return self.builtins["vars"](v)
            if isinstance(v.cls, Cls):
                q = f"{v.cls.qual}.{k}"
                c, f = v.cls.find(k)
                if v.partial and k in self.assigned_attrs() and \
                        (f is None or isinstance(f, tuple) and isinstance(f[1], ast.Constant) and f[1].value is None):
                    raise NotInContract(f"attribute {k} not in the contract of {v.name}")
                if f is not None:
                    return self.bind_member(c, f, v, k)
                c, f = v.cls.find("__getattr__")
                if f is not None:
                    return self.call(Bound(f, v), [k], {})
            if v.cls is None and v.name not in ("Namespace", "config", "object"):
                raise NotInContract(f"attribute {k} not in the contract of {v.name}")
            raise PyRaise("AttributeError", f"{v.name}.{k}")
        if isinstance(v, Cls):
            c, f = v.find(k)
            if f is not None:
                if isinstance(f, Func) and "classmethod" in f.decs:
                    return Bound(f, v)
                return self.bind_member(c, f, None, k)
            if k == "__name__":
                return v.name
            raise PyRaise("AttributeError", k)
        if isinstance(v, Super):
            c, f = v.cls_find(k) if hasattr(v, "cls_find") else v.obj.cls.find(k, after=v.cls)
            if f is None:
                if k == "__init__":
                    return lambda *a, **kw: None
                raise PyRaise("AttributeError", k)
            return self.bind_member(c, f, v.obj, k)
        if isinstance(v, FamObj):
            return self.fam_get(v, k)
        h = self.methods(v, k)
        if h is not None:
            return h
        if v is None:
            raise PyRaise("AttributeError", f"None.{k}")
        if type(v) in (str, bool, int) and not hasattr(v, k):
            raise PyRaise("AttributeError", f"{type(v).__name__}.{k}")
        if type(v) is bytes and k == "decode":
            return lambda enc="utf-8", *a: v.decode(enc)
        raise Unsupported(f"attribute {k} of {type(v).__name__}")

    def bind_member(self, c, f, obj, k):
        if isinstance(f, Func):
            if "property" in f.decs or any("cached_property" in d or "lazyproperty" in d for d in f.decs):
                if obj is None:
                    return f
                return self.call(Bound(f, obj), [], {})
            if "staticmethod" in f.decs:
                return f
            if "classmethod" in f.decs:
                return Bound(f, obj.cls if obj is not None else c)
            return Bound(f, obj) if obj is not None else f
        if isinstance(f, tuple) and f[0] == "lazy":
            e = Env(None)
            for kk, vv in c.ns.items():
                if isinstance(vv, tuple) and vv and vv[0] == "lazy":
                    continue
                e.d[kk] = vv
            v = self.ev(f[1], self.cls_env(c), c.mod)
            c.ns[k] = ("val", v)
            return v
        if isinstance(f, tuple) and f[0] == "val":
            return f[1]
        return f

    def cls_env(self, c):
        I = self

        class LazyEnv(Env):
            pass
        e = Env(None)
        for kk, vv in c.ns.items():
            if isinstance(vv, tuple) and vv[0] == "lazy":
                try:
                    e.d[kk] = self.ev(vv[1], e, c.mod)
                except (Unsupported, PyRaise):
                    pass
            elif isinstance(vv, tuple) and vv[0] == "val":
                e.d[kk] = vv[1]
        return e

    def fam_get(self, o, k):
        fam, i = o.fam, o.idx
        if k in fam.attrs:
            a = fam.attrs[k]
            if isinstance(a, Buf):
                return a.fn((i,))
            if a[0] == "const":
                return a[1]
            if a[0] == "fn":
                return a[1](i)
            if a[0] == "nd":
                _, buf, tail = a
                shp = tuple(t(i) if callable(t) else t for t in tail)
                return Nd(shp, buf, lambda ix: (i,) + tuple(ix),
                          lambda r: (cmp("==", r[0], i), tuple(r[1:])))
        if isinstance(fam.cls, Cls):
            c, f = fam.cls.find(k)
            if f is not None:
                return self.bind_member(c, f, o, k)
        if k in self.assigned_attrs():
            raise NotInContract(f"attribute {k} not in the contract of {fam.name}")
        raise PyRaise("AttributeError", f"{fam.name}[].{k}")

    def setattr(self, v, k, val):
        if isinstance(v, Obj):
            if getattr(v, "virtual", False):
                raise Unsupported(f"set {k} on an element of a symbolic list")
            if isinstance(v.cls, Cls):
                c, f = v.cls.find(k + "@set")
                if f is not None:
                    self.call(Bound(f, v), [val], {})
                    return
                c, f = v.cls.find(k)
                if isinstance(f, Func) and "property" in f.decs:
                    raise PyRaise("AttributeError", f"can't set {k}")
            v.set(k, val)
            return
        if isinstance(v, FamObj):
            a = v.fam.attrs.get(k)
            if isinstance(a, Buf):
                old, i = a.fn, v.idx
                a.set(lambda r: ite(cmp("==", r[0], i), val, old(r)))
                return
            if isinstance(a, tuple) and a[0] == "nd":
                # rebinding an array attribute of a family member: value semantics
                _, buf, tail = a
                nd = N.as_nd(val)
                if nd.ndim != len(tail):
                    raise Unsupported("family attribute rank")
                f, old, i = N.snap(nd), buf.fn, v.idx
                buf.set(lambda r: ite(cmp("==", r[0], i), f(*r[1:]), old(r)))
                return
            raise Unsupported(f"set {k} on family object")
        if isinstance(v, Nd) and k == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported(f"setattr on {type(v).__name__}")

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, key):
        if isinstance(v, N.DtypeSpec):
            if key not in v.fields:
                raise PyRaise("KeyError", str(key))
            return v.fields[key][0]
        if isinstance(v, SDict):
            key = self.hashable(key)
            if key not in v.d:
                raise PyRaise("KeyError", str(key))
            x = v.d[key]
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return x
        if isinstance(v, SList):
            r = self.getitem(v.v, key)
            return SList(r) if isinstance(key, slice) else r
        if isinstance(v, Nd):
            if isinstance(key, (str, Name)):
                raise PyRaise("IndexError", "string index")
            return N.getitem(v, key)
        if isinstance(v, Rec):
            return N.rec_getitem(v, key)
        if isinstance(v, (list, tuple, str)):
            if isinstance(key, slice):
                ks = [conc_of(x) if x is not None else None for x in (key.start, key.stop, key.step)]
                if any(is_z3(x) for x in ks if x is not None):
                    if isinstance(v, str):
                        raise Unsupported("string slice")
                    a, ln, st = N.norm_slice(key, len(v))
                    vv = list(v)
                    return Seq(ln, lambda i: self.seq_at(vv, arith("+", a, arith("*", st, i))))
                return v[slice(*[None if x is None else int(x) for x in ks])]
            if isinstance(key, Nd) and key.ndim == 0:
                key = key.at()
            if isinstance(key, (str, Name, tuple, SList)) or key is None:
                raise PyRaise("TypeError", "list indices must be integers or slices")
            k = conc_of(key)
            if is_z3(k):
                k = N.norm_int(k, len(v))
                return self.seq_at(list(v), k)
            try:
                return v[int(k)]
            except IndexError:
                raise PyRaise("IndexError", "list index out of range")
            except TypeError:
                raise PyRaise("TypeError", "list index")
        if isinstance(v, Seq):
            if isinstance(key, slice):
                a, ln, st = N.norm_slice(key, v.n)
                r = Seq(ln, lambda i: v.at(arith("+", a, arith("*", st, i))))
                if v.has:                  # some of the members
                    P, f = T.fresh_fun("in_slice", T.I, T.B), r.at

                    def has(x):
                        x = T.to_int(x)
                        self.fact(z3.Implies(P(x), T.to_bool(v.has(x))), z3.Implies(T.to_int(ln) == T.to_int(v.n), P(x) == T.to_bool(v.has(x))))
                        return P(x)

                    def at(i):
                        e = f(i)
                        self.fact(z3.Implies(z3.And(T.to_int(i) >= 0, T.to_int(i) < T.to_int(ln)), P(T.to_int(e))))
                        return e
                    r.at, r.has, r.distinct, r.abstract = at, has, v.distinct, getattr(v, "abstract", False)
                return r
            return v.at(N.norm_int(key, v.n))
        if isinstance(v, Obj):
            if callable(v.a.get("__getitem__")):
                return v.a["__getitem__"](key)
            c, f = v.cls.find("__getitem__") if isinstance(v.cls, Cls) else (None, None)
            if f is not None:
                return self.call(Bound(f, v), [key], {})
        if is_scalar(v):
            raise PyRaise("TypeError", "scalar not subscriptable")
        if v is None:
            raise PyRaise("TypeError", "None not subscriptable")
        raise Unsupported(f"subscript of {type(v).__name__}")

    def setitem(self, v, key, val):
        if isinstance(v, SDict):
            v.set(self.hashable(key), val)
            return
        if isinstance(v, SList):
            if isinstance(v.v, list) and not isinstance(key, slice):
                k = conc_of(key)
                if not is_z3(k):
                    x = list(v.v)
                    try:
                        x[int(k)] = val
                    except IndexError:
                        raise PyRaise("IndexError", "assignment out of range")
                    v.set(x)
                    return
            if isinstance(v.v, list) and isinstance(key, slice):
                ks = [conc_of(x) if x is not None else None for x in (key.start, key.stop, key.step)]
                if not any(is_z3(x) for x in ks if x is not None):
                    x = list(v.v)
                    try:
                        x[slice(*[None if q is None else int(q) for q in ks])] = self.to_pylist(val)
                    except ValueError:
                        raise PyRaise("ValueError", "slice assignment")
                    v.set(x)
                    return
            raise Unsupported("list assignment")
        if isinstance(v, Nd):
            if isinstance(key, SList) and isinstance(key.v, Seq) and key.v.has and v.ndim == 1:
                x = T.fresh("member", T.I)         # every member of the list gets the one value
                val = val.at() if isinstance(val, Nd) and val.ndim == 0 else val
                if not is_scalar(val) or not self.valid(lor(lnot(key.v.has(x)), land(cmp(">=", x, 0), cmp("<", x, v.shape[0])))):
                    raise Unsupported("assignment to a list of places")
                old, has = N.snap(v), key.v.has
                N.setitem(v, slice(None), N.mk_nd(v.shape, lambda i: ite(has(i), val, old(i)), v.kind))
                return
            N.setitem(v, key, val)
            return
        if isinstance(v, Rec):
            N.rec_setitem(v, key, val)
            return
        if isinstance(v, Obj) and callable(v.a.get("__setitem__")):
            v.a["__setitem__"](key, val)
            return
        raise Unsupported(f"item assignment on {type(v).__name__}")

    # ------------------------------------------------------------ calls
    def e_Call(self, n, env, mod):
        if isinstance(n.func, ast.Name) and n.func.id == "print" and not env.has("print"):
            return None
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and "__self__" not in e.d:
                e = e.parent
            return Super(e.d["__cls__"], e.d["__self__"])
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join") and \
                isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            if n.func.attr == "format":
                args = []
                for a in n.args:
                    try:
                        args.append(self.ev(a, env, mod))
                    except Unsupported:
                        args.append(Str())
                try:
                    kws = {k.arg: plain(self.ev(k.value, env, mod)) for k in n.keywords}
                except Unsupported:
                    return Str()
                args = [plain(a) for a in args]
                if all(a is not None for a in args) and all(k and x is not None for k, x in kws.items()):
                    try:
                        return n.func.value.value.format(*args, **kws)
                    except (ValueError, TypeError, IndexError, KeyError) as e:
                        raise PyRaise(type(e).__name__, "format")
                return Str()
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("info", "debug", "warning", "error", "warn") and \
                isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging", "log", "warnings"):
            return None
        f = self.ev(n.func, env, mod)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env, mod)
                if isinstance(f, Ext) and f.name in self.contracts:
                    it = self.iterable(sv)
                    if isinstance(it, Seq) and is_z3(conc_of(it.n)):
                        args.append(Star(it))
                        continue
                args.extend(self.to_pylist(sv))
            else:
                args.append(self.ev(a, env, mod))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not isinstance(d, SDict):
                    raise Unsupported("** of non-dict")
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw)

    def to_pylist(self, v):
        it = self.iterable(v)
        if isinstance(it, Seq):
            n = conc_of(it.n)
            if is_z3(n):
                raise Unsupported("symbolic length unpacking")
            return [it.at(k) for k in range(int(n))]
        return list(it)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            q = None
            if isinstance(f.f, Func):
                q = f.f.qual
                # contracts on a method apply to subclasses that inherit it
                if q in self.contracts and q not in self._busy:
                    return self.contracts[q](self, f.self_, *args, **kw)
                return self.call_func(f.f, [f.self_] + list(args), kw)
            return f.f(f.self_, *args, **kw)
        if isinstance(f, Func):
            q = f.qual
            if q in self.contracts and q not in self._busy:
                return self.contracts[q](self, *args, **kw)
            return self.call_func(f, list(args), kw)
        if isinstance(f, Cls):
            if f.qual in self.contracts:
                return self.contracts[f.qual](self, *args, **kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, N.DType):
            if args and isinstance(args[0], str) and f.kind in ("real", "int"):
                try:
                    x = float(args[0]) if f.kind == "real" else int(args[0])
                except ValueError:
                    raise PyRaise("ValueError", "could not convert string to number")
                return Fraction(x) if math.isfinite(x) else x
            return N.astype(args[0] if is_scalar(args[0]) else N.as_nd(args[0]), f) if args else 0
        if isinstance(f, Obj):
            if callable(f.a.get("__call__")):
                return f.a["__call__"](*args, **kw)
            c, g = f.cls.find("__call__") if isinstance(f.cls, Cls) else (None, None)
            if g is not None:
                return self.call(Bound(g, f), args, kw)
        if isinstance(f, Ext):
            if f.name in self.contracts:
                return self.contracts[f.name](self, *args, **kw)
            raise Unsupported(f"call of external {f.name}")
        if callable(f):
            return f(*args, **kw)
        raise Unsupported(f"call of {type(f).__name__}")

    _busy = ()

    def instantiate(self, c, args, kw):
        q = f"{c.qual}.__new__"
        if q in self.contracts:
            return self.contracts[q](self, c, *args, **kw)
        if any(isinstance(b, Ext) or b is None for x in c.mro() for b in x.bases if not isinstance(b, Cls)) and False:
            raise Unsupported("external base")
        o = Obj(c, c.name)
        k, init = c.find("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            if c.name.endswith("Error") or "Exception" in [getattr(b, "name", "") for b in c.bases if b is not None]:
                return o
            raise Unsupported(f"constructor of {c.name}")
        return o

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        try:
            node = f.node
            env = Env(f.env, f.name)
            a = node.args
            self.bind_args(f, a, args, dict(kw), env)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env, f.mod)
            if f.qual not in self.touched:
                self.touched[f.qual] = (getattr(node, '_path', None) or f.mod.path, node.lineno, node.end_lineno)
            for d in f.decs:
                if d not in ("property", "staticmethod", "classmethod") and not d.endswith(".setter"):
                    raise Unsupported(f"decorator {d}")
            if f.cls is not None:
                env.d["__cls__"] = f.cls
                env.d["__self__"] = args[0] if args else None
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node)):
                raise Unsupported("generator")
            try:
                self.exec_block(node.body, env, f.mod)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, a, args, kw, env):
        pos = [x.arg for x in a.posonlyargs + a.args]
        for name, v in zip(pos, args):
            env.d[name] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise("TypeError", f"{f.name}: too many arguments")
            env.d[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env.d[a.vararg.arg] = ()
        for k in list(kw):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in env.d:
                    raise PyRaise("TypeError", f"multiple values for {k}")
                env.d[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                raise PyRaise("TypeError", f"{f.name}: unexpected keyword {list(kw)}")
        if a.kwarg is not None:
            env.d[a.kwarg.arg] = SDict(kw)
        denv = f.env if f.env is not None else Env(None)
        for name, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if name not in env.d:
                env.d[name] = self.ev(d, denv, f.mod)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env.d and d is not None:
                env.d[x.arg] = self.ev(d, denv, f.mod)
        for name in pos + [x.arg for x in a.kwonlyargs]:
            if name not in env.d:
                raise PyRaise("TypeError", f"{f.name}: missing argument {name}")

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v):
        v = conc_of(v)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if is_scalar(v):
            return N.truth(v) if is_z3(v) else bool(v)
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Nd):
            if v.ndim == 0:
                return N.truth(v.at())
            sz = N.prod_dims(v.shape)
            sz = conc_of(T.simp(sz)) if is_z3(sz) else sz
            if not is_z3(sz) and sz == 1:
                return N.truth(v.at(*([0] * v.ndim)))
            if is_z3(sz) and self.valid(cmp("==", sz, 1)):
                return N.truth(v.at(*([0] * v.ndim)))
            if is_z3(sz) and self.branch(cmp("==", sz, 1)):
                return N.truth(v.at(*([0] * v.ndim)))
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(v, (SList, tuple, SDict)):
            n = N.np_len(v)
            return n > 0 if not is_z3(n) else cmp(">", n, 0)
        if isinstance(v, Obj):
            if "__bool__" in v.a:
                return v.a["__bool__"]
            if isinstance(v.cls, Cls):
                for k in ("__bool__", "__len__"):
                    c, f = v.cls.find(k)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Cls, Func, Bound, Mod, Ext, FamObj, Name)) or callable(v):
            return True
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Rec):
            raise Unsupported("truth of record")
        raise Unsupported(f"truth of {type(v).__name__}")

    def iterable(self, v):
        """python list or Seq"""
        if isinstance(v, SList):
            v = v.v
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Seq):
            if not is_z3(conc_of(v.n)) and v.name != "keep":
                return [v.at(k) for k in range(int(conc_of(v.n)))]
            return v
        if isinstance(v, SDict):
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Nd):
            if v.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            n = v.shape[0]
            if isinstance(v.tag, tuple) and v.tag[0] == "members":
                return v.tag[1]
            if not is_z3(n):
                return [N.getitem(v, k) for k in range(n)]
            return Seq(n, lambda i: N.getitem(v, i))
        if isinstance(v, Rec):
            n = v.shape[0]
            if not is_z3(n):
                return [N.rec_getitem(v, k) for k in range(n)]
            return Seq(n, lambda i: N.rec_getitem(v, i))
        if isinstance(v, Obj):
            if "__iter__" in v.a and callable(v.a["__iter__"]):
                return self.iterable(v.a["__iter__"]())
            if isinstance(v.cls, Cls):
                c, f = v.cls.find("__iter__")
                if f is not None:
                    return self.iterable(self.call(Bound(f, v), [], {}))
        if v is None or isinstance(v, (int, float, bool)):
            raise PyRaise("TypeError", "object is not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, mod):
        for s in body:
            self.exec(s, env, mod)

    def exec(self, s, env, mod):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env, mod)

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        c = s.value
        if isinstance(c, ast.ListComp) and isinstance(c.elt, ast.Call) and isinstance(c.elt.func, ast.Attribute) and c.elt.func.attr == "append" \
                and isinstance(c.elt.func.value, ast.Name) and len(c.elt.args) == 1 and not c.elt.keywords:
            nm = c.elt.func.value.id
            if not any(isinstance(x, ast.Name) and x.id == nm for g in [c.elt.args[0], *c.generators] for x in ast.walk(g)):
                # [l.append(e) for ...] is l.extend([e for ...]) when e and the conditions do not mention l
                l = self.lookup(nm, env, mod)
                used = {x.id for g in [c.elt.args[0], *c.generators] for x in ast.walk(g) if isinstance(x, ast.Name)}
                if isinstance(l, SList) and not any(self.bound_to(u, env) is l for u in used):
                    l.set(self.list_extend(l.v, self.comp(c.elt.args[0], c.generators, env, mod)))
                    return
        self.ev(s.value, env, mod)

    def bound_to(self, nm, env):
        while env is not None:
            if nm in env.d:
                return env.d[nm]
            env = env.parent
        return None

    def scope(self, nm, env):
        while nm in getattr(env, "outer", ()):
            env = env.parent
            while env is not None and nm not in env.d:
                env = env.parent
            if env is None:
                raise Unsupported("nonlocal")
        return env

    def s_Pass(self, s, env, mod):
        pass

    def s_Import(self, s, env, mod):
        for a in s.names:
            env.set((a.asname or a.name).split(".")[0], self.import_mod(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, env, mod):
        m = self.import_from(mod, s)
        for a in s.names:
            env.set(a.asname or a.name, self.mod_attr(m, a.name))

    def s_FunctionDef(self, s, env, mod):
        f = Func(s, mod, None, env)
        f.decs = [dec_name(d) for d in s.decorator_list]
        env.set(s.name, f)

    def s_Nonlocal(self, s, env, mod):
        env.outer = getattr(env, "outer", frozenset()) | set(s.names)

    def s_Global(self, s, env, mod):
        raise Unsupported("global")

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.bind(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, env, mod), env, mod)

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.scope(t.id, env).set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.ev_index(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.to_pylist(v)
            st = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                after = len(t.elts) - k - 1
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise("ValueError", "unpack")
                for x, y in zip(t.elts[:k], xs[:k]):
                    self.bind(x, y, env, mod)
                self.bind(t.elts[k].value, SList(xs[k:len(xs) - after]), env, mod)
                for x, y in zip(t.elts[k + 1:], xs[len(xs) - after:]):
                    self.bind(x, y, env, mod)
                return
            if len(xs) != len(t.elts):
                raise PyRaise("ValueError", "unpack")
            for x, y in zip(t.elts, xs):
                self.bind(x, y, env, mod)
        else:
            raise Unsupported("assignment target")

    def s_AugAssign(self, s, env, mod):
        op = self.OPS.get(type(s.op))
        if op is None:
            raise Unsupported("augmented op")
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, mod)
            rhs = self.ev(s.value, env, mod)
            new = self.inplace(op, cur, rhs)
            if new is not None:
                self.scope(t.id, env).set(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(s.value, env, mod)
            new = self.inplace(op, cur, rhs)
            if new is not None:
                self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, k)
            rhs = self.ev(s.value, env, mod)
            if isinstance(o, (Nd, Rec)):
                self.setitem(o, k, self.binop(op, cur, rhs))
            else:
                new = self.inplace(op, cur, rhs)
                if new is not None:
                    self.setitem(o, k, new)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Nd) and (cur.ndim > 0):
            r = self.binop(op, cur, rhs)
            if isinstance(r, Nd) and r.ndim > cur.ndim:
                raise PyRaise("ValueError", "in-place broadcast")
            N.assign(cur, r)
            return None
        if isinstance(cur, SList) and op == "+":
            other = rhs.v if isinstance(rhs, SList) else self.iterable(rhs)
            cur.set(self.list_extend(cur.v, other))
            return None
        return self.binop(op, cur, rhs)

    def list_extend(self, cur, other):
        if isinstance(cur, HavocList):
            return cur.extend(other)
        return self.seq_concat(cur, other)

    def s_Return(self, s, env, mod):
        raise ReturnEx(None if s.value is None else self.ev(s.value, env, mod))

    def s_Break(self, s, env, mod):
        raise BreakEx()

    def s_Continue(self, s, env, mod):
        raise ContinueEx()

    def s_If(self, s, env, mod):
        t = self.truth(self.ev(s.test, env, mod))
        self.exec_block(s.body if self.branch(t) else s.orelse, env, mod)

    def s_Assert(self, s, env, mod):
        t = self.truth(self.ev(s.test, env, mod))
        if not self.branch(t):
            raise PyRaise("AssertionError", ast.unparse(s.test))

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            if self.handling:
                raise self.handling[-1]
            raise Unsupported("re-raise")
        e = s.exc
        if isinstance(e, ast.Name) and env.has(e.id):
            x = self.lookup(e.id, env, mod)
            if isinstance(getattr(x, "pyraise", None), PyRaise):
                raise x.pyraise
            raise Unsupported("raise of a value")
        name = None
        x = e
        while isinstance(x, ast.Call):
            x = x.func
        name = ast.unparse(x).split(".")[-1]
        raise PyRaise(name, "")

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in env.d:
                    TR.delete(env, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev_index(t.slice, env, mod)
                if isinstance(o, SDict):
                    if self.hashable(k) not in o.d:
                        raise PyRaise("KeyError", "del")
                    TR.delete(o, self.hashable(k))
                elif isinstance(o, SList):
                    from .npapi import list_delete
                    list_delete(self, o, k)
                elif isinstance(o, Obj) and callable(o.a.get("__delitem__")):
                    o.a["__delitem__"](k)
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if isinstance(o, Obj) and t.attr in o.a:
                    TR.delete(o, t.attr)
                else:
                    raise PyRaise("AttributeError", t.attr)
            else:
                raise Unsupported("del")

    def s_Try(self, s, env, mod):
        try:
            try:
                self.exec_block(s.body, env, mod)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_match(h.type, e):
                        if h.name:
                            x = Obj(None, "exc")
                            x.pyraise = e
                            env.set(h.name, x)
                        self.handling = self.handling + (e,)
                        try:
                            self.exec_block(h.body, env, mod)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env, mod)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, env, mod)
            raise
        self.exec_block(s.finalbody, env, mod)

    handling = ()

    HIER = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
            "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
            "AssertionError": "Exception", "NameError": "Exception", "ZeroDivisionError": "ArithmeticError",
            "ArithmeticError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
            "AxisError": "ValueError", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "LinAlgError": "ValueError",
            "OSError": "Exception", "FileNotFoundError": "OSError", "StopIteration": "Exception", "UnicodeDecodeError": "ValueError"}

    def exc_match(self, t, e):
        if t is None:
            return True
        names = [{"IOError": "OSError", "EnvironmentError": "OSError"}.get(q, q) for q in self.exc_names(t)]
        n = e.etype
        while n:
            if n in names or "BaseException" in names:
                return True
            n = self.HIER.get(n, "Exception" if n not in ("Exception", "BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit") else None)
        return False

    def exc_names(self, t):
        return [ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]

    def s_With(self, s, env, mod):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)
            return self.s_With(ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s), env, mod)
        it = s.items[0]
        v = x = self.ev(it.context_expr, env, mod)
        ex = None
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            c, f = v.cls.find("__enter__")
            if f is None or v.cls.find("__exit__")[1] is None:
                raise PyRaise("TypeError", "not a context manager")
            x, ex = self.call(self.getattr(v, "__enter__"), []), self.getattr(v, "__exit__")
        if it.optional_vars is not None:
            self.bind(it.optional_vars, x, env, mod)
        if ex is None:          # an external context manager: the value itself, nothing to observe on leaving
            return self.exec_block(s.body, env, mod)
        try:
            self.exec_block(s.body, env, mod)
        except PyRaise as e:
            if not self.branch(self.truth(self.call(ex, [Obj(None, "exc type"), Obj(None, "exc"), Obj(None, "traceback")]))):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(ex, [None, None, None])
            raise
        self.call(ex, [None, None, None])

    def s_For(self, s, env, mod):
        src = self.ev(s.iter, env, mod)
        it = self.iterable(src)
        if isinstance(it, list):
            if len(it) > 300:
                raise Unsupported("long concrete loop")
            n0 = src.v if isinstance(src, SList) else None
            for k, x in enumerate(it):
                if n0 is not None and src.v is not n0:
                    raise Unsupported("the list being iterated over changes")
                self.bind(s.target, x, env, mod)
                try:
                    self.exec_block(s.body, env, mod)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(s.orelse, env, mod)
            return
        if s.orelse:
            raise Unsupported("for-else over a symbolic range")
        from .loops import sym_loop

        def body(i):
            self.bind(s.target, it.at(i), env, mod)
            try:
                self.exec_block(s.body, env, mod)
            except ContinueEx:
                pass
        if self.cuts and self.cut_loop(s, env, it, body):
            return
        sym_loop(self, it.n, body, f"{mod.name if mod else '?'}:{s.lineno}", env)

    cuts = ()

    def cut_loop(self, s, env, it, body):
        """loop invariants of the contract: cut(it, run) checks the invariant on entry, havocs the state it describes, runs one
        generic iteration and checks it again.  Frame: nothing else that existed before the loop may be written by the iteration,
        and names assigned in it carry no value from one iteration to the next or beyond the loop."""
        names = {x.id for b in (s.body + [s.target]) for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        ser, mark = SERIAL[0], TR.mark()

        def forget():
            for nm in names - run.keep:
                env.set(nm, Poison(f"{nm} after a loop cut at its invariant"))

        def run(k):
            forget()
            havoc, m2 = set(TR.writes(mark)), TR.mark()
            run.broke = False
            try:
                body(k)
            except BreakEx:
                run.broke = True
            for key, (cont, *_r) in TR.writes(m2).items():
                if cont.serial <= ser and cont is not env and key not in havoc:
                    raise Unsupported("the loop writes outside the frame of its invariant")
        run.env, run.keep, run.broke = env, set(), False
        for cut in self.cuts:
            if cut(it, run):
                if not run.broke:          # else this iteration was the last one
                    forget()
                return True
        return False

    while_cuts = ()

    def s_While(self, s, env, mod):
        for cut in self.while_cuts:
            names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            ser, mark = SERIAL[0], TR.mark()

            def run():
                """one iteration from the state the contract has set up; True if it leaves the loop"""
                for nm in names - run.keep:
                    env.set(nm, Poison(f"{nm} carried by a loop cut at its invariant"))
                havoc, m2 = set(TR.writes(mark)), TR.mark()
                out = False
                if not self.branch(self.truth(self.ev(s.test, env, mod))):
                    out = True
                else:
                    try:
                        self.exec_block(s.body, env, mod)
                    except BreakEx:
                        out = True
                    except ContinueEx:
                        pass
                for key, (cont, *_r) in TR.writes(m2).items():
                    if cont.serial <= ser and cont is not env and key not in havoc:
                        raise Unsupported("the loop writes outside the frame of its invariant")
                return out
            run.env, run.keep = env, set()
            if not s.orelse and cut(run):
                return
        for k in range(40):
            t = conc_of(self.truth(self.ev(s.test, env, mod)))
            if is_z3(t):
                hook = self.while_hook
                if hook is not None:
                    return hook(self, s, env, mod)
                if self.valid(t):
                    t = True
                elif self.valid(z3.Not(T.to_bool(t))):
                    t = False
                else:
                    raise Unsupported("symbolic while loop")
            if not t:
                self.exec_block(s.orelse, env, mod)
                return
            try:
                self.exec_block(s.body, env, mod)
            except BreakEx:
                return
            except ContinueEx:
                continue
        raise Unsupported("long while loop")

    while_hook = None

    def methods(self, v, k):
        from . import npapi
        return npapi.method(self, v, k)


class Segment:
    """a run of symbolically many items appended at once"""
    def __init__(self, seq):
        self.seq = seq


class HavocList:
    """list value of unknown prefix inside a loop body; only appends allowed"""
    def __init__(self, tail=()):
        self.tail = tuple(tail)

    def extend(self, other):
        if isinstance(other, Seq):
            return HavocList(self.tail + (Segment(other),))
        if not isinstance(other, (list, tuple)):
            raise Unsupported("extend in loop")
        return HavocList(self.tail + tuple(other))


def walk_own(fn):
    st = list(fn.body) if isinstance(fn.body, list) else []
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
