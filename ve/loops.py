"""Summaries of loops with a symbolic number of iterations.

Every location the body writes satisfies x_{i+1} = F(x_i, i).  The body is run
once on arbitrary (havocked) x, for all paths; a closed form is produced only
for recurrences whose solution is known (accumulation, overwrite at an index the
iteration determines, last value, append).  The closed form *is* the loop
invariant: 'after k iterations x = closed(k)'; it is inductive by construction.
Anything else poisons the location (a later read is Unsupported)."""
import os
import z3
from . import terms as T
from .terms import Unsupported, is_z3, conc_of, arith, cmp, land, lor, lnot, ite
from .state import (Nd, Buf, Rec, SList, SDict, Seq, Obj, Name, TR, SERIAL, Env, Poison, kind_sort)
from . import npmodel as N
from .npmodel import PyRaise, is_scalar


class Loc:
    def __init__(self, cont, key, existed, init):
        self.cont, self.key, self.existed, self.init = cont, key, existed, init
        self.mode = None
        self.closed = None       # k -> value
        self.h = None
        self.why = ""


DEBUG = os.environ.get("VE_DEBUG")


def classify(loc):
    v = loc.init
    if isinstance(loc.cont, Buf):
        return "buf"
    if isinstance(loc.cont, SList):
        return "list"
    if not loc.existed:
        return "temp"
    if is_scalar(v):
        return "scalar"
    if isinstance(v, Nd):
        return "nd"
    return "temp"


def fresh_like(v, nm):
    if is_z3(v):
        return T.fresh(nm, v.sort())
    if isinstance(v, bool):
        return T.fresh(nm, T.B)
    if isinstance(v, int):
        return None
    return T.fresh(nm, T.R)


def havoc(loc, sort=None):
    from .pyint import HavocList
    if loc.mode == "scalar":
        s = loc.sort if getattr(loc, "sort", None) is not None else (
            loc.init.sort() if is_z3(loc.init) else T.B if isinstance(loc.init, bool)
            else T.I if isinstance(loc.init, int) else T.R)
        loc.h = T.fresh("hv", s)
        return loc.h
    if loc.mode in ("buf", "nd"):
        nd = loc.cont.ndim if loc.mode == "buf" else loc.init.ndim
        kind = loc.cont.kind if loc.mode == "buf" else (getattr(loc, "kind", None) or loc.init.kind)
        if nd == 0:
            c = T.fresh("hv", kind_sort(kind))
            loc.h = c
            f = lambda ix: c
        else:
            loc.h = T.fresh_fun("hv", *([T.I] * nd + [kind_sort(kind)]))
            f = lambda ix, h=loc.h: h(*[T.to_int(x) for x in ix])
        if loc.mode == "buf":
            return f
        return N.mk_nd(loc.init.shape, lambda *ix: f(ix), kind)
    if loc.mode == "list":
        return HavocList()
    return Poison(f"loop-carried {loc.key}")


def hname(loc):
    if loc.h is None:
        return None
    return loc.h.name() if isinstance(loc.h, z3.FuncDeclRef) else loc.h.decl().name()


def mentions(t, loc):
    if not is_z3(t) or loc.h is None:
        return False
    if isinstance(loc.h, z3.FuncDeclRef):
        return bool(T.fun_apps(t, loc.h.name()))
    return T.contains(t, loc.h)


def leaves(t, conds=()):
    """[(cond list, leaf)] through the top if-then-else structure"""
    if is_z3(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        return leaves(t.arg(1), conds + (t.arg(0),)) + leaves(t.arg(2), conds + (z3.Not(t.arg(0)),))
    return [(conds, t)]


def solve_candidates(cond, i, ix):
    """candidate inverse functions i = g(ix) from equations in cond"""
    out = []
    seen, st = set(), [cond]
    while st:
        t = st.pop()
        if not is_z3(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and z3.is_int(t.arg(0)):
            p, atoms = N._poly(t.arg(0) - t.arg(1))
            if p is not None:
                mi = ((i.get_id(), 1),)
                if mi in p and abs(p[mi]) == 1 and not any(m != mi and any(a == i.get_id() for a, _ in m) for m in p):
                    s = p.pop(mi)
                    out.append(N.p2t({m: -v * s for m, v in p.items()}, atoms))
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                # b == sel(i): the place of b in the selection
                if z3.is_app(a) and a.num_args() == 1 and a.arg(0).eq(i) and not T.contains(b, i):
                    for fl, _ in N.CX().filters.values():
                        if a.decl().eq(fl.sel):
                            out.append(fl.rank(b))
        if z3.is_app(t):
            st.extend(t.children())
    for x in ix:
        if is_z3(x) and z3.is_int(x):
            out.append(x)
    # x >= i*m ... : div candidates
    ms = []
    st, seen = [cond], set()
    while st:
        t = st.pop()
        if not is_z3(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if z3.is_int(t) and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD) and T.contains(t, i):
                p, atoms = N._poly(t)
                if p:
                    q = {}
                    for m, v in p.items():
                        d = dict(m)
                        if d.get(i.get_id(), 0) == 1:
                            d.pop(i.get_id())
                            q[tuple(sorted(d.items()))] = v
                    if q:
                        mm = N.p2t(q, atoms)
                        ms.append(mm)
            st.extend(t.children())
    seenm = set()
    for m in ms:
        k = m.get_id() if is_z3(m) else m
        if k in seenm or (not is_z3(m) and m <= 1):
            continue
        seenm.add(k)
        for x in ix:
            if is_z3(x) and z3.is_int(x):
                out.append(("div", x, m))
    # off + i*m <= x
    seen, st, done = set(), [cond], set()
    xs = {x.get_id(): x for x in ix if is_z3(x) and z3.is_int(x)}
    while st:
        t = st.pop()
        if not is_z3(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            st.extend(t.children())
        if not (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t)) or not z3.is_int(t.arg(0)):
            continue
        p, atoms = N._poly(t.arg(0) - t.arg(1))
        if not p:
            continue
        for xid, x in xs.items():
            mx = ((xid, 1),)
            if mx not in p or abs(p[mx]) != 1:
                continue
            sg = p[mx]
            q, off = {}, {}
            for m, c in p.items():
                if m == mx:
                    continue
                d = dict(m)
                if d.get(i.get_id(), 0) == 1:
                    d.pop(i.get_id())
                    q[tuple(sorted(d.items()))] = -c * sg
                elif i.get_id() not in d:
                    off[m] = -c * sg
            if q and off:
                m, o = N.p2t(q, atoms), N.p2t(off, atoms)
                key = (str(m), str(o))
                if key not in done:
                    done.add(key)
                    out.append(("div", x - o, m))
    return out


def sym_loop(I, n, body, label, env):
    if not I.maybe(cmp(">", n, 0)):
        return
    I.loops += 1
    ser = SERIAL[0]
    n = T.to_int(n)
    i = T.fresh("it", T.I)
    locs = {}
    rng = [i >= 0, i < n]
    result = None
    lenient, check = False, set()
    for rnd in range(10):
        paths = []
        hv = {k: havoc(l) for k, l in locs.items() if l.closed is None}     # one arbitrary pre-state for all paths

        def thunk():
            for k, l in locs.items():
                v = l.closed(i) if l.closed is not None else hv[k]
                install(l, v)
            mk = TR.mark()
            thunk.mark = mk
            body(i)

        base = len(I.pc) + len(rng)
        fb = len(I.facts)
        new_locs = {}

        def end(kind, v):
            if kind == "raise":
                paths.append(("raise", v, list(I.pc[base:]), None))
                return
            vals = {}
            for k, (cont, key, ex, old) in TR.writes(thunk.mark).items():
                if cont.serial <= ser:
                    if k not in locs and k not in new_locs:
                        new_locs[k] = (cont, key)
                    st = cont.store()
                    vals[k] = keep_items(st.get(key), ser)
            paths.append(("ret", v, list(I.pc[base:]), vals))
        I.quiet += 1
        I.bound.append(i)
        from .pyint import BreakEx, ReturnEx
        try:
            with I.assuming(*rng):
                try:
                    I.lenient += lenient
                    I.explore(thunk, end)
                except (BreakEx, ReturnEx):
                    raise Unsupported("break/return inside a symbolic loop")
                except Unsupported:
                    # array shapes that depend on unsolved scalars: find the scalars first, then run again
                    if lenient or not any(l.mode == "scalar" and l.closed is None for l in locs.values()):
                        raise
                    paths = None
                finally:
                    I.lenient -= lenient
        finally:
            I.quiet -= 1
            I.bound.pop()
        if paths is None:
            lenient = True
            continue
        if new_locs:
            for k, (cont, key) in new_locs.items():
                st = cont.store()
                l = Loc(cont, key, key in st, st.get(key))
                l.mode = classify(l)
                locs[k] = l
            continue
        # write-set stable: solve
        rets = [p for p in paths if p[0] == "ret"]
        raises = [p for p in paths if p[0] == "raise"]
        unsolved = [l for l in locs.values() if l.closed is None and l.mode not in ("temp", "poison")]
        progress = False
        if check and not lenient:
            # closed forms found under the assumption that shapes agree: inductive on the exact body?
            for k in check:
                l = locs[k]
                for _, _, pc, vals in rets:
                    nv = vals.get(k, l.closed(i))
                    with I.assuming(*rng, *pc):
                        if not I.valid(cmp("==", nv, l.closed(i + 1))):
                            raise Unsupported(f"loop {label}: closed form of {l.key} not confirmed")
            check = set()
        for k, l in locs.items():
            if l.closed is not None or l.mode in ("temp", "poison") or (lenient and l.mode != "scalar"):
                continue
            others = [o for o in locs.values() if o is not l and o.closed is None and o.h is not None]
            try:
                r = solve(I, l, k, rets, i, n, others)
            except Retry:
                progress = True
                continue
            if r is not None:
                l.closed = r
                progress = True
                if lenient:
                    check.add(k)
        if lenient:
            if not progress:
                raise Unsupported(f"loop {label}: shapes depend on unsolved state")
            lenient = False
            continue
        left = [l for l in locs.values() if l.closed is None and l.mode not in ("temp", "poison")]
        if not left:
            result = (rets, raises)
            # one more round so raising conditions / path conditions use closed forms
            if not unsolved:
                break
            if not raises:
                break
            continue
        if not progress:
            if DEBUG:
                for l in left:
                    print("UNSOLVED", label, l.key, l.mode, l.cont, [p[3].get(k2) for k2, l2 in locs.items() if l2 is l for p in rets])
                    for _, _, pcs, _ in rets:
                        print("   path", [str(x)[:300] for x in pcs])
            for l in left:
                l.mode = "poison"
                l.closed = None
            if raises:
                raise Unsupported(f"loop {label}: raising path with unsolved state")
            result = (rets, raises)
            break
    else:
        raise Unsupported(f"loop {label}: no closed form")
    rets, raises = result
    if raises:
        conds = [land(*p[2]) for p in raises]
        cond = T.to_bool(lor(*conds))
        v = T.fresh("rz", T.I)
        some = z3.Exists([v], z3.And(v >= 0, v < n, z3.substitute(cond, (i, v))))
        if I.branch(some):
            raise raises[0][1]
    # obligations inside the body, at an arbitrary iteration
    if not I.quiet and rets:
        def thunk2():
            for l in locs.values():
                install(l, l.closed(i) if l.closed is not None else
                        (Poison(f"loop-carried {l.key}") if l.mode != "poison" else havoc_poison(l)))
            try:
                body(i)
            except PyRaise:
                pass
        I.bound.append(i)
        try:
            with I.assuming(*rng):
                I.explore(thunk2, lambda k, v: None)
        finally:
            I.bound.pop()
    # final state
    for k, l in locs.items():
        if l.closed is not None:
            install(l, l.closed(n))
        elif l.mode == "poison":
            install(l, havoc_poison(l))
        else:
            install(l, temp_value(I, l, k, rets, i, n, locs))


def havoc_poison(l):
    if isinstance(l.cont, Buf):
        def bad(ix):
            raise Unsupported("array written by an unsolved loop")
        return bad
    return Poison(f"unsolved loop-carried {l.key}")


def install(l, v):
    if isinstance(l.cont, SList):
        TR.set(l.cont, "v", v)
    else:
        TR.set(l.cont, l.key, v)


class Retry(Exception):
    pass


def temp_value(I, l, k, rets, i, n, locs):
    vals = [(p[2], p[3].get(k)) for p in rets]
    if any(k not in p[3] for p in rets) or not vals:
        return Poison(f"value of {l.key} after a loop")
    if all(v[1] is vals[0][1] for v in vals) and not isinstance(vals[0][1], (Nd, SList, Obj)) and not is_z3(vals[0][1]):
        return vals[0][1] if I.valid(n > 0) else Poison(f"{l.key} after possibly empty loop")
    if all(is_scalar(v[1]) for v in vals) and I.valid(n > 0):
        t = vals[-1][1]
        for pcs, v in reversed(vals[:-1]):
            t = ite(land(*pcs), v, t)
        for o in locs.values():
            if o.h is not None and o.closed is None and mentions(t, o):
                return Poison(f"value of {l.key} after a loop")
        # terms may mention havocs of solved locations only through their closed forms
        for o in locs.values():
            if o.closed is not None and o.h is not None and mentions(t, o):
                return Poison(f"value of {l.key} after a loop")
        return T.subst(t, [(i, n - 1)]) if is_z3(t) else t
    return Poison(f"value of {l.key} after a loop")


def solve(I, l, k, rets, i, n, others):
    rng = [i >= 0, i < n]
    if l.mode == "list":
        return solve_list(I, l, k, rets, i, n, others)
    if l.mode == "scalar":
        h = l.h
        per = []
        for _, _, pcs, vals in rets:
            v = vals.get(k, h)
            if not is_scalar(v):
                if v is None or isinstance(v, (Poison,)):
                    return None
                return None
            if scal_sort(v) != h.sort() and scal_sort(v) == T.R and h.sort() == T.I:
                l.sort = T.R
                raise Retry()
            per.append((pcs, v))
        return solve_elem(I, l, per, h, l.init, (), i, n, others, scalar=True)
    if l.mode in ("buf", "nd"):
        nd = l.cont.ndim if l.mode == "buf" else l.init.ndim
        ix = tuple(T.fresh("ix", T.I) for _ in range(nd))
        hx = l.h(*ix) if nd else l.h
        per = []
        kind = None
        shape = None if l.mode == "buf" else l.init.shape
        inr = [] if shape is None else [c for x, s in zip(ix, shape) for c in (x >= 0, cmp("<", x, s))]
        for _, _, pcs, vals in rets:
            v = vals.get(k)
            if v is None:
                per.append((pcs, hx))
                continue
            with I.assuming(*rng, *pcs, *inr):
                I.bound.append(i)
                try:
                    if l.mode == "buf":
                        t = v(ix)
                    else:
                        if not isinstance(v, Nd) or v.ndim != nd or \
                           not all(N.same_dim(a, b) for a, b in zip(v.shape, shape)):
                            return None
                        t = v.at(*ix)
                finally:
                    I.bound.pop()
            if scal_sort(t) == T.R and hx.sort() == T.I:
                if l.mode == "buf":
                    raise Unsupported("real stored in int buffer")
                l.kind = "real"
                raise Retry()
            per.append((pcs, t))
        f0 = l.init if l.mode == "buf" else N.snap(l.init)

        def init_at(jx):
            return f0(tuple(jx)) if l.mode == "buf" else f0(*jx)
        c = solve_elem(I, l, per, hx, init_at, ix, i, n, others, scalar=False)
        if c is None:
            return None
        if l.mode == "buf":
            return lambda kk: (lambda r, kk=kk: c(kk, r))
        kd = getattr(l, "kind", None) or l.init.kind
        return lambda kk: N.mk_nd(shape, lambda *r: c(kk, r), kd)
    return None


def scal_sort(v):
    if is_z3(v):
        return v.sort()
    if isinstance(v, bool):
        return T.B
    if isinstance(v, int):
        return T.I
    return T.R


def coerce(t, s):
    if s == T.R:
        return T.to_real(t)
    if s == T.I:
        return T.to_int(t)
    return T.to_bool(t)


def increment(leaf, hc):
    """leaf - hc when that does not depend on hc, else None"""
    ab = linear(leaf, hc)
    if ab is not None:
        a, b = ab
        a = z3.simplify(a)
        if (z3.is_int_value(a) and a.as_long() == 1) or (z3.is_rational_value(a) and a.as_fraction() == 1):
            return z3.simplify(b)
    d = z3.simplify(leaf - hc)
    if T.contains(d, hc):
        d = z3.simplify(leaf - hc, som=True)
    return None if T.contains(d, hc) else d


def linear(t, x):
    """(a, b) with t = a*x + b, a and b free of x; None if not syntactically linear"""
    zero = z3.RealVal(0) if t.sort() == T.R else z3.IntVal(0)
    one = z3.RealVal(1) if t.sort() == T.R else z3.IntVal(1)
    if t.eq(x):
        return one, zero
    if not T.contains(t, x):
        return zero, t
    k = t.decl().kind()
    ch = t.children()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ps = [linear(c, x) for c in ch]
        if any(p is None for p in ps):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -ps[0][0], -ps[0][1]
        a, b = ps[0]
        for p, q in ps[1:]:
            a, b = (a + p, b + q) if k == z3.Z3_OP_ADD else (a - p, b - q)
        return a, b
    if k == z3.Z3_OP_MUL:
        inn = [c for c in ch if T.contains(c, x)]
        if len(inn) != 1:
            return None
        p = linear(inn[0], x)
        if p is None:
            return None
        f = one
        for c in ch:
            if not c.eq(inn[0]):
                f = f * c
        return z3.simplify(f * p[0]), f * p[1]
    return None


def solve_elem(I, l, per, h, init, ix, i, n, others, scalar):
    """per: [(path conds, value term)], h: the havocked value at ix"""
    hc = T.fresh("hc", h.sort())

    def abstract(t):
        t = coerce(t, h.sort())
        return z3.substitute(t, (h, hc))
    def same_cell(t, conds):
        """reads of the havocked array at a position that equals ix under conds"""
        if not is_z3(t) or not isinstance(l.h, z3.FuncDeclRef):
            return t
        sub = []
        for a in T.fun_apps(t, l.h.name()):
            g = z3.And(*[x == y for x, y in zip(a.children(), ix)])
            if I.prover.valid(g, I.hyps() + [i >= 0, i < n] + list(conds)):
                sub.append((a, hc))
        return z3.substitute(t, *sub) if sub else t
    cases = []
    for pcs, t in per:
        t = abstract(t)
        pc = [z3.substitute(T.to_bool(p), (h, hc)) for p in pcs]
        for cs, leaf in leaves(t):
            cs = [z3.substitute(c, (h, hc)) for c in cs]
            cases.append((pc + cs, same_cell(leaf, pc + cs)))

    def bad(t):
        if not is_z3(t):
            return False
        if any(mentions(t, o) for o in others):
            return True
        if isinstance(l.h, z3.FuncDeclRef) and T.fun_apps(t, l.h.name()):
            return True
        return False

    if DEBUG and DEBUG > "1":
        for conds, leaf in cases:
            print("CASE", l.key, [str(c)[:400] for c in conds], "=>", str(leaf)[:400])
    kinds = []
    for conds, leaf in cases:
        if leaf.eq(hc):
            kinds.append(("same", None))
            continue
        if bad(leaf):
            return None
        if not T.contains(leaf, hc):
            kinds.append(("write", leaf))
            continue
        if h.sort() != T.B:
            d = increment(leaf, hc)
            if d is not None:
                kinds.append(("add", d))
                continue
        else:
            if z3.is_or(leaf) and any(c.eq(hc) for c in leaf.children()):
                kinds.append(("or", z3.Or(*[c for c in leaf.children() if not c.eq(hc)])))
                continue
        return None
    tags = {k for k, _ in kinds}
    if tags <= {"same"}:
        return (lambda kk: init) if scalar else (lambda kk, r: init(r))
    if any(bad(c) or T.contains(c, hc) for conds, _ in cases for c in conds):
        if len({(k, d.get_id() if d is not None else 0) for k, d in kinds}) == 1:
            cases = [([], cases[0][1])]
            kinds = kinds[:1]
        else:
            return None

    def at(t, j, r):
        sub = [(i, T.to_int(j))] + [(a, T.to_int(b)) for a, b in zip(ix, r)]
        return T.subst(t, sub)

    if tags <= {"same", "add"}:
        d = z3.RealVal(0) if h.sort() == T.R else z3.IntVal(0)
        for (conds, _), (k, dd) in reversed(list(zip(cases, kinds))):
            val = dd if k == "add" else (z3.RealVal(0) if h.sort() == T.R else z3.IntVal(0))
            d = ite(land(*conds), val, d)
        d = coerce(d, h.sort())
        if d is None:
            return None

        # at most one iteration touches a given element: no sum needed
        if not scalar:
            nz = [land(*c) for (c, _), (k, dd) in zip(cases, kinds)
                  if k == "add" and not (z3.is_rational_value(dd) and dd.as_fraction() == 0)]
            w = T.to_bool(lor(*nz)) if nz else z3.BoolVal(False)
            if T.contains(w, i) and any(T.contains(w, x) for x in ix):
                gf = inverse(I, w, i, ix, n, at)
                if gf is not None:
                    def closed1(kk, r, gf=gf):
                        j = T.to_int(gf(r))
                        c = land(j >= 0, j < T.to_int(kk), at(w, j, r))
                        c = T.simp(c) if is_z3(c) else c
                        dcd = I.decide(c)
                        if dcd is False:
                            return init(r)
                        v = at(d, j, r)
                        if dcd:
                            return arith("+", init(r), z3.simplify(v))
                        return arith("+", init(r), ite(c, v, 0))
                    return closed1

        def closed(kk, r=()):
            j = T.fresh("v", T.I)
            b = at(d, j, r)
            s = T.sum_from_body(0, T.to_int(kk), j, z3.simplify(b))
            if not T.contains(b, j):
                # constant increment: k * b  (k >= 0 inside the loop)
                s = arith("*", kk, b)
            x0 = init if scalar else init(r)
            return arith("+", x0, s)
        return closed
    if tags <= {"same", "write"}:
        w = lor(*[land(*c) for (c, _), (k, _) in zip(cases, kinds) if k == "write"])
        val = None
        for (conds, _), (k, dd) in zip(cases, kinds):
            if k == "write":
                val = dd if val is None else ite(land(*conds), dd, val)
        w = conc_of(T.simp(w)) if is_z3(w) else w
        if not is_z3(w) or not T.contains(w, i):
            # overwritten by every iteration (or never): last value
            def closed(kk, r=()):
                x0 = init if scalar else init(r)
                ww = at(w, 0, r) if is_z3(w) else w
                kk_ = T.to_int(kk)
                v = at(val, kk_ - 1, r) if is_z3(val) else val
                return ite(land(cmp(">", kk_, 0), ww), v, x0)
            return closed
        if scalar:
            # boolean flag raised when a condition holds in some iteration
            if h.sort() == T.B and is_z3(val) and (z3.is_true(val) or z3.is_false(val)):
                def closed(kk, r=()):
                    v = T.fresh("q", T.I)
                    ex = z3.Exists([v], z3.And(v >= 0, v < T.to_int(kk), T.to_bool(at(w, v, r))))
                    return ite(ex, bool(z3.is_true(val)), init)
                return closed
            return None
        gf = inverse(I, w, i, ix, n, at)
        if gf is None:
            return None

        def closed(kk, r, gf=gf):
            j = T.to_int(gf(r))
            c = land(j >= 0, j < T.to_int(kk), at(w, j, r))
            c = T.simp(c) if is_z3(c) else c
            dcd = I.decide(c)
            if dcd is not None:
                c = dcd
            v = at(val, j, r) if is_z3(val) else val
            if not is_z3(conc_of(c)):
                return v if conc_of(c) else init(r)
            return ite(c, v, init(r))
        return closed
    if tags <= {"same", "or"}:
        d = lor(*[land(*c, dd) for (c, _), (k, dd) in zip(cases, kinds) if k == "or"])

        def closed(kk, r=()):
            v = T.fresh("q", T.I)
            x0 = init if scalar else init(r)
            return lor(x0, z3.Exists([v], z3.And(v >= 0, v < T.to_int(kk), T.to_bool(at(d, v, r)))))
        return closed
    return None


def inverse(I, w, i, ix, n, at):
    """g with  w(i, ix) => i = g(ix),  or None"""
    rng = [i >= 0, i < n]
    cands = solve_candidates(T.to_bool(w), i, ix)
    for hint in getattr(I, "inverse_hints", ()):     # ghost inverse functions of the contract
        cands += hint(ix)
    for g in cands:
        if isinstance(g, tuple):
            _, x, m = g
            # i*m <= x < (i+1)*m  =>  i = x div m
            lo_hi = z3.And(T.to_int(arith("*", i, m)) <= x, x < T.to_int(arith("*", i + 1, m)))
            if not I.prover.valid(lo_hi, I.hyps() + rng + [T.to_bool(w)]):
                continue
            return lambda r, x=x, m=m: N.divmod_sym(at(x, 0, r), at(m, 0, r) if is_z3(m) else m)[0]
        if is_z3(g) and T.contains(g, i):
            continue
        if not I.prover.valid(i == T.to_int(g), I.hyps() + rng + [T.to_bool(w)]):
            continue
        return lambda r, g=g: at(g, 0, r) if is_z3(g) else g
    return None


def subst_value(I, v, i, j, memo=None):
    memo = {} if memo is None else memo
    if is_z3(v):
        return conc_of(T.subst(v, [(i, T.to_int(j))]))
    if is_scalar(v) or v is None or isinstance(v, (str,)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Name):
        r = Name(subst_value(I, v.code, i, j) if is_z3(v.code) else v.code)
    elif isinstance(v, tuple):
        r = tuple(subst_value(I, x, i, j, memo) for x in v)
    elif isinstance(v, Nd):
        f = N.snap(v)
        shp = tuple(subst_value(I, s, i, j) if is_z3(s) else s for s in v.shape)
        r = N.mk_nd(shp, lambda *ix: subst_value(I, f(*ix), i, j), v.kind)
    elif isinstance(v, SList):
        x = v.v
        if isinstance(x, list):
            r = SList([subst_value(I, y, i, j, memo) for y in x])
        else:
            r = SList(Seq(subst_value(I, x.n, i, j) if is_z3(x.n) else x.n,
                          lambda q: subst_value(I, x.at(q), i, j)))
    elif isinstance(v, Rec):
        fields = {}
        for nm in v.fields:
            f = N.snap(v.field(nm))
            buf, tail = v.fields[nm]
            fields[nm] = (Buf(v.ndim + len(tail), lambda ix, f=f: subst_value(I, f(*ix), i, j), buf.kind), tail)
        r = Rec(tuple(subst_value(I, s, i, j) if is_z3(s) else s for s in v.shape), fields, None, name=v.name)
    elif isinstance(v, Obj):
        r = Obj(v.cls, v.name)
        r.virtual = True
        memo[id(v)] = (r, v)
        r.a = {k: subst_value(I, x, i, j, memo) for k, x in v.a.items()}
        return r
    else:
        r = v
    memo[id(v)] = (r, v)
    return r


def solve_list(I, l, k, rets, i, n, others):
    from .pyint import HavocList
    items, conds = [], []
    for _, _, pcs, vals in rets:
        v = vals.get(k)
        t = () if v is None else v.tail if isinstance(v, HavocList) else None
        if t is None:
            return None
        items.append(t)
        conds.append(pcs)
    from .pyint import Segment
    if any(isinstance(x, Segment) for t in items for x in t):
        return solve_segments(I, l, items, i, n, others)
    ms = {len(t) for t in items}

    if any(stale(x, others) for t in items for x in t):
        return None
    # values must not alias locations the loop still mutates: take element snapshots now
    items = [tuple(freeze(x) for x in t) for t in items]
    v0 = l.init
    if ms == {1}:
        val = items[-1][0]
        for t, pcs in reversed(list(zip(items[:-1], conds[:-1]))):
            val = I.merge(land(*pcs), t[0], val)

        def closed(kk):
            cache = {}

            def at(j):
                key = j.get_id() if is_z3(j) else j
                if key not in cache:
                    cache[key] = (subst_value(I, val, i, j), j)
                return cache[key][0]
            return I.seq_concat(v0, Seq(kk, at))
        return closed
    if ms == {0}:
        return lambda kk: v0
    if ms == {0, 1}:
        ones = [(t, pcs) for t, pcs in zip(items, conds) if len(t) == 1]
        w = lor(*[land(*pcs) for _, pcs in ones])
        if is_z3(w) and any(mentions(w, o) for o in others):
            return None
        val = ones[-1][0][0]
        for t, pcs in reversed(ones[:-1]):
            val = I.merge(land(*pcs), t[0], val)

        def closed(kk):
            if not (is_z3(kk) and kk.eq(n)):
                return HavocList()
            fl = N.filt(kk, lambda j: T.subst(T.to_bool(w), [(i, T.to_int(j))]))
            return I.seq_concat(v0, Seq(fl.cnt, lambda q: subst_value(I, val, i, fl.sel(T.to_int(q)))))
        return closed
    if len(ms) == 1:
        m = ms.pop()
        cols = list(items[-1])
        for t, pcs in reversed(list(zip(items[:-1], conds[:-1]))):
            cols = [I.merge(land(*pcs), a, b) for a, b in zip(t, cols)]
        if all(is_z3(x) or isinstance(x, (int, float)) for x in cols):
            def closed(kk):
                def at(p):
                    q, r = N.divmod_sym(p, m)
                    vals = [subst_value(I, x, i, q) for x in cols]
                    if not is_z3(r):
                        return vals[int(r)]
                    out = vals[-1]
                    for c in range(m - 2, -1, -1):
                        out = I.merge(T.cmp("==", r, c), vals[c], out)
                    return out
                return I.seq_concat(v0, Seq(T.arith("*", kk, m), at))
            return closed
    return None


def keep_items(v, ser):
    """appended objects created by the iteration are undone with it: keep copies"""
    from .pyint import HavocList
    if not isinstance(v, HavocList):
        return v
    memo = {}

    def cp(x):
        if isinstance(x, Obj) and x.serial > ser:
            if id(x) not in memo:
                o = memo[id(x)] = Obj(x.cls, x.name)
                memo[id(o)] = o
                o.a = {k: cp(y) for k, y in x.a.items()}
            return memo[id(x)]
        if isinstance(x, tuple):
            return tuple(cp(y) for y in x)
        if isinstance(x, Nd):
            return freeze(x)
        return x
    return HavocList([cp(x) for x in v.tail])


def stale(v, others, seen=None):
    """does the value mention what the loop still changes?"""
    seen = set() if seen is None else seen
    if is_z3(v):
        return any(mentions(v, o) for o in others)
    if id(v) in seen:
        return False
    if isinstance(v, tuple):
        return any(stale(x, others, seen) for x in v)
    if isinstance(v, Nd):
        return any(stale(x, others, seen) for x in v.shape) or stale(v.at(*[T.fresh("pr", T.I) for _ in v.shape]), others, seen)
    if isinstance(v, Obj):
        seen.add(id(v))
        return any(stale(x, others, seen) for x in v.a.values())
    if isinstance(v, SList) and isinstance(v.v, list):
        seen.add(id(v))
        return any(stale(x, others, seen) for x in v.v)
    return False


def solve_segments(I, l, items, i, n, others):
    """every iteration appends one run of m items, m not depending on the iteration"""
    from .pyint import HavocList
    if len(items) != 1 or len(items[0]) != 1:
        return None
    seq = items[0][0].seq
    m = seq.n
    if is_z3(m) and (T.contains(m, i) or any(mentions(m, o) for o in others)):
        return None
    v0 = l.init
    if stale(seq.at(T.fresh("pr", T.I)), others):
        return None

    def closed(kk):
        def at(p):
            q, r = N.divmod_sym(p, m)
            return subst_value(I, seq.at(r), i, q)
        return I.seq_concat(v0, Seq(T.arith("*", kk, m), at))
    return closed


def freeze(v):
    if isinstance(v, Nd):
        f = N.snap(v)
        return N.mk_nd(v.shape, f, v.kind)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v
