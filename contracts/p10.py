"""P10: patches contain what they must; groups stay whole, limits are respected."""
from ve.spec import *

M = "forcepho.superscene"
TRUSTED = ["cKDTree.query_ball_point returns, without repetition, the indices of the points within the radius",
           "np.argsort returns a permutation along which the values do not decrease",
           "counting lemma: in sorted order exactly the first #{x < t} values are < t",
           "lists of integers known by their members: members of l + m are those of l and of m, a filter keeps those satisfying it, "
           "a slice has some of them; distinctness of a concatenation follows from disjointness"]


class Field:
    """sources with arbitrary positions (scene coordinates), sizes and states; the kd-tree as specified"""
    def __init__(w, v):
        w.v = v
        w.n = v.int("nsrc", lo=1)
        w.xy = v.arr("xy", (w.n, 2))
        w.act = v.arr("is_active", (w.n,), "int")
        w.rh = v.arr("rhalf", (w.n,))
        w.cat = S.Rec((w.n,), {k: (a.buf, ()) for k, a in (("is_active", w.act), ("rhalf", w.rh))}, None, name="sourcecat")

    def ball(w, c, r, name="near"):
        """m distinct indices, exactly those within r of c"""
        v = w.v
        m = T.fresh("m_" + name, T.I)
        f = T.fresh_fun(name, T.I, T.I)
        pos = T.fresh_fun("pos_" + name, T.I, T.I)
        k, x = z3.Int("bk"), z3.Int("bx")
        inside = lambda q: w.dist(q, c) <= r
        v.I.fact(m >= 0)
        v.I.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(f(k) >= 0, f(k) < w.n, pos(f(k)) == k, inside(f(k)))), patterns=[f(k)]))
        v.I.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < w.n, inside(x)), z3.And(pos(x) >= 0, pos(x) < m, f(pos(x)) == x)), patterns=[pos(x)]))

        def at(i):
            i = T.to_int(i)
            v.I.fact(z3.Implies(z3.And(i >= 0, i < m), z3.And(f(i) >= 0, f(i) < w.n)))
            return f(i)
        return m, f, pos, N.mk_nd((m,), at, "int")

    def dist(w, q, c):
        dx, dy = w.xy.at(q, 0) - c[0], w.xy.at(q, 1) - c[1]
        return T.sqrt(dx * dx + dy * dy)


@contract(M + ":SuperScene.get_circular_scene")
def circular(v):
    """the patch around a centre: refused exactly if a neighbour is active or nothing fits; else the nearest sources by outer
    extent, within the limits; the radius encloses them; the fixed sources are the next ones reaching into it"""
    w = Field(v)
    c = (v.real("cx"), v.real("cy"))
    ns, mxr, mnr, br = v.real("nscale"), v.real("maxradius"), v.real("minradius"), v.real("boundary")
    mxa = v.int("maxactive", lo=1)
    box = {}

    def th():
        def ball(ctr, r):
            ctr = N.as_nd(ctr)
            v.eq("neighbours-of-the-centre", z3.And(ctr.at(0) == c[0], ctr.at(1) == c[1], r == br), z3.BoolVal(True))
            box["m"], box["f"], box["pos"], a = w.ball(c, br)
            v.I.assume(box["m"] >= 1)          # the seed itself
            return a
        o = v.obj(M + ":SuperScene", sourcecat=w.cat, _scene_coordinates=w.xy, kdt=S.Obj(None, "kdt", query_ball_point=ball), boundary_radius=br,
                  nscale=ns, maxradius=mxr, minradius=mnr, maxactive=mxa)
        return v.call(v.method(o, "get_circular_scene"), N.as_nd(S.SList(list(c))))

    def post(r):
        rad, A, F = r
        m, f, pos = box["m"], box["f"], box["pos"]
        outer = lambda q: w.dist(q, c) + ns * w.rh.at(q)
        inner = lambda q: w.dist(q, c) - ns * w.rh.at(q)
        p = v.idx("p", m)
        so = v.sorts()
        cnt = N.np_sum(N.mk_nd((m,), lambda i: outer(f(T.to_int(i))) < mxr, "bool"))
        for s in so:          # the counting lemma, for this sort
            i = z3.Int("ci")
            v.assume(z3.Implies(s.n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), (outer(f(s.order(i))) < mxr) == (i < cnt)), patterns=[s.order(i)])), cnt >= 0, cnt <= m)
        if rad is None:
            v.ob("refused-only-with-cause", z3.Or(z3.Exists([z3.Int("e")], z3.And(z3.Int("e") >= 0, z3.Int("e") < m, w.act.at(f(z3.Int("e"))) != 0)), cnt <= 0))
            v.ob("nothing-returned", A is None and F is None)
            return
        if len(so) != 1:
            raise Unsupported("expected one sort")
        s = so[0]
        na, nf = A.shape[0], F.shape[0]
        v.ob("no-neighbour-is-active", w.act.at(f(p)) == 0)
        v.eq("as-many-as-fit", na, z3.If(mxa <= cnt, mxa, cnt))
        v.ob("at-most-maxactive", na <= mxa)
        i, j = v.idx("i", na), v.idx("j", na)
        a = A.at(i)
        v.ob("neighbours", z3.And(a >= 0, a < w.n))
        v.ob("within-the-boundary", w.dist(a, c) <= br)
        v.ob("distinct", z3.Implies(i != j, A.at(i) != A.at(j)))
        v.ob("within-the-maximum-radius", outer(a) < mxr)
        # a neighbour that is not active is at least as far out as every active one
        q = f(p)
        isact = s.place(p) < na
        v.ob("active-set-characterised", z3.Implies(isact, A.at(s.place(p)) == q))
        v.ob("nearest-by-outer-extent", z3.Implies(z3.Not(isact), outer(a) <= outer(q)))
        v.ob("radius-encloses-the-active-sources", rad >= outer(a))
        v.ob("radius-at-least-the-minimum", rad >= mnr)
        last = A.at(na - 1)
        v.ob("radius-no-larger-than-needed", z3.Or(rad == mnr, rad == outer(last)))
        v.ob("at-most-maxactive-fixed", nf <= z3.If(mxa >= 1, mxa, 1))
        k, k2 = v.idx("k", nf), v.idx("k2", nf)
        x = F.at(k)
        v.ob("fixed-are-neighbours", z3.And(x >= 0, x < w.n, w.dist(x, c) <= br))
        v.ob("fixed-are-not-active", x != a)
        v.ob("fixed-distinct-and-nearest-first", z3.Implies(k < k2, z3.And(F.at(k) != F.at(k2), outer(F.at(k)) <= outer(F.at(k2)))))
        v.ob("fixed-reach-into-the-patch", z3.Or(inner(x) < rad, nf == 1))
        # completeness: a reaching neighbour that is not active is fixed unless the limit is reached
        rk = v.rank_of(nf) or next((fl.rank for fl, _ in v.I.filters.values()), None)
        if rk is not None:
            fl = next(fl for fl, _ in v.I.filters.values() if fl.rank is rk)
            pp = s.place(p) - na
            v.ob("reaching-neighbours-are-fixed", z3.Implies(z3.And(z3.Not(isact), inner(q) < rad, rk(pp) < nf), F.at(rk(pp)) == q))
            v.ob("unless-the-limit-is-reached", z3.Implies(z3.And(z3.Not(isact), inner(q) < rad, rk(pp) >= nf), nf >= mxa))
    v.run(th, post)


@contract(M + ":LinkedSuperScene.find_overlaps")
def overlaps(v):
    """exactly the sources other than the seed whose circle of influence meets the circle"""
    w = Field(v)
    roi = v.arr("roi", (w.n,))
    c, rad, br, seed = (v.real("cx"), v.real("cy")), v.real("radius"), v.real("boundary"), v.int("seed")
    v.assume(rad > 0, v.forall((w.n,), lambda q: z3.And(roi.at(q) > 0, roi.at(q) <= br)))
    box = {}

    def th():
        def ball(ctr, r):
            v.eq("search-reaches-every-overlap", r, rad + br)
            box["m"], box["f"], box["pos"], a = w.ball(c, rad + br)
            return a
        o = v.obj(M + ":LinkedSuperScene", sourcecat=w.cat, _scene_coordinates=w.xy, kdt=S.Obj(None, "kdt", query_ball_point=ball), boundary_radius=br, roi=roi)
        return v.call(v.method(o, "find_overlaps"), N.as_nd(S.SList(list(c))), rad, seed_index=seed)

    def post(r):
        k, q = v.idx("k", r.shape[0]), v.idx("q", w.n)
        x = r.at(k)
        f, pos = box["f"], box["pos"]
        # lemma on the metric: d/(R + r) < 1 iff d < R + r, d/(R + r) >= 0 (R + r > 0, d >= 0)
        for t in (x, q):
            d, s = w.dist(t, c), rad + roi.at(t)
            dd, ss = T.fresh("d", T.R), T.fresh("s", T.R)
            g = z3.Implies(z3.And(dd >= 0, ss > 0), z3.And((dd / ss < 1) == (dd < ss), dd / ss >= 0))
            v.lemma(g)
            v.assume(d >= 0)
            v.assume(z3.substitute(g, (dd, d), (ss, s)))
        v.ob("overlapping", z3.And(x >= 0, x < w.n, x != seed, w.dist(x, c) < rad + roi.at(x)))
        rk = v.rank_of(r.shape[0])
        if rk is None:
            raise Unsupported("selection")
        p = rk(pos(q))
        v.ob("every-overlapping-source", z3.Implies(z3.And(q != seed, w.dist(q, c) < rad + roi.at(q)), z3.And(p >= 0, p < r.shape[0], r.at(p) == q)))
    v.run(th, post)


@contract(M + ":LinkedSuperScene.find_overlaps")
def overlaps_sorted(v):
    """when sorted: the same sources, each once, nearest first (distance over the sum of the radii)"""
    w = Field(v)
    roi = v.arr("roi", (w.n,))
    c, rad, br, seed = (v.real("cx"), v.real("cy")), v.real("radius"), v.real("boundary"), v.int("seed")
    v.assume(rad > 0, v.forall((w.n,), lambda q: z3.And(roi.at(q) > 0, roi.at(q) <= br)))
    box = {}

    def th():
        def ball(ctr, r):
            box["m"], box["f"], box["pos"], a = w.ball(c, T.to_real(r))
            box["r"] = T.to_real(r)
            return a
        o = v.obj(M + ":LinkedSuperScene", sourcecat=w.cat, _scene_coordinates=w.xy, kdt=S.Obj(None, "kdt", query_ball_point=ball), boundary_radius=br, roi=roi)
        return v.call(v.method(o, "find_overlaps"), N.as_nd(S.SList(list(c))), rad, seed_index=seed, sort=True)

    def post(r):
        nr = r.shape[0]
        k, k2, q = v.idx("k", nr), v.idx("k2", nr), v.idx("q", w.n)
        so, pos = v.sorts(), box["pos"]
        rk = v.rank_of(nr)
        if len(so) != 1 or rk is None:
            raise Unsupported("selection and one sort expected")
        fl = next(f for f, _ in v.I.filters.values() if f.rank is rk)
        x, y = r.at(k), r.at(k2)
        for t in (k, k2):           # the selection and the sort, by definition, at these places
            o = so[0].order(t)
            v.I.fact(z3.And(0 <= o, o < fl.cnt, so[0].place(o) == t, 0 <= fl.sel(o), fl.sel(o) < box["m"], T.to_bool(fl.p(fl.sel(o))), fl.rank(fl.sel(o)) == o,
                            box["pos"](box["f"](fl.sel(o))) == fl.sel(o)))
        s_ = so[0]
        v.I.fact(z3.Implies(k < k2, s_.x(s_.order(k)) <= s_.x(s_.order(k2))))
        j, pq = fl.rank(pos(q)), pos(q)
        v.I.fact(z3.Implies(w.dist(q, c) <= box["r"], z3.And(pq >= 0, pq < box["m"], box["f"](pq) == q)),
                 z3.Implies(z3.And(0 <= pq, pq < box["m"], T.to_bool(fl.p(pq))), z3.And(0 <= j, j < fl.cnt, fl.sel(j) == pq)),
                 z3.Implies(z3.And(0 <= j, j < fl.cnt), z3.And(0 <= s_.place(j), s_.place(j) < fl.cnt, s_.order(s_.place(j)) == j)))
        metric = lambda t: w.dist(t, c) / (rad + roi.at(t))
        for t in (x, y, q):
            v.I.fact(z3.Implies(z3.And(t >= 0, t < w.n), z3.And(roi.at(t) > 0, roi.at(t) <= br)))
            d, s = w.dist(t, c), rad + roi.at(t)
            dd, ss = T.fresh("d", T.R), T.fresh("s", T.R)
            g = z3.Implies(z3.And(dd >= 0, ss > 0), z3.And((dd / ss < 1) == (dd < ss), dd / ss >= 0))
            v.lemma(g)
            v.assume(d >= 0)
            v.assume(z3.substitute(g, (dd, d), (ss, s)))
        need(v, "search-reaches-every-overlap", box["r"] >= rad + br)
        need(v, "sources", z3.And(x >= 0, x < w.n))
        need(v, "not-the-seed", x != seed)
        need(v, "overlapping", w.dist(x, c) < rad + roi.at(x))
        need(v, "nearest-first", z3.Implies(k < k2, metric(x) <= metric(y)))
        need(v, "each-once", z3.Implies(k != k2, x != y))
        p = so[0].place(rk(pos(q)))
        need(v, "every-overlapping-source", z3.Implies(z3.And(q != seed, w.dist(q, c) < rad + roi.at(q)), z3.And(p >= 0, p < nr, r.at(p) == q)))
    v.run(th, post)


ADJ, COMP = z3.Function("overlap", T.I, T.I, T.B), z3.Function("linked_to_the_seed", T.I, T.B)


def need(v, name, g):
    """an obligation of a loop cut: not established means the invariant does not fit, not that the property fails"""
    g = T.to_bool(g)
    if v.I.decide(g) is not True:
        raise Unsupported("loop invariant not established: " + name)
    v.ob(name, g)


@contract(M + ":LinkedSuperScene.grow_source")
def grow_any(v):
    """any number of sources and any overlap relation: the members are distinct, include the seed, are closed under overlap, and lie in
    every set that contains the seed and is closed under overlap (COMP is an arbitrary such set).
    Invariant of the outer loop: members and seeds are distinct and disjoint, in COMP, include the seed, and every neighbour of a
    member is a member or a seed.  Invariant of the inner loop: the leaves are the neighbours of the seeds visited so far."""
    I = v.I
    n, s0 = v.int("n_sources", lo=1), v.int("seed", lo=0)
    roi, xy = v.arr("roi", (n,)), v.arr("xy", (n, 2))
    v.assume(s0 < n, COMP(s0))
    st = {}

    def find(center, radius, seed_index=-1, sort=False):
        k = T.to_int(seed_index)
        need(v, "overlaps-of-that-source", z3.And(T.to_real(radius) == roi.at(k), N.as_nd(center).at(0) == xy.at(k, 0), N.as_nd(center).at(1) == xy.at(k, 1)))
        d = T.fresh("n_overlaps", T.I)
        I.fact(d >= 0)
        return S.SList(I.abstract_seq(d, lambda x: ADJ(k, T.to_int(x)), True, "overlaps"))

    def has(e, nm):
        l = I.bound_to(nm, e)
        if not isinstance(l, S.SList):
            raise Unsupported(nm)
        m = I.members_of(l.v)
        if m is None:
            raise Unsupported("members of " + nm)
        return m, N.np_len(l)

    ga, gb = z3.Ints("ca cb")
    v.assume(z3.ForAll([ga, gb], z3.Implies(z3.And(COMP(ga), ADJ(ga, gb)), COMP(gb)), patterns=[ADJ(ga, gb)]),
             z3.ForAll([ga], z3.Implies(COMP(ga), z3.And(ga >= 0, ga < n)), patterns=[COMP(ga)]))

    def outer(run):
        e = run.env
        x, y = T.fresh("x", T.I), T.fresh("y", T.I)

        def inv(tag):
            (hm, dm), nm = has(e, "members")
            (hs, ds), ns = has(e, "seeds")
            (hl, dl), nl = has(e, "leaves")
            need(v, tag + "no-leaves", nl == 0)
            need(v, tag + "some-seed", ns >= 1)
            need(v, tag + "distinct", dm and ds)
            need(v, tag + "disjoint", lnot(land(hm(x), hs(x))))
            need(v, tag + "linked", z3.Implies(T.to_bool(lor(hm(x), hs(x))), COMP(x)))
            need(v, tag + "seed-included", lor(hm(s0), hs(s0)))
            need(v, tag + "neighbours-known", z3.Implies(z3.And(T.to_bool(hm(y)), ADJ(y, x)), T.to_bool(lor(hm(x), hs(x)))))
        inv("entry.")
        INM, INS = T.fresh_fun("is_member", T.I, T.B), T.fresh_fun("is_seed", T.I, T.B)
        nm, ns = T.fresh("n_members", T.I), T.fresh("n_seeds", T.I)
        I.fact(nm >= 0, ns >= 1)
        a, b = z3.Ints("ga gb")
        I.fact(z3.ForAll([a], z3.And(z3.Not(z3.And(INM(a), INS(a))), z3.Implies(z3.Or(INM(a), INS(a)), COMP(a))), patterns=[INM(a), INS(a)]),
               z3.Or(INM(s0), INS(s0)),
               z3.ForAll([a, b], z3.Implies(z3.And(INM(a), ADJ(a, b)), z3.Or(INM(b), INS(b))), patterns=[z3.MultiPattern(INM(a), ADJ(a, b))]))
        seeds = I.abstract_seq(ns, lambda t: INS(T.to_int(t)), True, "seed")
        POSS = T.fresh_fun("place_of_seed", T.I, T.I)
        I.fact(z3.ForAll([a], z3.Implies(INS(a), z3.And(POSS(a) >= 0, POSS(a) < ns, seeds.at(POSS(a)) == a)), patterns=[INS(a)]))
        run.keep |= {"members", "seeds", "leaves"}
        e.set("members", S.SList(I.abstract_seq(nm, lambda t: INM(T.to_int(t)), True, "member")))
        e.set("seeds", S.SList(seeds))
        e.set("leaves", S.SList([]))
        st.update(ns=ns, seeds=seeds, x=x, y=y, INS=INS, POSS=POSS, nm=nm, env=e)
        out = run()
        (h1, d1), n1 = has(e, "members")
        need(v, "progress", n1 > nm)
        if out:
            return True
        for t in (x, y):        # an empty list has no members
            (hs, _), k = has(e, "seeds")
            I.fact(z3.Implies(T.to_bool(hs(t)), T.to_int(k) >= 1))
        inv("preserved.")
        raise Infeasible()

    def inner(it, run):
        if "seeds" not in st or it is not st["seeds"]:
            return False
        e, x, ns, seeds = run.env, st["x"], st["ns"], st["seeds"]
        R, W = T.fresh_fun("neighbour_of_the_first", T.I, T.I, T.B), T.fresh_fun("witness", T.I, T.I, T.I)

        def inv(k, tag):
            (h, d), _ = has(e, "leaves")
            need(v, tag + "distinct-leaves", d)
            need(v, tag + "leaves-are-the-neighbours", T.to_bool(h(x)) == R(k, x))
            j = T.fresh("j", T.I)
            need(v, tag + "every-neighbour", z3.Implies(z3.And(0 <= j, j < k, ADJ(T.to_int(seeds.at(j)), x)), R(k, x)))
            need(v, tag + "only-neighbours", z3.Implies(R(k, x), z3.And(0 <= W(k, x), W(k, x) < k, ADJ(T.to_int(seeds.at(W(k, x))), x))))

        I.fact(z3.Not(R(0, x)))
        inv(z3.IntVal(0), "inner-entry.")
        run.keep |= {"leaves"}

        def put(k):
            nl = T.fresh("n_leaves", T.I)
            I.fact(nl >= 0)
            e.set("leaves", S.SList(I.abstract_seq(nl, lambda t: R(k, T.to_int(t)), True, "leaf")))
        if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
            k, j = T.fresh("kiter", T.I), z3.Int("gj")
            I.assume(0 <= k, k < ns)
            sk = T.to_int(seeds.at(k))
            I.fact(R(k + 1, x) == z3.Or(R(k, x), ADJ(sk, x)), W(k + 1, x) == z3.If(R(k, x), W(k, x), k))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k, ADJ(seeds.raw(j), x)), R(k, x)), patterns=[seeds.raw(j)]),
                     z3.Implies(R(k, x), z3.And(0 <= W(k, x), W(k, x) < k, ADJ(seeds.raw(W(k, x)), x))))
            put(k)
            run(k)
            inv(k + 1, "inner-preserved.")
            raise Infeasible()
        a, b = z3.Ints("gc gd")
        I.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < ns, ADJ(seeds.raw(a), b)), R(ns, b)), patterns=[z3.MultiPattern(seeds.raw(a), R(ns, b))]),
               z3.ForAll([b], z3.Implies(R(ns, b), z3.And(0 <= W(ns, b), W(ns, b) < ns, st["INS"](seeds.raw(W(ns, b))), ADJ(seeds.raw(W(ns, b)), b))), patterns=[R(ns, b)]))
        st["R"] = R
        put(ns)
        return True

    def th():
        st.clear()
        o = v.obj(M + ":LinkedSuperScene", n_sources=n, roi=roi, _scene_coordinates=xy, find_overlaps=find)
        I.cuts, I.while_cuts = (inner,), (outer,)
        try:
            return v.call(v.method(o, "grow_source"), s0)
        finally:
            I.cuts, I.while_cuts = (), ()

    def post(r):
        if "R" not in st:
            raise Unsupported("the loops were not met")
        m = I.members_of(r.v)
        if m is None:
            raise Unsupported("members")
        h = lambda t: T.to_bool(m[0](t))
        x, y = v.idx("x", n), v.idx("y", n)
        (hl, _), nl = has(st["env"], "leaves")
        I.fact(z3.Implies(T.to_bool(hl(x)), T.to_int(nl) >= 1))        # an empty list has no members
        for nm, g in (("distinct", m[1]), ("seed-included", h(s0)), ("closed-under-overlap", z3.Implies(z3.And(h(y), ADJ(y, x)), h(x))),
                      ("only-linked-sources", z3.Implies(h(x), COMP(x)))):
            need(v, nm, g)
    v.run(th, post)


@contract(M + ":LinkedSuperScene.make_group_catalog")
def groups_any(v):
    """any number of sources and any grouping: two sources get the same group exactly if they are linked.  The linked sources are given
    by the contract of grow_source (with overlap symmetric, they are the classes of an equivalence: FIRST is the first of the class).
    Invariant before source i: exactly the sources whose class begins before i have a group, which they share with their class only"""
    I = v.I
    n, FIRST = v.int("n_sources", lo=1), z3.Function("first_of_the_group", T.I, T.I)
    a = z3.Int("fa")
    v.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= FIRST(a), FIRST(a) <= a, FIRST(FIRST(a)) == FIRST(a))), patterns=[FIRST(a)]))
    st = {}

    def grow(s):
        s, k = T.to_int(s.at() if isinstance(s, S.Nd) else s), T.fresh("n_linked", T.I)
        need(v, "a-source", z3.And(s >= 0, s < n))
        I.fact(k >= 1)
        return S.SList(I.abstract_seq(k, lambda x: z3.And(T.to_int(x) >= 0, T.to_int(x) < n, FIRST(T.to_int(x)) == FIRST(s)), True, "linked"))

    def cut(it, run):
        e = run.env
        if not I.valid(T.to_int(it.n) == n):
            return False
        arrs = [x for x in e.d.values() if isinstance(x, S.Nd) and x.ndim == 1]
        ints = [k for k, x in e.d.items() if not isinstance(x, bool) and (isinstance(x, int) or is_z3(x) and z3.is_int(x))]
        if len(arrs) != 1 or len(ints) != 1:
            raise Unsupported("state of the loop")
        G, nm = arrs[0], ints[0]
        x, y = v.idx("x", n), v.idx("y", n)
        st["G"] = G

        def inv(i, g, f, x, y):
            return {"groups-begun-before": (f(x) >= 0) == (FIRST(x) < i), "numbered-in-order": z3.And(f(x) < g, g >= 0),
                    "same-group-iff-linked": z3.Implies(z3.And(f(x) >= 0, f(y) >= 0), (f(x) == f(y)) == (FIRST(x) == FIRST(y)))}

        def check(i, tag):
            for k, g in inv(i, T.to_real(I.bound_to(nm, e)), lambda t: T.to_real(G.at(t)), x, y).items():
                need(v, tag + k, g)
        check(z3.IntVal(0), "entry.")
        run.keep |= {nm}

        def put(i):
            f, g = T.fresh_fun("group", T.I, T.R), T.fresh("next_group", T.I)
            N.setitem(G, slice(None), N.mk_nd((n,), lambda t: f(T.to_int(t)), "real"))
            e.set(nm, g)
            p, q = z3.Ints("gp gq")
            h = inv(i, T.to_real(g), f, p, q)
            I.fact(g >= 0, z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < n, 0 <= q, q < n), z3.And(*h.values())), patterns=[z3.MultiPattern(f(p), f(q))]))
        if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
            k = T.fresh("kiter", T.I)
            I.assume(0 <= k, k < n)
            put(k)
            run(k)
            check(k + 1, "preserved.")
            raise Infeasible()
        put(n)
        return True

    def th():
        st.clear()
        o = v.obj(M + ":LinkedSuperScene", n_sources=n, grow_source=grow)
        I.cuts = (cut,)
        try:
            return v.call(v.method(o, "make_group_catalog"))
        finally:
            I.cuts = ()

    def post(r):
        if "G" not in st:
            raise Unsupported("the loop over the sources was not met")
        x, y = v.idx("x", n), v.idx("y", n)
        gx, gy = T.to_real(r.at(x)), T.to_real(r.at(y))
        need(v, "every-source-has-a-group", z3.And(FIRST(x) < n, gx >= 0))
        need(v, "same-group-iff-linked", z3.And(FIRST(x) < n, FIRST(y) < n, (gx == gy) == (FIRST(x) == FIRST(y))))
    v.run(th, post)


def graphs(n):
    es = [(i, j) for i in range(n) for j in range(i)]
    for b in range(1 << len(es)):
        yield [e for k, e in enumerate(es) if b >> k & 1]


def component(n, es, s):
    seen, st = {s}, [s]
    while st:
        x = st.pop()
        for i, j in es:
            for a, b in ((i, j), (j, i)):
                if a == x and b not in seen:
                    seen.add(b)
                    st.append(b)
    return seen


def groups(n):
    def body(v):
        """BOUNDED: for every overlap relation on n sources"""
        for es in graphs(n):
            nb = {i: sorted({a if b == i else b for a, b in es if i in (a, b)}) for i in range(n)}

            def find(center, radius, seed_index=-1, sort=False):
                v.eq("radius-of-that-source", radius, 10 + seed_index)
                v.eq("centre-of-that-source", N.as_nd(center).at(0), T.to_real(seed_index))
                return N.as_nd(S.SList(list(nb[seed_index]))) if nb[seed_index] else N.mk_nd((0,), lambda i: 0, "int")

            def mk():
                return v.obj(M + ":LinkedSuperScene", n_sources=n, roi=S.SList([10 + i for i in range(n)]),
                             _scene_coordinates=N.as_nd(S.SList([S.SList([i, 0]) for i in range(n)])), find_overlaps=find)
            for s in range(n if len(es) < 4 else 1):
                def post(r, s=s):
                    got = [conc_of(x) for x in r.v]
                    v.ob("exactly-the-linked-sources-once", sorted(got) == sorted(component(n, es, s)))
                    v.eq("seed-first", got[0], s)
                v.run(lambda: v.call(v.method(mk(), "grow_source"), s), post)

            def post2(g):
                g = [conc_of(T.simp(g.at(i))) for i in range(n)]
                for i in range(n):
                    for j in range(n):
                        v.ob("same-group-iff-linked", (g[i] == g[j]) == (j in component(n, es, i)))
            v.run(lambda: v.call(v.method(mk(), "make_group_catalog")), post2)
    body.__name__ = f"groups_{n}"
    return body


for _n in (1, 2, 3, 4, 5):
    contract(M + ":LinkedSuperScene.grow_source", M + ":LinkedSuperScene.make_group_catalog", bounded=True)(groups(_n))
BOUNDED = ["in addition to the unbounded contracts with loop invariants: grow_source and make_group_catalog for every overlap relation on up to five sources, "
           "grow_scene for three sources, every grouping, limit and order of the candidates (these also pin the order in which groups are taken)"]


def scene_any(strict):
    def body(v):
        """any number of sources, candidates and any grouping.  Invariant before candidate k: the sources taken are exactly the groups of
        the candidates before it, distinct, and within the limit."""
        I = v.I
        n, nc, mx, seed = v.int("n_sources", lo=1), v.int("n_candidates", lo=1), v.int("maxactive", lo=1), v.int("seed", lo=0)
        mxf = v.int("max_fixed", lo=0)
        v.assume(seed < n)
        FIRST = z3.Function("first_of_the_group", T.I, T.I)
        VIS, WIT = z3.Function("in_a_group_of_the_first", T.I, T.I, T.B), z3.Function("candidate_of", T.I, T.I, T.I)
        act = v.arr("act", (n,), "int")
        ra, dec, roi, xy = v.arr("ra", (n,)), v.arr("dec", (n,)), v.arr("roi", (n,)), v.arr("xy", (n, 2))
        lon, lat = z3.Function("lon", T.R, T.R, T.R), z3.Function("lat", T.R, T.R, T.R)
        buf, mnr, br = v.real("buffer"), v.real("minradius"), v.real("boundary")
        st = {}
        src = lambda x: z3.And(x >= 0, x < n)

        def found(seq):
            a = N.mk_nd((seq.n,), lambda i: seq.at(i), "int")
            a.tag = ("members", seq)
            return a

        def find(center, radius, seed_index=-1, sort=False):
            k = len(st["calls"])
            st["calls"].append((N.as_nd(center), T.to_real(radius)))
            INC = T.fresh_fun("near", T.I, T.B)
            m = nc if k == 0 else T.fresh("n_near", T.I)
            I.fact(m >= 0)
            seq = I.abstract_seq(m, lambda x: z3.And(src(T.to_int(x)), INC(T.to_int(x))), True, "near")
            st["seqs"].append(seq)
            g = z3.Int("gs")
            I.fact(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < m), src(seq.raw(g))), patterns=[seq.raw(g)]))
            return found(seq)

        def grow(s):
            s, k = T.to_int(s.at() if isinstance(s, S.Nd) else s), T.fresh("n_linked", T.I)
            need(v, "a-source", src(s))
            I.fact(k >= 1)
            return S.SList(I.abstract_seq(k, lambda x: z3.And(src(T.to_int(x)), FIRST(T.to_int(x)) == FIRST(s)), True, "linked"))

        def cut(it, run):
            if not st["seqs"] or it is not st["seqs"][0]:
                return False
            e, cand = run.env, it
            nm = [k for k, x in e.d.items() if isinstance(x, S.SList) and isinstance(x.v, list) and not x.v]
            if len(nm) != 1:
                raise Unsupported("state of the loop")
            nm = nm[0]
            x, y = v.idx("x", n), v.idx("y", n)

            def check(k, tag):
                l = I.bound_to(nm, e)
                m = I.members_of(l.v) if isinstance(l, S.SList) else None
                if m is None:
                    raise Unsupported("members")
                need(v, tag + "distinct", m[1])
                need(v, tag + "within-the-limit", N.np_len(l) <= mx)
                need(v, tag + "groups-of-the-candidates", T.to_bool(m[0](x)) == VIS(k, x))
                need(v, tag + "some", z3.Implies(k > 0, T.to_int(N.np_len(l)) >= 1))
                j = T.fresh("j", T.I)
                need(v, tag + "every-group", z3.Implies(z3.And(0 <= j, j < k, FIRST(cand.raw(j)) == FIRST(x)), VIS(k, x)))
                need(v, tag + "only-groups", z3.Implies(VIS(k, x), z3.And(src(x), 0 <= WIT(k, x), WIT(k, x) < k, FIRST(cand.raw(WIT(k, x))) == FIRST(x))))
                need(v, tag + "whole-groups", z3.Implies(z3.And(FIRST(x) == FIRST(y), VIS(k, x)), VIS(k, y)))
            I.fact(z3.Not(VIS(0, x)), z3.Not(VIS(0, y)))
            check(z3.IntVal(0), "entry.")
            run.keep |= {nm}
            st["name"] = nm

            def put(k):
                m, p, q = T.fresh("n_taken", T.I), z3.Int("gp"), z3.Int("gq")
                I.fact(m >= 0, m <= mx, z3.Implies(k > 0, m >= 1), z3.Implies(m > 0, k > 0))
                e.set(nm, S.SList(I.abstract_seq(m, lambda t: VIS(k, T.to_int(t)), True, "taken")))
                I.fact(z3.ForAll([p], z3.Implies(VIS(k, p), z3.And(src(p), 0 <= WIT(k, p), WIT(k, p) < k, FIRST(cand.raw(WIT(k, p))) == FIRST(p))), patterns=[VIS(k, p)]),
                       z3.ForAll([p, q], z3.Implies(z3.And(FIRST(p) == FIRST(q), src(p), src(q), VIS(k, p)), VIS(k, q)), patterns=[z3.MultiPattern(VIS(k, p), VIS(k, q))]),
                       z3.ForAll([p, q], z3.Implies(z3.And(0 <= q, q < k, src(p), FIRST(cand.raw(q)) == FIRST(p)), VIS(k, p)), patterns=[z3.MultiPattern(cand.raw(q), VIS(k, p))]))
            if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
                k = T.fresh("kiter", T.I)
                I.assume(0 <= k, k < nc)
                ck = T.to_int(cand.at(k))
                for t in (x, y, ck):
                    I.fact(VIS(k + 1, t) == z3.And(src(t), z3.Or(VIS(k, t), FIRST(t) == FIRST(ck))), WIT(k + 1, t) == z3.If(VIS(k, t), WIT(k, t), k))
                put(k)
                I.fact(z3.Implies(VIS(k, ck), VIS(k, ck)), z3.Implies(VIS(k, x), VIS(k, x)), z3.Implies(VIS(k, y), VIS(k, y)))
                st["before"] = I.bound_to(nm, e).v
                run(k)
                if run.broke:
                    st["broke"] = (k, ck)
                    return True
                check(k + 1, "preserved.")
                raise Infeasible()
            put(nc)
            st["whole"] = True
            return True

        def th():
            st.clear()
            st.update(calls=[], seqs=[])
            cat = lambda: S.Rec((n,), {"is_active": (act.buf, ()), "ra": (ra.buf, ()), "dec": (dec.buf, ())}, None, name="cat")
            o = v.obj(M + ":LinkedSuperScene", sourcecat=cat(), original=cat(), _scene_coordinates=xy, roi=roi, buffer=buf, strict=strict, maxactive=mx,
                      minradius=mnr, boundary_radius=br, find_overlaps=find, grow_source=grow, sky_to_scene=lambda r, d: (lon(r, d), lat(r, d)))
            I.cuts = (cut,)
            try:
                return v.call(v.method(o, "grow_scene"), seed, mxf)
            finally:
                I.cuts = ()

        def post(r):
            reg, A, F = r
            c0, r0 = st["calls"][0]
            need(v, "candidates-around-the-seed", z3.And(r0 == br, c0.at(0) == xy.at(seed, 0), c0.at(1) == xy.at(seed, 1)))
            cand, x = st["seqs"][0], v.idx("x", n)
            if A is None:
                need(v, "nothing-returned", F is None)
                p = z3.Int("pa")
                need(v, "refused-only-if-a-source-is-active", z3.Exists([p], z3.And(src(p) if "name" not in st else True, act.at(p) != 0)))
                return
            if "name" not in st:
                raise Unsupported("the loop over the candidates was not met")
            (h, d), na = I.members_of(A.v), T.to_int(N.np_len(A))
            h0 = h
            h = lambda t: T.to_bool(h0(t))
            need(v, "distinct", d)
            need(v, "within-the-limit", z3.And(na >= 1, na <= mx))
            i, k = v.idx("i", na), v.idx("k", nc)
            need(v, "no-candidate-is-active", act.at(T.to_int(cand.at(k))) == 0)
            a = T.to_int(A.v.at(i))
            need(v, "sources", src(a))
            need(v, "no-active-source-is-taken", act.at(a) == 0)
            if "broke" in st:
                kb, ck = st["broke"]
                need(v, "groups-before-are-whole", z3.Implies(VIS(kb, x), h(x)))
                need(v, "only-the-next-group-is-split", z3.Implies(h(x), z3.Or(VIS(kb, x), FIRST(x) == FIRST(ck))))
                need(v, "split-only-to-fill" if not strict else "strict-splits-only-the-first",
                     z3.Or(na == mx, h(x) == VIS(kb, x)) if not strict else z3.Or(z3.And(kb == 0, na == mx), h(x) == VIS(kb, x)))
            else:
                need(v, "every-group-of-a-candidate", z3.Implies(FIRST(T.to_int(cand.at(k))) == FIRST(x), h(x)))
                need(v, "only-groups-of-candidates", z3.Implies(h(x), z3.And(0 <= WIT(nc, x), WIT(nc, x) < nc, FIRST(cand.raw(WIT(nc, x))) == FIRST(x))))
            sa = N.mk_nd((na,), lambda j: ra.at(T.to_int(A.v.at(j))), "real")
            sd = N.mk_nd((na,), lambda j: dec.at(T.to_int(A.v.at(j))), "real")
            need(v, "region-centre", z3.And(reg.a["ra"] == N.np_mean(sa), reg.a["dec"] == N.np_mean(sd)))
            X, Y = lon(reg.a["ra"], reg.a["dec"]), lat(reg.a["ra"], reg.a["dec"])
            dx, dy = xy.at(a, 0) - X, xy.at(a, 1) - Y
            v.extrema_at(i)
            reach = T.sqrt(dx * dx + dy * dy) + roi.at(a) + buf
            goal = reg.a["radius"] * 3600 >= reach
            t = T.fresh("reach", T.R)
            for ex in (e for e in I.extrema.values() if len(e) == 5):
                if z3.is_true(z3.simplify(z3.substitute(ex[1], (ex[2], i)) == reach)):       # the maximum is over these very values
                    g = z3.Implies(t <= ex[0], reg.a["radius"] * 3600 >= t)
                    q = z3.Solver()
                    q.set("timeout", 5000)
                    q.add(z3.Not(g))
                    if q.check() != z3.unsat:
                        raise Unsupported("radius of the region")
                    v.lemma(g)
                    I.assume(z3.And(reach <= ex[0], z3.substitute(g, (t, reach))))
            need(v, "region-encloses-every-active-source", goal)
            need(v, "region-at-least-the-minimum", reg.a["radius"] * 3600 >= mnr)
            c1, r1 = st["calls"][1]
            need(v, "fixed-around-the-region", z3.And(c1.at(0) == X, c1.at(1) == Y))
            nf = T.to_int(N.np_len(F))
            need(v, "fixed-within-the-limit", nf <= mxf)
            m = I.members_of(F.v)
            if m is None:
                raise Unsupported("members of the fixed sources")
            need(v, "fixed-distinct", m[1])
            need(v, "fixed-near-and-not-active", z3.Implies(T.to_bool(m[0](x)), z3.And(T.to_bool(st["seqs"][1].has(x)), z3.Not(h(x)))))
            need(v, "every-other-near-source-unless-full", z3.Implies(z3.And(T.to_bool(st["seqs"][1].has(x)), z3.Not(h(x))), z3.Or(T.to_bool(m[0](x)), nf == mxf)))
        v.run(th, post)
    body.__name__ = "grow_scene_any_" + ("strict" if strict else "lax")
    return body


for _s in (True, False):
    contract(M + ":LinkedSuperScene.grow_scene")(scene_any(_s))


def scenes(strict):
    def body(v):
        """BOUNDED: whole groups are added in order of distance up to the limit"""
        n = 3
        for part in ([0, 1, 2], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 0, 0]):
            comp = lambda s: [s] + [j for j in range(n) if j != s and part[j] == part[s]]
            for cand in ([0], [0, 1], [0, 2, 1], [0, 1, 2]):
                for mx in (1, 2, 3):
                    one_scene(v, n, part, comp, cand, mx, strict)
    body.__name__ = "grow_scene_" + ("strict" if strict else "lax")
    return body


def one_scene(v, n, part, comp, cand, mx, strict):
    act = v.arr("act", (n,), "int")
    ra, dec, roi, xy = v.arr("ra", (n,)), v.arr("dec", (n,)), v.arr("roi", (n,)), v.arr("xy", (n, 2))
    lon, lat = z3.Function("lon", T.R, T.R, T.R), z3.Function("lat", T.R, T.R, T.R)
    buf, mnr, br = v.real("buffer"), v.real("minradius"), v.real("boundary")
    cat = lambda: S.Rec((n,), {"is_active": (act.buf, ()), "ra": (ra.buf, ()), "dec": (dec.buf, ())}, None, name="cat")
    box = {}

    def th():
        calls = []

        def find(center, radius, seed_index=-1, sort=False):
            calls.append((center, radius))
            return N.as_nd(S.SList(list(cand))) if len(calls) == 1 else N.as_nd(S.SList([2, 0, 1]))
        box["calls"] = calls
        o = v.obj(M + ":LinkedSuperScene", sourcecat=cat(), original=cat(), _scene_coordinates=xy, roi=roi, buffer=buf, strict=strict, maxactive=mx,
                  minradius=mnr, boundary_radius=br, find_overlaps=find, grow_source=lambda s: S.SList(comp(conc_of(s) if is_z3(s) else s)),
                  sky_to_scene=lambda r, d: (lon(r, d), lat(r, d)))
        return v.call(v.method(o, "grow_scene"), 0)

    def post(r):
        reg, A, F = r
        v.eq("candidates-around-the-seed", box["calls"][0][1], br)
        if A is None:
            v.ob("refused-only-if-something-is-active", z3.Or(*[act.at(i) != 0 for i in range(n)]))
            return
        A, F = [conc_of(x) for x in A.v], [conc_of(x) for x in F.v]
        v.ob("distinct-within-the-limit", len(set(A)) == len(A) and 1 <= len(A) <= mx)
        for i in A:
            v.ob("no-active-source-is-taken", act.at(i) == 0)
        for i in cand:
            v.ob("no-candidate-is-active", act.at(i) == 0)
        gs = []
        for i in cand:
            if part[i] not in gs:
                gs.append(part[i])
        full = [g for g in gs if all(j in A for j in range(n) if part[j] == g)]
        some = [g for g in gs if any(j in A for j in range(n) if part[j] == g)]
        v.ob("only-groups-of-candidates", all(part[i] in gs for i in A))
        v.ob("nearest-groups-first", some == gs[:len(some)])
        v.ob("groups-whole", len(some) - len(full) <= 1 and (len(some) == len(full) or (len(A) == mx and full == gs[:len(full)])))
        if strict:
            v.ob("strict-never-splits", len(some) == len(full) or len(some) == 1)
        rest = gs[len(some):]
        if rest and len(some) == len(full):
            size = sum(1 for j in range(n) if part[j] == rest[0])
            v.ob("stops-only-when-the-next-group-does-not-fit", len(A) + size > mx and (strict or len(A) == mx))
        k = len(A)
        cra, cdec = sum((ra.at(i) for i in A), z3.RealVal(0)) / k, sum((dec.at(i) for i in A), z3.RealVal(0)) / k
        v.eq("region-centre-ra", reg.a["ra"], cra)
        v.eq("region-centre-dec", reg.a["dec"], cdec)
        x, y = lon(reg.a["ra"], reg.a["dec"]), lat(reg.a["ra"], reg.a["dec"])
        for i in A:
            dx, dy = xy.at(i, 0) - x, xy.at(i, 1) - y
            v.ob("region-encloses-every-active-source", reg.a["radius"] * 3600 >= T.sqrt(dx * dx + dy * dy) + roi.at(i) + buf)
        v.ob("region-at-least-the-minimum", reg.a["radius"] * 3600 >= mnr)
        v.eq("fixed", F, [i for i in (2, 0, 1) if i not in A][:mx])
    v.run(th, post)


contract(M + ":LinkedSuperScene.grow_scene", bounded=True)(scenes(True))
contract(M + ":LinkedSuperScene.grow_scene", bounded=True)(scenes(False))
