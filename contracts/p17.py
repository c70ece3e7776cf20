"""P17: regions contain exactly the points they describe."""
from ve.spec import *

TRUSTED = ["the image solution maps element by element"]
M = "forcepho.region"


def wcs(v, w2p=None):
    F = {k: z3.Function(k, T.R, T.R, T.R) for k in ("Fra", "Fdec", "Gx", "Gy")}

    def two(f, g):
        def fn(a, b, *_, **k):
            A, B = N.as_nd(a), N.as_nd(b)
            fa, fb = N.snap(A), N.snap(B)
            if A.ndim == 0:
                return (F[f](fa(), fb()), F[g](fa(), fb()))
            return tuple(N.mk_nd(A.shape, lambda *i, h=h: h(fa(*i), fb(*i)), "real") for h in (F[f], F[g]))
        return fn
    return F, S.Obj(None, "wcs", pixel_to_world_values=two("Fra", "Fdec"), world_to_pixel_values=two("Gx", "Gy"))


def check_selection(v, r, ns, inside):
    """r = (rows, cols) enumerates exactly the positions with inside(i, j), each once"""
    rows, cols = r
    n = rows.shape[0]
    v.eq("same-length", rows.shape[0], cols.shape[0])
    k, l = v.idx("k", n), v.idx("l", n)
    i, j = rows.at(k), cols.at(k)
    v.ob("index-in-range", land(cmp(">=", i, 0), cmp("<", i, ns[0]), cmp(">=", j, 0), cmp("<", j, ns[1])))
    v.ob("selected-are-inside", inside(i, j))
    v.ob("each-once", z3.Implies(z3.And(i == rows.at(l), j == cols.at(l)), k == l))


def circle(dims):
    def body(v):
        F, w = wcs(v)
        ra, dec, rad = v.real("ra"), v.real("dec"), v.real("radius")
        v.assume(rad > 0)
        n = tuple(v.int(f"n{d}", lo=1) for d in range(dims))
        nc = 4
        xc, yc = v.arr("xc", n + (nc,)), v.arr("yc", n + (nc,))

        def th():
            o = v.call(M + ":CircularRegion", ra, dec, rad)
            return v.call(v.method(o, "contains"), xc, yc, w)
        cx, cy = F["Gx"](ra, dec), F["Gy"](ra, dec)
        r2 = (cx - F["Gx"](ra, dec + rad)) ** 2 + (cy - F["Gy"](ra, dec + rad)) ** 2

        def inside(*ix):
            return lor(*[cmp("<", (xc.at(*ix, c) - cx) ** 2 + (yc.at(*ix, c) - cy) ** 2, r2) for c in range(nc)])
        sel_post(v, th, n, inside)
    body.__name__ = f"circle_{dims}d"
    return body


def sel_post(v, th, n, inside):
    def post(r):
        v.ob("one-index-array-per-axis", isinstance(r, tuple) and len(r) == len(n))
        cnt = r[0].shape[0]
        for a in r:
            v.eq("same-length", a.shape[0], cnt)
        k, l = v.idx("k", cnt), v.idx("l", cnt)
        ix, il = [a.at(k) for a in r], [a.at(l) for a in r]
        v.ob("index-in-range", land(*[land(cmp(">=", i, 0), cmp("<", i, m)) for i, m in zip(ix, n)]))
        v.ob("selected-have-a-corner-inside", inside(*ix))
        v.ob("each-once", z3.Implies(land(*[cmp("==", a, b) for a, b in zip(ix, il)]), k == l))
        # completeness: a position with a corner inside occurs in the selection
        p = [v.idx(f"p{d}", m) for d, m in enumerate(n)]
        rank = v.rank_of(cnt)
        flat = p[0] if len(n) == 1 else p[0] * n[1] + p[1]

        def there(q):
            return z3.And(q >= 0, T.to_bool(cmp("<", q, cnt)), T.to_bool(land(*[cmp("==", a.at(q), x) for a, x in zip(r, p)])))
        v.assume(inside(*p))
        if len(n) == 2:
            v.lemma(p[0] * n[1] + p[1] < n[0] * n[1], p[0] + 1 <= n[0], p[1] < n[1], n[1] >= 1)
            v.lemma_divmod(p[0], n[1], p[1])
        if rank is not None:
            goal = there(rank(flat))
        else:
            q = T.fresh("q", T.I)
            goal = z3.Exists([q], there(q))
        v.ob("every-position-with-a-corner-inside-is-selected", goal)
    v.run(th, post)


def rect(dims):
    def body(v):
        F, w = wcs(v)
        lim = [v.real(k) for k in ("ra_min", "ra_max", "dec_min", "dec_max")]
        n = tuple(v.int(f"n{d}", lo=1) for d in range(dims))
        nc = 4
        xc, yc = v.arr("xc", n + (nc,)), v.arr("yc", n + (nc,))

        def th():
            o = v.call(M + ":RectangularRegion", *lim)
            return v.call(v.method(o, "contains"), xc, yc, w)

        def inside(*ix):
            def one(c):
                r, d = F["Fra"](xc.at(*ix, c), yc.at(*ix, c)), F["Fdec"](xc.at(*ix, c), yc.at(*ix, c))
                return land(r > lim[0], r < lim[1], d > lim[2], d < lim[3])
            return lor(*[one(c) for c in range(nc)])
        sel_post(v, th, n, inside)
    body.__name__ = f"rectangle_{dims}d"
    return body


for _d in (1, 2):
    contract(M + ":CircularRegion.contains", M + ":CircularRegion.__init__")(circle(_d))
    contract(M + ":RectangularRegion.contains", M + ":RectangularRegion.__init__")(rect(_d))


@contract(M + ":CircularRegion.bounding_box")
def circle_bbox(v):
    """every point within the radius (small-angle metric: cos(dec) dRA, dDec) lies in the box, whose corners go round"""
    ra, dec, rad, dr, dd = (v.real(k) for k in ("ra", "dec", "radius", "dr", "dd"))
    c = T.cos(dec * T.PI / 180)
    v.assume(rad > 0, c > 0)

    def th():
        return v.I.getattr(v.call(M + ":CircularRegion", ra, dec, rad), "bounding_box")

    def post(b):
        v.is_shape("shape", b, (2, 4))
        X, Y = [b.at(0, k) for k in range(4)], [b.at(1, k) for k in range(4)]
        v.eq("west", X[0], ra - rad / c)
        v.eq("west2", X[3], X[0])
        v.eq("east", X[1], ra + rad / c)
        v.eq("east2", X[2], X[1])
        v.eq("south", Y[0], dec - rad)
        v.eq("south2", Y[1], Y[0])
        v.eq("north", Y[2], dec + rad)
        v.eq("north2", Y[3], Y[2])
        u = v.real("u")
        v.assume((c * dr) ** 2 + dd ** 2 <= rad ** 2, u == c * dr)
        v.ob("circumscribes-dec", z3.And(Y[0] <= dec + dd, dec + dd <= Y[2]), )
        v.ob("circumscribes-ra", z3.And((X[0] - ra) * c <= u, u <= (X[1] - ra) * c))
    v.run(th, post)


@contract(M + ":RectangularRegion.bounding_box")
def rect_bbox(v):
    lim = [v.real(k) for k in ("ra_min", "ra_max", "dec_min", "dec_max")]

    def th():
        return v.I.getattr(v.call(M + ":RectangularRegion", *lim), "bounding_box")

    def post(b):
        v.is_shape("shape", b, (2, 4))
        for k, (x, y) in enumerate(((0, 2), (1, 2), (1, 3), (0, 3))):
            v.eq(f"corner{k}-ra", b.at(0, k), lim[x])
            v.eq(f"corner{k}-dec", b.at(1, k), lim[y])
    v.run(th, post)


@contract(M + ":polygons_overlap")
def rectangles_overlap(v):
    """two axis-aligned boxes of positive size: overlap is reported iff their closed extents meet on both axes"""
    L = [[v.real(f"{p}{k}") for k in ("r0", "r1", "d0", "d1")] for p in "ab"]
    for l in L:
        v.assume(l[0] < l[1], l[2] < l[3])

    def th():
        a, b = (v.call(M + ":RectangularRegion", *l) for l in L)
        return v.call(M + ":polygons_overlap", a, b)
    a, b = L
    meet = z3.And(a[0] <= b[1], b[0] <= a[1], a[2] <= b[3], b[2] <= a[3])

    def post(r):
        v.ob("overlap-iff-extents-meet", T.to_bool(N.truth(r) if not isinstance(r, bool) else r) == meet)
    v.run(th, post)


@contract(M + ":polygons_overlap")
def separated_polygons(v):
    """any two quadrilaterals (the bounding boxes of regions have four corners): overlap is reported iff no edge normal of
    either one separates all of the corners"""
    A, B = v.arr("A", (2, 4)), v.arr("B", (2, 4))

    def th():
        a, b = S.Obj(None, "a", bounding_box=A), S.Obj(None, "b", bounding_box=B)
        return v.call(M + ":polygons_overlap", a, b)

    def post(r):
        r = conc_of(r)
        v.ob("boolean", isinstance(r, bool))
        seps = []
        for P in (A, B):
            for e in range(4):
                e1 = (e + 1) % 4
                nx, ny = P.at(1, e1) - P.at(1, e), P.at(0, e) - P.at(0, e1)
                pa = [nx * A.at(0, k) + ny * A.at(1, k) for k in range(4)]
                pb = [nx * B.at(0, k) + ny * B.at(1, k) for k in range(4)]
                seps.append(z3.Or(z3.And(*[x < y for x in pa for y in pb]), z3.And(*[x > y for x in pa for y in pb])))
        v.ob("overlap-iff-no-separating-edge", z3.Not(z3.Or(*seps)) if r else z3.Or(*seps))
    v.run(th, post)


@contract(M + ":polygon_contains")
def polygon(v):
    """a point is reported inside iff it lies on the same side of every edge (all cross products of one sign)"""
    n, m = v.int("nside", lo=3), v.int("npoint", lo=1)
    P, X = v.arr("poly", (n, 2)), v.arr("points", (m, 2))

    def th():
        return v.call(M + ":polygon_contains", P, X)

    def cross(i, e):
        e1 = ite(cmp("==", e + 1, n), 0, e + 1)
        return (P.at(e1, 0) - P.at(e, 0)) * (X.at(i, 1) - P.at(e, 1)) - (P.at(e1, 1) - P.at(e, 1)) * (X.at(i, 0) - P.at(e, 0))

    def post(r):
        v.is_shape("shape", r, (m,))
        i = v.idx("i", m)
        e, f = v.idx("e", n), v.idx("f", n)
        ins = T.to_bool(r.at(i))
        v.ob("inside-implies-one-side", z3.Implies(z3.And(ins, cross(i, e) > 0), cross(i, f) > 0))
        v.ob("inside-implies-one-side-neg", z3.Implies(z3.And(ins, cross(i, e) < 0), cross(i, f) < 0))
        k = T.fresh("k", T.I)
        allpos = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), cross(i, k) > 0))
        allneg = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), cross(i, k) < 0))
        v.ob("counter-clockwise-inside-reported", z3.Implies(allpos, ins))
        v.ob("clockwise-inside-reported", z3.Implies(allneg, ins))
    v.run(th, post)


PPM, ST = "forcepho.patches.pixel_patch", "forcepho.patches.storage"
BOUNDED = ["exposure selection: up to three exposures in up to two bands, with every outcome of the footprint tests"]
LAYOUT = [({"A": ["e1", "e2"], "B": ["e3"]}, ("A", "B")), ({"A": ["e1"], "B": ["e2", "e3"]}, ("B", "A")), ({"A": ["e1"], "B": ["e2"]}, ("C", "B"))]


def chosen(v, r, want, lay, keep):
    """r = (headers, solutions, paths, bands); keep: what is kept for exposure e"""
    sel = [x.a["exp"] for x in r[1].v]
    order = [e for b in want for e in lay.get(b, [])]
    v.ob("in-the-order-of-the-requested-bands-once-each", sel == [e for e in order if e in sel] and len(set(sel)) == len(sel))
    v.ob("bands-belong", [str(b) for b in r[3].v] == [b for e in sel for b in lay if e in lay[b]])
    v.ob("headers-belong", [x.d["exp"] for x in r[0].v] == sel)
    v.ob("paths-belong", len(r[2].v) == len(sel) and all(e in str(p) for p, e in zip(r[2].v, sel)))
    return sel, order


def store_exposures(lay, want):
    def body(v):
        """an exposure is taken only if a super-pixel touches the region, and is taken if in addition a corner of the bounding box lies on it"""
        exps = [e for b in lay for e in lay[b]]
        full = v.int("nside_full", lo=1)
        bra, bdec = v.arr("bra", (4,)), v.arr("bdec", (4,))
        X = {e: v.arr("bx_" + e, (4,)) for e in exps}
        Y = {e: v.arr("by_" + e, (4,)) for e in exps}
        L = {e: v.int("touching_" + e, lo=0) for e in exps}
        corners = v.arr("corners", (v.int("ns", lo=1), v.int("ns2", lo=1), 4, 2))

        def th():
            wcs = {e: S.Obj(None, "wcs", exp=e, world_to_pixel_values=lambda a, b, e=e: (X[e], Y[e])) for e in exps}
            meta = S.Obj(None, "metastore", wcs=S.SDict({b: S.SDict({e: wcs[e] for e in lay[b]}) for b in lay}),
                         headers=S.SDict({b: S.SDict({e: S.SDict({"exp": e}) for e in lay[b]}) for b in lay}))
            pix = S.Obj(None, "pixelstore", nside_full=full, superpixel_corners=lambda: corners)

            def contains(cx, cy, w):
                n = L[w.a["exp"]]
                return v.arr("sx", (n,), "int"), v.arr("sy", (n,), "int")
            reg = S.Obj(None, "region", bounding_box=(bra, bdec), contains=contains)
            o = v.obj(PPM + ":StorePatch", metastore=meta, pixelstore=pix)
            return v.call(v.method(o, "find_exposures"), reg, S.SList(list(want)))

        def post(r):
            sel, order = chosen(v, r, want, lay, None)
            for e in order:
                inside = z3.Or(*[z3.And(X[e].at(k) > 0, X[e].at(k) < T.to_real(full), Y[e].at(k) > 0, Y[e].at(k) < T.to_real(full)) for k in range(4)])
                if e in sel:
                    v.ob(f"touches-the-region-{e}", L[e] > 0)
                else:
                    v.ob(f"not-missed-{e}", z3.Not(z3.And(inside, L[e] > 0)))
        v.run(th, post)
    body.__name__ = "store_exposures_" + "".join(want)
    return body


def meta_exposures(lay, want, rough):
    def body(v):
        """an image is returned if and only if the polygon of its four corners on the sky contains the position"""
        exps = [e for b in lay for e in lay[b]]
        nx, ny = {e: v.int("nx_" + e, lo=1) for e in exps}, {e: v.int("ny_" + e, lo=1) for e in exps}
        ra, dec = v.real("ra"), v.real("dec")
        inside = {e: v.bool("inside_" + e) for e in exps}
        near = {e: v.bool("near_" + e) for e in exps}
        for e in exps:
            v.assume(z3.Implies(inside[e], near[e]))     # the header's own polygon covers the image
        F = {(e, k): z3.Function(f"{k}_of_{e}", T.R, T.R, T.R) for e in exps for k in ("ra", "dec")}
        reg = {e: [Fraction(10 * i + j) for j in range(8)] for i, e in enumerate(exps)}

        def th():
            def to_sky(e):
                def f(x, y):
                    a, b = N.as_nd(x), N.as_nd(y)
                    fa, fb = N.snap(a), N.snap(b)
                    return tuple(N.mk_nd(a.shape, lambda *ix, k=k: F[e, k](T.to_real(fa(*ix)), T.to_real(fb(*ix))), "real") for k in ("ra", "dec"))
                return f
            wcs = {e: S.Obj(None, "wcs", exp=e, pixel_to_world_values=to_sky(e), naxis=2) for e in exps}
            hdr = {e: S.SDict({"NAXIS1": nx[e], "NAXIS2": ny[e], **({"S_REGION": "POLYGON ICRS " + " ".join(map(str, reg[e]))} if rough else {})}) for e in exps}

            def poly(I, p, pts):
                p, pts = N.as_nd(p), N.as_nd(pts)
                if conc_of(p.shape[0]) != 4:
                    raise Unsupported("another polygon")
                v.eq("position-tested", [pts.at(0, 0), pts.at(0, 1)], [ra, dec])
                vs = [(T.to_real(p.at(k, 0)), T.to_real(p.at(k, 1))) for k in range(4)]
                for e in exps:
                    cs = [(T.rv(reg[e][2 * k]), T.rv(reg[e][2 * k + 1])) for k in range(4)]
                    if rough and all(z3.simplify(z3.And(a[0] == b[0], a[1] == b[1])).eq(z3.BoolVal(True)) for a, b in zip(vs, cs)):
                        return N.as_nd(S.SList([near[e]]))
                    x, y = T.to_real(nx[e]), T.to_real(ny[e])
                    cs = [(F[e, "ra"](a, b), F[e, "dec"](a, b)) for a, b in ((T.rv(0), T.rv(0)), (T.rv(0), y), (x, y), (x, T.rv(0)))]
                    for d in (1, -1):
                        for s in range(4):
                            if all(z3.simplify(vs[k][j] == cs[(s + d * k) % 4][j]).eq(z3.BoolVal(True)) for k in range(4) for j in (0, 1)):
                                return N.as_nd(S.SList([inside[e]]))
                raise Unsupported("a polygon that is not the footprint of an image")
            v.stub(M + ":polygon_contains", poly)
            o = v.obj(ST + ":MetaStore", headers=S.SDict({b: S.SDict({e: hdr[e] for e in lay[b]}) for b in lay}),
                      wcs=S.SDict({b: S.SDict({e: wcs[e] for e in lay[b]}) for b in lay}))
            return v.call(v.method(o, "find_exposures"), S.SList([ra, dec]), S.SList(list(want)))

        def post(r):
            sel = list(r[0].v)
            order = [e for b in want for e in lay.get(b, [])]
            v.ob("in-the-order-of-the-requested-bands-once-each", sel == [e for e in order if e in sel] and len(set(sel)) == len(sel))
            v.ob("bands-belong", list(r[1].v) == [b for e in sel for b in lay if e in lay[b]])
            for e in order:
                v.ob(f"footprint-{e}", inside[e] if e in sel else z3.Not(inside[e]))
        v.run(th, post)
    body.__name__ = "meta_exposures_" + "".join(want) + ("_rough" if rough else "")
    return body


for _l, _w in LAYOUT:
    contract(PPM + ":StorePatch.find_exposures", bounded=True)(store_exposures(_l, _w))
    for _r in (True, False):
        contract(ST + ":MetaStore.find_exposures", bounded=True)(meta_exposures(_l, _w, _r))

