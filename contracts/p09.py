"""P09: checkout and checkin conserve the catalog; a source is never checked out twice."""
from ve.spec import *

M = "forcepho.superscene"
TRUSTED = ["get_circular_scene / grow_scene return indices of distinct sources, none of them active (P10 proves it for get_circular_scene)",
           "scipy.linalg.block_diag, astropy SkyCoord transformations (only the seed position depends on them)"]
FLAGS = ("source_index", "is_active", "is_valid", "n_iter", "n_patch")


class World:
    """a catalog in an arbitrary state: any number of sources, two bands and the shape columns"""
    def __init__(w, v, cls="SuperScene"):
        w.v, w.n = v, v.int("nsrc", lo=1)
        w.bands = ["F1", "F2"]
        gal = v.I.resolve("forcepho.sources:Galaxy")
        w.shapes = list(v.I.getattr(gal, "SHAPE_COLS").v)
        w.par = w.bands + w.shapes
        w.old = {k: N.snap(v.arr("c_" + k, (w.n,), "int" if k in FLAGS else "real")) for k in FLAGS + tuple(w.par)}
        # source_index is the row (established by set_catalog)
        w.old["source_index"] = lambda i: T.to_int(i)
        w.cat = S.Rec((w.n,), {k: (N.mk_nd((w.n,), f, "int" if k in FLAGS else "real").buf, ()) for k, f in w.old.items()}, None, name="sourcecat")
        w.npar = len(w.par)
        w.cov0 = N.snap(v.arr("cov", (w.n, w.npar, w.npar)))
        w.bnd0 = {k: N.snap(v.arr("bd_" + k, (w.n, 2))) for k in w.par}
        w.na, w.nf = v.int("n_active", lo=0), v.int("n_fixed", lo=0)

    def obj(w, cls="SuperScene", **kw):
        v = w.v
        a = dict(sourcecat=w.cat, n_sources=w.n, bands=S.SList(list(w.bands)), shape_cols=S.SList(list(w.shapes)), n_active=w.na, n_fixed=w.nf,
                 covariance_matrices=N.mk_nd((w.n, w.npar, w.npar), w.cov0, "real"),
                 bounds_catalog=S.Rec((w.n,), {k: (N.mk_nd((w.n, 2), f, "real").buf, (2,)) for k, f in w.bnd0.items()}, None, name="bounds"),
                 sourcelog=S.SDict({}), patchlog=S.SList([]))
        a.update(kw)
        return v.obj(f"{M}:{cls}", **a)

    def col(w, o, k):
        return N.as_nd(w.v.I.getitem(o.a["sourcecat"], k))

    def inds(w, name):
        """m distinct rows"""
        v = w.v
        m = v.int("m_" + name, lo=1)
        a = v.arr(name, (m,), "int")
        pos = z3.Function("pos_" + name, T.I, T.I)
        v.assume(v.forall((m,), lambda k: z3.And(a.at(k) >= 0, a.at(k) < w.n, pos(a.at(k)) == k)))
        mem = lambda x: z3.And(pos(x) >= 0, pos(x) < m, a.at(pos(x)) == x)
        return m, a, pos, mem


def checkin(case):
    fixed, covs, bounds = case

    def body(v):
        """exactly the returned rows take the returned parameters (each its own), the counters advance, flags are released;
        every other row and every other array entry stays"""
        w = World(v)
        m, A, pa, inA = w.inds("A")
        niter = v.int("niter")
        new = {k: v.arr("new_" + k, (m,)) for k in w.par}
        act = S.Rec((m,), {**{k: (N.mk_nd((m,), N.snap(x), "real").buf, ()) for k, x in new.items()},
                           "source_index": (N.mk_nd((m,), N.snap(A), "int").buf, ())}, None, name="active")
        fx = None
        inF = lambda x: z3.BoolVal(False)
        mf = 0
        if fixed:
            mf, F, pf, inF = w.inds("F")
            fx = S.Rec((mf,), {"source_index": (N.mk_nd((mf,), N.snap(F), "int").buf, ())}, None, name="fixed")
        bc = v.arr("bc", (m, w.npar, w.npar))
        nb = {k: v.arr("nb_" + k, (m, 2)) for k in w.par}

        def th():
            o = w.obj()
            kw = {}
            if covs:
                kw["block_covs"] = bc
            if bounds:
                kw["new_bounds"] = S.Rec((m,), {k: (N.mk_nd((m, 2), N.snap(x), "real").buf, (2,)) for k, x in nb.items()}, None, name="newb")
            v.call(v.method(o, "checkin_region"), act, fixed=fx, niter=niter, **kw)
            return o

        def post(o):
            k, p = v.idx("k", m), v.idx("p", w.n)
            r = A.at(k)
            v.eq("set-of-sources-unchanged", N.np_len(o.a["sourcecat"]), w.n)
            for c in w.par:
                v.eq(f"returned-{c}", w.col(o, c).at(r), new[c].at(k))
                v.ob(f"other-rows-{c}", z3.Implies(z3.Not(inA(p)), w.col(o, c).at(p) == w.old[c](p)))
            v.eq("iterations-counted", w.col(o, "n_iter").at(r), w.old["n_iter"](r) + niter)
            v.ob("other-iterations", z3.Implies(z3.Not(inA(p)), w.col(o, "n_iter").at(p) == w.old["n_iter"](p)))
            v.eq("patches-counted", w.col(o, "n_patch").at(r), w.old["n_patch"](r) + z3.If(niter > 0, 1, 0))
            v.ob("other-patches", z3.Implies(z3.Not(inA(p)), w.col(o, "n_patch").at(p) == w.old["n_patch"](p)))
            v.eq("no-longer-active", w.col(o, "is_active").at(r), 0)
            v.ob("other-active", z3.Implies(z3.Not(inA(p)), w.col(o, "is_active").at(p) == w.old["is_active"](p)))
            v.ob("available-again", z3.Implies(z3.Or(inA(p), inF(p)), w.col(o, "is_valid").at(p) == 1))
            v.ob("other-availability", z3.Implies(z3.Not(z3.Or(inA(p), inF(p))), w.col(o, "is_valid").at(p) == w.old["is_valid"](p)))
            v.eq("rows-keep-their-index", w.col(o, "source_index").at(p), p)
            v.eq("n_active", o.a["n_active"], w.na - m)
            v.eq("n_fixed", o.a["n_fixed"], w.nf - mf)
            i, j = v.idx("i", w.npar), v.idx("j", w.npar)
            C = o.a["covariance_matrices"]
            if covs:
                v.eq("covariance-of-that-source", C.at(r, i, j), bc.at(k, i, j))
            v.ob("other-covariances", z3.Implies(z3.Not(inA(p)), C.at(p, i, j) == w.cov0(p, i, j)) if covs else C.at(p, i, j) == w.cov0(p, i, j))
            s = v.idx("s", 2)
            for c in w.par:
                B = N.as_nd(v.I.getitem(o.a["bounds_catalog"], c))
                if bounds:
                    v.eq(f"bounds-of-that-source-{c}", B.at(r, s), nb[c].at(k, s))
                v.ob(f"other-bounds-{c}", z3.Implies(z3.Not(inA(p)), B.at(p, s) == w.bnd0[c](p, s)) if bounds else B.at(p, s) == w.bnd0[c](p, s))
        v.run(th, post)
    body.__name__ = "checkin" + "".join(n for n, c in zip(("_fixed", "_covs", "_bounds"), case) if c)
    return body


for _c in ((False, False, False), (True, True, False), (True, True, True)):
    contract(M + ":SuperScene.checkin_region")(checkin(_c))


@contract(M + ":SuperScene.reset")
def reset(v):
    w = World(v)

    def th():
        o = w.obj()
        v.call(v.method(o, "reset"))
        return o

    def post(o):
        p = v.idx("p", w.n)
        for c, x in (("is_valid", 1), ("is_active", 0), ("n_iter", 0), ("n_patch", 0)):
            v.eq(c, w.col(o, c).at(p), x)
        for c in w.par:
            v.eq(f"parameters-kept-{c}", w.col(o, c).at(p), w.old[c](p))
        v.eq("index-kept", w.col(o, "source_index").at(p), p)
        v.eq("n_active", o.a["n_active"], 0)
        v.eq("n_fixed", o.a["n_fixed"], 0)
        i, j = v.idx("i", w.npar), v.idx("j", w.npar)
        v.eq("covariances-kept", o.a["covariance_matrices"].at(p, i, j), w.cov0(p, i, j))
    v.run(th, post)


def marks(v, w, o, A, m, inA, F, mf, inF, act, fix):
    p, k = v.idx("p", w.n), v.idx("k", m)
    for c in w.par + ["n_iter", "n_patch", "source_index"]:
        v.eq(f"catalog-kept-{c}", w.col(o, c).at(p), w.old[c](p))
    v.ob("marked-active", z3.Implies(inA(p), w.col(o, "is_active").at(p) == 1))
    v.ob("others-not", z3.Implies(z3.Not(inA(p)), w.col(o, "is_active").at(p) == w.old["is_active"](p)))
    v.ob("unavailable", z3.Implies(z3.Or(inA(p), inF(p)), w.col(o, "is_valid").at(p) == 0))
    v.ob("others-availability", z3.Implies(z3.Not(z3.Or(inA(p), inF(p))), w.col(o, "is_valid").at(p) == w.old["is_valid"](p)))
    v.eq("n_active", o.a["n_active"], w.na + m)
    v.eq("n_fixed", o.a["n_fixed"], w.nf + mf)
    for c in w.par + ["source_index"]:
        v.eq(f"active-rows-{c}", N.as_nd(v.I.getitem(act, c)).at(k), w.old[c](A.at(k)))
    v.eq("active-count", N.np_len(act), m)
    if fix is not None:
        q = v.idx("q", mf)
        for c in w.par + ["source_index"]:
            v.eq(f"fixed-rows-{c}", N.as_nd(v.I.getitem(fix, c)).at(q), w.old[c](F.at(q)))
        v.eq("fixed-count", N.np_len(fix), mf)


@contract(M + ":SuperScene.checkout_region")
def checkout(v):
    """a valid patch: exactly its active sources are marked active (none was before: contract of get_circular_scene), they and
    the fixed ones become unavailable, the rows are handed out unchanged; nothing else changes"""
    w = World(v)
    m, A, pa, inA = w.inds("A")
    mf, F, pf, inF = w.inds("F")
    v.assume(v.forall((m,), lambda k: w.old["is_active"](A.at(k)) == 0))
    ra, dec, rad, seed = v.real("cra"), v.real("cdec"), v.real("radius"), v.int("seed")
    lon, lat = z3.Function("lon", T.R, T.R, T.R), z3.Function("lat", T.R, T.R, T.R)
    box = {}

    def th():
        def draw(seed_index=-1):
            v.eq("seed-handed-on", seed_index, seed)
            return (ra, dec)

        def circ(c):
            v.eq("patch-centred-on-the-seed-x", c[0], lon(ra, dec))
            v.eq("patch-centred-on-the-seed-y", c[1], lat(ra, dec))
            return (rad, A, F)
        o = w.obj(draw_center=draw, sky_to_scene=lambda r, d: (lon(r, d), lat(r, d)), get_circular_scene=circ)
        box["o"] = o
        return v.call(v.method(o, "checkout_region"), seed_index=seed)

    def post(r):
        reg, act, fix = r
        for k, want in (("ra", ra), ("dec", dec), ("radius", rad / 3600)):
            v.eq("region-" + k, reg.a[k], want)
        marks(v, w, box["o"], A, m, inA, F, mf, inF, act, fix)
    v.run(th, post)


@contract(M + ":SuperScene.checkout_region")
def checkout_refused(v):
    """an invalid patch changes nothing"""
    w = World(v)
    box = {}

    def th():
        o = w.obj(draw_center=lambda seed_index=-1: (v.real("ra"), v.real("dec")), sky_to_scene=lambda r, d: (r, d),
                  get_circular_scene=lambda c: (None, None, None))
        box["o"] = o
        return v.call(v.method(o, "checkout_region"))

    def post(r):
        o, p = box["o"], v.idx("p", w.n)
        v.ob("nothing-handed-out", r[1] is None and r[2] is None)
        for c in w.par + list(FLAGS):
            v.eq(f"kept-{c}", w.col(o, c).at(p), w.old[c](p))
        v.eq("n_active", o.a["n_active"], w.na)
        v.eq("n_fixed", o.a["n_fixed"], w.nf)
    v.run(th, post)


@contract(M + ":LinkedSuperScene.checkout_region")
def linked_checkout(v):
    w = World(v)
    m, A, pa, inA = w.inds("A")
    mf, F, pf, inF = w.inds("F")
    v.assume(v.forall((m,), lambda k: w.old["is_active"](A.at(k)) == 0))
    seed = v.int("seed", lo=0)
    reg = S.Obj(None, "region")
    box = {}

    def th():
        def grow(s, mx=None):
            v.eq("seed-handed-on", s, seed)
            return (reg, A, F)
        o = w.obj("LinkedSuperScene", grow_scene=grow)
        box["o"] = o
        return v.call(v.method(o, "checkout_region"), seed_index=seed)

    def post(r):
        v.ob("region", r[0] is reg)
        marks(v, w, box["o"], A, m, inA, F, mf, inF, r[1], r[2])
    v.run(th, post)


@contract(M + ":LinkedSuperScene.checkout_region")
def linked_refused(v):
    w = World(v)
    box = {}

    def th():
        o = w.obj("LinkedSuperScene", grow_scene=lambda s, mx=None: (("ra", "dec"), None, None))
        box["o"] = o
        return v.call(v.method(o, "checkout_region"), seed_index=v.int("seed", lo=0))

    def post(r):
        o, p = box["o"], v.idx("p", w.n)
        v.ob("nothing-handed-out", r[1] is None and r[2] is None)
        for c in w.par + list(FLAGS):
            v.eq(f"kept-{c}", w.col(o, c).at(p), w.old[c](p))
        v.eq("n_active", o.a["n_active"], w.na)
        v.eq("n_fixed", o.a["n_fixed"], w.nf)
    v.run(th, post)


@contract(M + ":SuperScene.set_catalog")
def set_catalog(v):
    """every source available, none active, indexed by its row; parameters untouched"""
    w = World(v)
    w.old["source_index"] = N.snap(v.arr("c_si", (w.n,), "int"))
    w.cat = S.Rec((w.n,), {k: (N.mk_nd((w.n,), f, "int" if k in FLAGS else "real").buf, ()) for k, f in w.old.items()}, None, name="sourcecat")

    def th():
        o = v.obj(M + ":SuperScene", bands=S.SList(list(w.bands)), shape_cols=S.SList(list(w.shapes)))
        v.call(v.method(o, "set_catalog"), w.cat)
        return o

    def post(o):
        p = v.idx("p", w.n)
        v.eq("n_sources", o.a["n_sources"], w.n)
        v.eq("row-index", w.col(o, "source_index").at(p), p)
        v.eq("available", w.col(o, "is_valid").at(p), 1)
        v.eq("none-active", w.col(o, "is_active").at(p), 0)
        for c in w.par + ["n_iter", "n_patch"]:
            v.eq(f"kept-{c}", w.col(o, c).at(p), w.old[c](p))
    v.run(th, post)


@contract(M + ":SuperScene.bounds_and_covs")
def bounds_and_covs(v):
    """the bounds and covariances handed to a child are those of the requested sources, in the requested order"""
    w = World(v)
    m, A, pa, inA = w.inds("A")
    got = {}

    def th():
        o = w.obj()
        v.stub("scipy.linalg:block_diag", lambda I, *covs: got.setdefault("covs", covs) and S.Obj(None, "cov"))
        return v.call(v.method(o, "bounds_and_covs"), A)

    def post(r):
        k, s = v.idx("k", m), v.idx("s", 2)
        for c in w.par:
            v.eq(f"bounds-{c}", N.as_nd(v.I.getitem(r[0], c)).at(k, s), w.bnd0[c](A.at(k), s))
        st = got["covs"][0]
        if len(got["covs"]) != 1 or not isinstance(st, S.Star):
            raise Unsupported("blocks")
        i, j = v.idx("i", w.npar), v.idx("j", w.npar)
        v.eq("blocks", st.seq.n, m)
        v.eq("block-of-that-source", N.as_nd(st.seq.at(k)).at(i, j), w.cov0(A.at(k), i, j))
    v.run(th, post)


def weights(meth):
    def body(v):
        """active sources can never be drawn as a seed (as long as some source is available)"""
        w = World(v)
        some = v.int("some")
        v.assume(some >= 0, some < w.n, w.old["is_active"](some) == 0)

        def th():
            return v.call(v.method(w.obj(target_niter=v.int("target", lo=1)), meth))

        def post(r):
            p = v.idx("p", w.n)
            v.is_shape("shape", r, (w.n,))
            v.ob("active-sources-have-no-weight", z3.Implies(w.old["is_active"](p) != 0, r.at(p) == 0))
        v.run(th, post)
    body.__name__ = meth
    return body


contract(M + ":SuperScene.exp_weight")(weights("exp_weight"))
contract(M + ":SuperScene.sigmoid_weight")(weights("sigmoid_weight"))
BOUNDED = ["two bands (every column is treated alike; the number of sources, regions and calls is unbounded)"]


@contract(M + ":SuperScene.draw_center", M + ":SuperScene.seed_weight")
def seeds(v):
    """a requested seed is used; otherwise the seed is drawn among the sources with the weights of seed_weight; the centre is the seed's own position"""
    w = World(v)
    s, drawn = v.int("seed", lo=-1), v.idx("drawn", w.n)
    v.assume(s < w.n)
    wt = v.arr("weights", (w.n,))
    box = {}

    def th():
        box.clear()
        def choice(I, a, p=None, **kw):
            box["n"], box["p"] = a, p
            return drawn
        v.stub("numpy.random:choice", choice, optional=True)
        o = w.obj(exp_weight=lambda: wt)
        return v.call(v.method(o, "draw_center"), seed_index=s)

    def post(r):
        k = T.ite(s >= 0, s, drawn)
        v.eq("ra", r[0], w.old["ra"](k))
        v.eq("dec", r[1], w.old["dec"](k))
        if "p" in box:
            v.ob("only-without-a-request", s < 0)
            v.eq("among-all-sources", box["n"], w.n)
            i = v.idx("i", w.n)
            v.eq("weights", box["p"].at(i), wt.at(i))
        else:
            v.ob("drawn-without-a-request", s >= 0)
    v.run(th, post)


@contract(M + ":SuperScene.sparse", M + ":SuperScene.undone")
def stopping(v):
    """sparse: the active fraction is below the maximum; undone: some source has fewer iterations (in absolute value) than the target"""
    w = World(v)
    mx, target = v.real("maxactive_fraction"), v.int("target_niter")

    def th():
        o = w.obj(maxactive_fraction=mx, target_niter=target)
        return v.I.getattr(o, "sparse"), v.I.getattr(o, "undone")

    def post(r):
        v.ob("sparse", T.to_bool(r[0]) == (T.to_real(w.na) < mx * T.to_real(w.n)))
        i = v.idx("i", w.n)
        it = w.old["n_iter"]
        v.ob("undone-if-a-source-is", z3.Implies(z3.If(it(i) < 0, -it(i), it(i)) < target, T.to_bool(r[1])))
        j = z3.Int("j")
        v.ob("undone-only-if-a-source-is", z3.Implies(T.to_bool(r[1]), z3.Exists([j], z3.And(
            0 <= j, j < w.n, z3.If(it(j) < 0, -it(j), it(j)) < target))))
    v.run(th, post)


@contract(M + ":SuperScene.ingest")
def ingestion(v):
    """the catalog is set, the tree is built on its scene coordinates, the bounds are made with the given settings, and every source
    starts with an identity covariance and empty logs"""
    w = World(v)
    xy = v.arr("xy", (w.n, 2))
    box = {}

    def th():
        box.clear()
        o = w.obj()
        del o.a["covariance_matrices"], o.a["sourcelog"], o.a["patchlog"], o.a["bounds_catalog"]

        def setc(cat):
            box["cat"] = cat
            o.a["sourcecat"], o.a["n_sources"], o.a["_scene_coordinates"] = cat, w.n, xy
        o.a["set_catalog"] = setc
        bounds = S.Obj(None, "bounds")

        def mk(I, cat, bands, shapenames=None, **kw):
            box["mk"] = (cat, list(I.to_pylist(bands)), list(I.to_pylist(shapenames)), kw)
            return bounds

        def tree(I, c, **kw):
            box["tree"] = c
            return S.Obj(None, "tree")
        v.stub(M + ":make_bounds", mk)
        v.stub("scipy.spatial:cKDTree", tree)
        v.call(v.method(o, "ingest"), w.cat, n_pix=v.real("n_pix"), dpos=7)
        return o

    def post(o):
        i = v.idx("i", w.n)
        a, b = v.idx("a", w.npar), v.idx("b", w.npar)
        v.soft("catalog-set", box["cat"] is w.cat)
        v.soft("bounds-catalog", box["mk"][0] is w.cat)
        v.ob("bounds-bands", box["mk"][1] == w.bands and box["mk"][2] == w.shapes)
        v.ob("bounds-settings", set(box["mk"][3]) == {"n_pix", "dpos"} and box["mk"][3]["dpos"] == 7)
        v.eq("bounds-n-pix", box["mk"][3]["n_pix"], v.real("n_pix"))
        v.eq("tree-coordinates", [N.as_nd(box["tree"]).at(i, 0), N.as_nd(box["tree"]).at(i, 1)], [xy.at(i, 0), xy.at(i, 1)])
        c = o.a["covariance_matrices"]
        v.is_shape("covariance-shape", c, (w.n, w.npar, w.npar))
        v.eq("identity", c.at(i, a, b), z3.If(a == b, T.rv(1), T.rv(0)))
        v.ob("empty-logs", len(o.a["sourcelog"].d) == 0 and len(o.a["patchlog"].v) == 0)
    v.run(th, post)


@contract(M + ":SuperScene.sky_to_scene", M + ":SuperScene.scene_frame", M + ":SuperScene.scene_coordinates")
def scene_frame(v):
    """scene coordinates are arcseconds of longitude, then latitude, in one fixed frame about the sources; row i belongs to source i, and
    they are computed once, whatever happens to the catalog afterwards"""
    w = World(v)
    lon, lat = (z3.Function(k, T.R, T.R, T.R) for k in ("lon_of", "lat_of"))
    frames = []

    def el(f, ra, dec):
        if N.is_scalar(ra):
            return f(T.to_real(ra), T.to_real(dec))
        a, b = N.snap(N.as_nd(ra)), N.snap(N.as_nd(dec))
        return N.mk_nd(N.as_nd(ra).shape, lambda *ix: f(T.to_real(a(*ix)), T.to_real(b(*ix))), "real")

    def th():
        frames.clear()

        def sky(I, ra, dec, unit=None, **kw):
            if unit != "deg":
                raise Unsupported("other unit")

            def frame():
                frames.append(S.Obj(None, "frame"))
                return frames[-1]

            def to(fr):
                if not frames or fr is not frames[0]:
                    raise Unsupported("another frame")
                return S.Obj(None, "xy", lon=S.Obj(None, "lon", arcsec=el(lon, ra, dec)), lat=S.Obj(None, "lat", arcsec=el(lat, ra, dec)))
            return S.Obj(None, "coord", skyoffset_frame=frame, transform_to=to)
        v.stub("astropy.coordinates:SkyCoord", sky)
        o = w.obj()
        o.partial = False
        c1 = v.I.getattr(o, "scene_coordinates")
        one = v.call(v.method(o, "sky_to_scene"), v.real("ra"), v.real("dec"))
        c2 = v.I.getattr(o, "scene_coordinates")
        return c1, one, c2

    def post(r):
        c1, one, c2 = r
        i = v.idx("i", w.n)
        v.soft("one-frame", len(frames) == 1)
        v.is_shape("shape", c1, (w.n, 2))
        v.eq("row", [c1.at(i, 0), c1.at(i, 1)], [lon(w.old["ra"](i), w.old["dec"](i)), lat(w.old["ra"](i), w.old["dec"](i))])
        v.eq("point", [one[0], one[1]], [lon(v.real("ra"), v.real("dec")), lat(v.real("ra"), v.real("dec"))])
        v.eq("kept", [c2.at(i, 0), c2.at(i, 1)], [c1.at(i, 0), c1.at(i, 1)])
    v.run(th, post)
