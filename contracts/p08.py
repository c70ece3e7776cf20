"""P08: source and scene parameter vectors round-trip without loss or mixing."""
import itertools
from ve.spec import *

M = "forcepho.sources"
TRUSTED = ["scipy RectBivariateSpline(n, r, dx, dy) evaluates the spline and its partial derivatives"]
BOUNDED = ["catalog round trip, Scene.from_catalog and param_indices: up to three sources and two bands (rows and bands are treated alike)"]
COLS = {"Source": None, "Galaxy": None, "Star": None, "SimpleGalaxy": None, "ConformalShearGalaxy": None}


def names(v, nb):
    code = z3.Function("bandcode", T.I, T.I)
    i, j = z3.Ints("bi bj")
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nb), code(i) != code(j))))
    return S.SList(S.Seq(nb, lambda k: S.Name(code(T.to_int(k)))))


def cols(v, cls, fixed_profile=False):
    c = v.I.resolve(f"{M}:{cls}")
    l = list(v.I.getattr(c, "SHAPE_COLS").v)
    return l[:4] if fixed_profile else l


ORDER = {"Star": ["ra", "dec"], "SimpleGalaxy": ["ra", "dec", "q", "pa"], "Galaxy": ["ra", "dec", "q", "pa", "sersic", "rhalf"],
         "ConformalShearGalaxy": ["ra", "dec", "ep", "ec", "sersic", "rhalf"], "Source": ["ra", "dec", "q", "pa", "rhalf", "sersic"]}


def source(v, cls, nb, free=True, tag=""):
    a = {c: v.real(tag + c) for c in ("ra", "dec", "q", "pa", "ep", "ec", "sersic", "rhalf")}
    f0 = N.snap(v.arr(tag + "flux", (nb,)))
    o = dict(a, flux=N.mk_nd((nb,), f0, "real"), filternames=names(v, nb))
    if not free:
        o.update(nshape=2, SHAPE_COLS=S.SList(ORDER[cls][:4]))
    return v.obj(f"{M}:{cls}", **o), a, f0


def setting(cls, free, single):
    def body(v):
        """set then get is the identity; fluxes by band first, then shapes; a single-band vector touches only that flux"""
        nb = v.int("nb", lo=1)
        want = ORDER[cls] if free else ORDER[cls][:4]
        nf = 1 if single else nb
        ln = nf + len(want)
        p0 = N.snap(v.arr("theta", (ln,)))
        b = v.idx("band", nb)

        def th():
            o, a, f0 = source(v, cls, nb, free)
            kw = {"filtername": v.I.getitem(o.a["filternames"], b)} if single else {}
            v.call(v.method(o, "set_params"), N.mk_nd((ln,), p0, "real"), **kw)
            return o, a, f0, v.call(v.method(o, "get_param_vector"), **kw)

        def post(r):
            o, a, f0, g = r
            i = v.idx("i", nf)
            v.is_shape("vector-length", g, (ln,))
            v.eq("flux-round-trip", g.at(i), p0(i))
            for k, c in enumerate(want):
                v.eq("shape-round-trip-" + c, g.at(nf + k), p0(nf + k))
                v.eq("attribute-" + c, o.a[c], p0(nf + k))
            for c in a:
                if c not in want:
                    v.eq("untouched-" + c, o.a[c], a[c])
            fl = N.as_nd(o.a["flux"])
            v.is_shape("flux-length", fl, (nb,))
            j = v.idx("j", nb)
            if single:
                v.eq("flux-of-band", fl.at(b), p0(0))
                v.ob("other-bands-kept", z3.Implies(j != b, fl.at(j) == f0(j)))
            else:
                v.eq("fluxes", fl.at(j), p0(j))
        v.run(th, post)
    body.__name__ = f"set_get_{cls}" + ("" if free else "_fixedprofile") + ("_oneband" if single else "")
    return body


for _c in ORDER:
    for _s in (False, True):
        if _c == "Source":
            continue
        contract(f"{M}:{_c}.set_params", f"{M}:{_c}.get_param_vector", f"{M}:Source.filter_index", f"{M}:Source.n_bands")(setting(_c, True, _s))
contract(f"{M}:Galaxy.set_params", f"{M}:Galaxy.get_param_vector")(setting("Galaxy", False, False))


def wrong_length(cls):
    def body(v):
        """a vector of the wrong length is refused and nothing is set"""
        nb, ln = v.int("nb", lo=1), v.int("ln", lo=0)
        v.assume(ln != nb + len(ORDER[cls]))
        p = v.arr("theta", (ln,))
        st = {}

        def th():
            st["o"] = source(v, cls, nb)
            v.call(v.method(st["o"][0], "set_params"), p)
            return st["o"]

        def post(r):
            v.ob("refused", False)

        def raises(e):
            o, a, f0 = st["o"]
            v.eq("assertion", e.etype, "AssertionError")
            for c in ORDER[cls]:
                v.eq("kept", o.a[c], a[c])
        v.run(th, post, raises)
    body.__name__ = "wrong_length_" + cls
    return body


for _c in ("Star", "SimpleGalaxy", "Galaxy", "ConformalShearGalaxy"):
    contract(f"{M}:{_c}.set_params")(wrong_length(_c))


def family(v, n, nb, fixed):
    cls = v.I.resolve(M + ":Galaxy")
    f = S.Fam(cls, n, "source")
    old = {}
    for c in ORDER["Galaxy"]:
        x = v.arr("s_" + c, (n,))
        old[c] = N.snap(x)
        f.attrs[c] = N.mk_nd((n,), old[c], "real").buf
    old["flux"] = N.snap(v.arr("s_flux", (n, nb)))
    f.attrs["flux"] = ("nd", N.mk_nd((n, nb), old["flux"], "real").buf, (nb,))
    f.attrs["filternames"] = ("const", names(v, nb))
    f.attrs["n_bands"] = ("const", nb)
    f.attrs["npos"], f.attrs["nshape"] = ("const", 2), ("const", 4)
    f.attrs["n_params"] = ("const", 6 + nb)
    fx = z3.Function("fixed", T.I, z3.BoolSort())
    f.attrs["fixed"] = ("const", False) if not fixed else ("fn", lambda i: fx(T.to_int(i)))
    return f, old, fx


@contract(M + ":Scene.set_all_source_params", M + ":Scene.get_all_source_params", M + ":Scene.active_sources")
def scene_active(v):
    """all sources active: source k gets exactly the k-th block of the vector, and reading back gives the vector"""
    n, nb = v.int("n", lo=1), v.int("nb", lo=1)
    np_ = nb + 6
    t0 = N.snap(v.arr("Theta", (n * np_,)))

    def th():
        f, old, fx = family(v, n, nb, False)
        sc = v.obj(M + ":Scene", sources=S.SList(S.Seq(n, f.obj, "keep")))
        v.call(v.method(sc, "set_all_source_params"), N.mk_nd((n * np_,), t0, "real"))
        return f, v.call(v.method(sc, "get_all_source_params"))

    def post(r):
        f, g = r
        s, b = v.idx("s", n), v.idx("b", nb)
        o = f.obj(s)
        fl = N.as_nd(v.I.getattr(o, "flux"))
        v.eq("flux", fl.at(b), t0(s * np_ + b))
        for k, c in enumerate(ORDER["Galaxy"]):
            v.eq("shape-" + c, v.I.getattr(o, c), t0(s * np_ + nb + k))
        v.is_shape("vector-length", g, (n * np_,))
        j = v.idx("j", np_)
        v.eq("round-trip", g.at(s * np_ + j), t0(s * np_ + j))
    v.run(th, post)


@contract(M + ":Scene.set_all_source_params", M + ":Scene.get_all_source_params", M + ":Scene.active_sources")
def scene_mixed(v):
    """any subset fixed: the k-th active source gets the k-th block, fixed sources keep their values"""
    n, nb = v.int("n", lo=1), v.int("nb", lo=1)
    np_ = nb + 6
    fx = z3.Function("fixed", T.I, z3.BoolSort())
    st = {}

    def th():
        f, old, _ = family(v, n, nb, True)
        fl = N.filt(n, lambda i: z3.Not(fx(T.to_int(i))))
        v.assume(fl.cnt >= 1)
        t0 = N.snap(v.arr("Theta", (fl.cnt * np_,)))
        sc = v.obj(M + ":Scene", sources=S.SList(S.Seq(n, f.obj, "keep")))
        v.call(v.method(sc, "set_all_source_params"), N.mk_nd((fl.cnt * np_,), t0, "real"))
        return f, old, fl, t0, v.call(v.method(sc, "get_all_source_params"))

    def post(r):
        f, old, fl, t0, g = r
        s, b = v.idx("s", n), v.idx("b", nb)
        o = f.obj(s)
        act = z3.Not(fx(s))
        k = fl.rank(s)
        flx = N.as_nd(v.I.getattr(o, "flux")).at(b)
        v.ob("flux-of-active", z3.Implies(act, flx == t0(k * np_ + b)))
        v.ob("flux-of-fixed-kept", z3.Implies(fx(s), flx == old["flux"](s, b)))
        for j, c in enumerate(ORDER["Galaxy"]):
            x = v.I.getattr(o, c)
            v.ob("shape-of-active-" + c, z3.Implies(act, x == t0(k * np_ + nb + j)))
            v.ob("shape-of-fixed-kept-" + c, z3.Implies(fx(s), x == old[c](s)))
        v.is_shape("vector-length", g, (fl.cnt * np_,))
        q, j = v.idx("q", fl.cnt), v.idx("j", np_)
        v.touch(q)
        v.eq("round-trip", g.at(q * np_ + j), t0(q * np_ + j))
    v.run(th, post)


def spline_source(v, nb, ng, lens):
    """a galaxy with ng splines; each spline an arbitrary differentiable surface"""
    A, Dx, Dy = (z3.Function(k, T.I, T.R, T.R, T.R) for k in ("A", "dA_dn", "dA_dr"))

    def spl(g):
        def call(n, r, dx=0, dy=0):
            F = A if (dx, dy) == (0, 0) else Dx if (dx, dy) == (1, 0) else Dy if (dx, dy) == (0, 1) else None
            if F is None:
                raise Unsupported("spline derivative order")
            return N.mk_nd((1, 1), lambda i, j: F(T.to_int(g), T.to_real(n), T.to_real(r)), "real")
        return S.Obj(None, "spline", __call__=call)
    nf, nm = lens
    par = {c: v.real(c) for c in ORDER["Galaxy"]}
    f0 = N.snap(v.arr("flux", (nb,)))
    old = {"fluxes": N.snap(v.arr("o_fl", (1, nf)))}
    fields = {"fluxes": (N.mk_nd((1, nf), old["fluxes"], "real").buf, (nf,))}
    for k in ("mixture_amplitudes", "damplitude_drh", "damplitude_dnsersic"):
        old[k] = N.snap(v.arr("o_" + k, (1, nm)))
        fields[k] = (N.mk_nd((1, nm), old[k], "real").buf, (nm,))
    for k in ("ra", "dec", "q", "pa", "nsersic", "rh"):
        fields[k] = (N.mk_nd((1,), N.snap(v.arr("o_" + k, (1,))), "real").buf, ())
    rec = S.Rec((1,), fields, None, name="proposal")
    radii = v.arr("radii", (ng,))
    lo = v.real("sersic_min")
    o = v.obj(M + ":Galaxy", flux=N.mk_nd((nb,), f0, "real"), filternames=names(v, nb), radii=radii, proposal_struct=rec,
              splines=S.SList(S.Seq(ng, spl, "keep")), sersic_range=(lo, v.real("sersic_max")), rh_range=(v.real("rmin"), v.real("rmax")), **par)
    return o, par, f0, old, rec, radii, lo, (A, Dx, Dy)


@contract(M + ":Galaxy.proposal", M + ":Galaxy.amplitudes", M + ":Galaxy.damplitude_dsersic", M + ":Galaxy.damplitude_drh",
          M + ":Source.n_gauss", M + ":Source.n_bands")
def proposal(v):
    """the structure holds exactly the source's values; amplitudes and derivatives are the spline's at (sersic, rhalf)"""
    nb, ng, nf, nm = v.int("nb", lo=1), v.int("ng", lo=2), v.int("nf", lo=1), v.int("nm", lo=1)
    v.assume(nb <= nf, ng <= nm)
    st = {}

    def th():
        st["s"] = spline_source(v, nb, ng, (nf, nm))
        return v.call(v.method(st["s"][0], "proposal"))

    def post(r):
        o, par, f0, old, rec, radii, lo, (A, Dx, Dy) = st["s"]
        g = lambda c: N.as_nd(v.I.getitem(r, c))
        b, k = v.idx("b", nf), v.idx("k", nm)
        v.eq("flux", g("fluxes").at(0, b), z3.If(b < nb, f0(b), old["fluxes"](0, b)))
        for c, d in (("ra", "ra"), ("dec", "dec"), ("q", "q"), ("pa", "pa"), ("nsersic", "sersic"), ("rh", "rhalf")):
            v.eq(c, g(c).at(0), par[d])
        n, rr = par["sersic"], par["rhalf"]
        plain = z3.And(n >= lo, rr >= 0)
        v.ob("amplitudes", z3.Implies(z3.And(plain, k < ng), g("mixture_amplitudes").at(0, k) == A(k, n, rr)))
        v.ob("amplitude-derivative-radius", z3.Implies(k < ng, g("damplitude_drh").at(0, k) == z3.If(plain, Dy(k, n, rr), 0)))
        v.ob("amplitude-derivative-sersic", z3.Implies(k < ng, g("damplitude_dnsersic").at(0, k) == z3.If(plain, Dx(k, n, rr), 0)))
        for c in ("mixture_amplitudes", "damplitude_drh", "damplitude_dnsersic"):
            v.ob("unused-" + c, z3.Implies(k >= ng, g(c).at(0, k) == old[c](0, k)))
        v.ob("negative-radius-is-a-point", z3.Implies(z3.And(n >= lo, rr < 0, k < ng), g("mixture_amplitudes").at(0, k) == z3.If(k == 0, z3.RealVal(1), 0)))
    v.run(th, post)


def catalogs(cls, extra):
    def body(v):
        """catalog -> scene -> catalog gives the same rows; each source is its own row; input kept"""
        for ns in (1, 2, 3):
            bands, shp = ["F1", "F2"], ORDER[cls]
            cc = bands + shp + list(extra)
            old = {c: N.snap(v.arr("c_" + c, (ns,))) for c in cc}
            cat = S.Rec((ns,), {c: (N.mk_nd((ns,), old[c], "real").buf, ()) for c in cc}, None, name="cat")
            v.stub(M + ":Galaxy.initialize_splines", lambda I, *a, **k: None, optional=True)

            def th():
                sc = v.call(M + ":Scene", catalog=cat, filternames=S.SList(list(bands)), source_type=v.I.resolve(f"{M}:{cls}"),
                            extra_parameters=S.SList(list(extra)))
                return sc, v.call(v.method(sc, "to_catalog"), extra_cols=S.SList(list(extra)))

            def post(r):
                sc, out = r
                v.eq("one-source-per-row", N.np_len(sc.a["sources"]), ns)
                v.eq("one-row-per-source", N.np_len(out), ns)
                for i in range(ns):
                    s = sc.a["sources"].v[i]
                    v.eq("identifier", s.a["id"], i)
                    for c in shp:
                        v.eq(c, s.a[c], old[c](i))
                    for j, b in enumerate(bands):
                        v.eq("flux", N.as_nd(s.a["flux"]).at(j), old[b](i))
                    for c in cc:
                        v.eq("same-catalog-" + c, N.as_nd(v.I.getitem(out, c)).at(i), old[c](i))
                        v.eq("input-kept", N.as_nd(v.I.getitem(cat, c)).at(i), old[c](i))
                    v.eq("catalog-id", N.as_nd(v.I.getitem(out, "id")).at(i), i)
            v.run(th, post)
    body.__name__ = f"catalog_{cls}" + ("_extra" if extra else "")
    return body


for _c, _e in (("Galaxy", ()), ("Galaxy", ("roi",)), ("Star", ()), ("SimpleGalaxy", ())):
    contract(M + ":Scene.from_catalog", M + ":Scene.to_catalog", M + ":Source.from_catalog_row", M + ":Source.to_catalog_row",
             M + ":Scene.__init__", M + ":Scene.identify_sources", bounded=True)(catalogs(_c, _e))


@contract(M + ":Scene.param_indices", bounded=True)
def indices(v):
    """the positions of a source's parameters in the active vector, for every pattern of fixed sources and every band"""
    classes = ["Galaxy", "Star", "SimpleGalaxy"]
    bands = ["F1", "F2"]
    for ns in (1, 2, 3):
        for kinds in itertools.product(classes, repeat=ns):
            for fixed in itertools.product((False, True), repeat=ns):
                def th():
                    ss = [v.obj(f"{M}:{c}", filternames=S.SList(list(bands)), fixed=f) for c, f in zip(kinds, fixed)]
                    return v.obj(M + ":Scene", sources=S.SList(ss))

                def post(sc):
                    m = v.method(sc, "param_indices")
                    start = 0
                    for i, (c, f) in enumerate(zip(kinds, fixed)):
                        npar = 2 + len(ORDER[c])
                        if not f:
                            v.eq("all", list(v.I.to_pylist(v.call(m, i))), list(range(start, start + npar)))
                            for j, b in enumerate(bands):
                                v.eq("one-band", list(v.I.to_pylist(v.call(m, i, filtername=b))), [start + j] + list(range(start + 2, start + npar)))
                            start += npar
                v.run(th, post)


@contract(M + ":Scene.get_proposal", bounded=True)
def scene_proposal(v):
    """the proposal of a scene: one row per active source in source order"""
    for fixed in itertools.product((False, True), repeat=3):
        for active in (True, False):
            want = [i for i in range(3) if fixed[i] != active]
            if not want:
                continue

            def th():
                ss = []
                for i in range(3):
                    rec = S.Rec((1,), {"ra": (N.mk_nd((1,), lambda k, i=i: z3.Real(f"ra_{i}"), "real").buf, ())}, None, name="p")
                    ss.append(S.Obj(None, "source", fixed=fixed[i], proposal=lambda rec=rec: rec))
                sc = v.obj(M + ":Scene", sources=S.SList(ss))
                return v.call(v.method(sc, "get_proposal"), active=active)

            def post(r):
                v.eq("rows", N.np_len(r), len(want))
                for k, i in enumerate(want):
                    v.eq("row", N.as_nd(v.I.getitem(r, "ra")).at(k), z3.Real(f"ra_{i}"))
            v.run(th, post)


def mixing(cls, fixed):
    def body(v):
        """sources made from a catalog share no state: setting the scene vector gives each active source its own block"""
        ns, bands, shp = len(fixed), ["F1", "F2"], ORDER[cls]
        npar = len(bands) + len(shp)
        old = {c: N.snap(v.arr("c_" + c, (ns,))) for c in bands + shp}
        cat = S.Rec((ns,), {c: (N.mk_nd((ns,), old[c], "real").buf, ()) for c in bands + shp}, None, name="cat")
        v.stub(M + ":Galaxy.initialize_splines", lambda I, *a, **k: None, optional=True)
        act = [i for i in range(ns) if not fixed[i]]
        t0 = N.snap(v.arr("Theta", (npar * len(act),)))

        def th():
            sc = v.call(M + ":Scene", catalog=cat, filternames=S.SList(list(bands)), source_type=v.I.resolve(f"{M}:{cls}"))
            for i in range(ns):
                v.I.setattr(sc.a["sources"].v[i], "fixed", fixed[i])
            v.call(v.method(sc, "set_all_source_params"), N.mk_nd((npar * len(act),), t0, "real"))
            return sc, v.call(v.method(sc, "get_all_source_params"))

        def post(r):
            sc, g = r
            for i in range(ns):
                s = sc.a["sources"].v[i]
                for j, c in enumerate(bands + shp):
                    x = N.as_nd(s.a["flux"]).at(j) if c in bands else v.I.getattr(s, c)
                    v.eq("value-" + c, x, old[c](i) if fixed[i] else t0(act.index(i) * npar + j))
            v.is_shape("vector", g, (npar * len(act),))
            for k in range(npar * len(act)):
                v.eq("round-trip", g.at(k), t0(k))
        v.run(th, post)
    body.__name__ = f"mixing_{cls}_" + "".join("f" if x else "a" for x in fixed)
    return body


for _c in ("Galaxy", "Star", "SimpleGalaxy"):
    for _f in ((False, False, False), (False, True, False), (True, False, False)):
        contract(M + ":Scene.from_catalog", M + ":Scene.set_all_source_params", M + ":Scene.get_all_source_params", f"{M}:{_c}.__init__" if _c == "Galaxy" else M + ":Source.__init__",
                 bounded=True)(mixing(_c, _f))
