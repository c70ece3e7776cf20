"""P13: metadata and device structures describe the packed scene exactly and in bounds."""
from ve.spec import *
from ve import cxx
from contracts.kern import K

TRUSTED = ["pycuda.driver (contract cuda_patch): to_device copies an array as it is, memory is valid until freed",
           "scale_at_sky's contract (P15)", "the median is some number (its value only shifts the reference)",
           "PSFStore.get_local_psf returns the mixture of the band (P16), of the length the store declares"]
M = "forcepho.patches.patch"


def fam(v, n, name="source", cls=None, **attrs):
    f = S.Fam(cls, n, name)
    for k, a in attrs.items():
        f.attrs[k] = a
    return f


def sources(v, n):
    """n sources with positions of their own"""
    ra0, dec0 = v.arr("ra0", (n,)), v.arr("dec0", (n,))
    f = S.Fam(None, n, "source")
    f.attrs["ra"] = N.mk_nd((n,), N.snap(ra0), "real").buf
    f.attrs["dec"] = N.mk_nd((n,), N.snap(dec0), "real").buf
    seq = S.SList(S.Seq(n, lambda i: f.obj(i), "sources"))
    return f, seq, ra0, dec0


@contract(M + ":Patch._pack_astrometry")
def astrometry(v):
    """for every exposure and source: the matrices, crval and crpix of that exposure at the true position of that source"""
    ne, ns = v.int("ne", lo=1), v.int("ns", lo=1)
    f, seq, ra0, dec0 = sources(v, ns)
    ref = v.arr("ref", (2,))
    uf = {k: z3.Function(k, T.I, T.R, T.R, T.R) for k in ("CW00", "CW01", "CW10", "CW11", "D00", "D01", "D10", "D11", "X", "Y")}

    def sc(I, sky, wcs, *a, **k):
        s = N.as_nd(sky)
        r, d = s.at(0), s.at(1)
        j = wcs.idx

        def mat(p):
            return N.mk_nd((2, 2), lambda x, y: ite(cmp("==", x, 0), ite(cmp("==", y, 0), uf[p + "00"](j, r, d), uf[p + "01"](j, r, d)),
                                                    ite(cmp("==", y, 0), uf[p + "10"](j, r, d), uf[p + "11"](j, r, d))), "real")
        return (mat("CW"), mat("D"))
    v.stub("forcepho.utils.wcs:scale_at_sky", sc)
    W = S.Fam(None, ne, "wcs")
    W.attrs["world_to_pixel_values"] = ("fn", lambda j: (lambda r, d, *a: (uf["X"](j, N.as_nd(r).at(), N.as_nd(d).at()), uf["Y"](j, N.as_nd(r).at(), N.as_nd(d).at()))))

    def th():
        o = v.obj(M + ":Patch", n_exp=ne, n_sources=ns, patch_reference_coordinates=ref, meta_dtype=v.I.resolve("numpy:float32") if False else N.DT["float32"])
        scene = S.Obj(None, "scene", sources=seq, n_active=ns)
        v.call(v.method(o, "_pack_astrometry"), S.SList(S.Seq(ne, lambda j: W.obj(j), "wcses")), scene)
        return o

    def post(o):
        j, i = v.idx("j", ne), v.idx("i", ns)
        r, d = ra0.at(i) + ref.at(0), dec0.at(i) + ref.at(1)
        D, CW, cv, cp = (o.a[k] for k in ("D", "CW", "crval", "crpix"))
        v.is_shape("D-shape", D, (ne, ns, 2, 2))
        v.is_shape("CW-shape", CW, (ne, ns, 2, 2))
        v.is_shape("crval-shape", cv, (ne, ns, 2))
        v.is_shape("crpix-shape", cp, (ne, ns, 2))
        for a in range(2):
            for b in range(2):
                v.eq(f"D[{a}{b}]", D.at(j, i, a, b), uf[f"D{a}{b}"](j, r, d))
                v.eq(f"CW[{a}{b}]", CW.at(j, i, a, b), uf[f"CW{a}{b}"](j, r, d))
        v.eq("crval-ra-relative", cv.at(j, i, 0), ra0.at(i))
        v.eq("crval-dec-relative", cv.at(j, i, 1), dec0.at(i))
        v.eq("crpix-x-of-the-true-position", cp.at(j, i, 0), uf["X"](j, r, d))
        v.eq("crpix-y-of-the-true-position", cp.at(j, i, 1), uf["Y"](j, r, d))
    v.run(th, post)


@contract(M + ":Patch.zerocoords", M + ":Patch.unzerocoords")
def reference(v):
    """positions become offsets from the reference; the reference is recorded; undoing restores every position"""
    ns = v.int("ns", lo=1)
    f, seq, ra0, dec0 = sources(v, ns)
    zero = v.arr("zero", (2,))
    mid = {}

    def th():
        o = v.obj(M + ":Patch")
        scene = S.Obj(None, "scene", sources=seq)
        z = v.call(v.method(o, "zerocoords"), scene, sky_zero=zero)
        mid["ra"], mid["dec"] = f.attrs["ra"].fn, f.attrs["dec"].fn
        v.call(v.method(o, "unzerocoords"), scene)
        return o, z

    def post(r):
        o, z = r
        i = v.idx("i", ns)
        ref = o.a["patch_reference_coordinates"]
        for c in range(2):
            v.eq(f"reference-recorded[{c}]", N.as_nd(ref).at(c), zero.at(c))
            v.eq(f"reference-returned[{c}]", N.as_nd(z).at(c), zero.at(c))
        v.eq("offset-ra", mid["ra"]((i,)), ra0.at(i) - zero.at(0))
        v.eq("offset-dec", mid["dec"]((i,)), dec0.at(i) - zero.at(1))
        v.eq("restored-ra", f.attrs["ra"].fn((i,)), ra0.at(i))
        v.eq("restored-dec", f.attrs["dec"].fn((i,)), dec0.at(i))
    v.run(th, post)


@contract(M + ":Patch.zerocoords")
def reference_default(v):
    """without an explicit reference: whatever it is, it is recorded, returned and subtracted from every source alike"""
    ns = v.int("ns", lo=1)
    f, seq, ra0, dec0 = sources(v, ns)
    box = {}

    def th():
        o = v.obj(M + ":Patch")
        z = v.call(v.method(o, "zerocoords"), S.Obj(None, "scene", sources=seq))
        box["o"] = o
        return z

    def post(z):
        i = v.idx("i", ns)
        z = N.as_nd(z)
        ref = N.as_nd(box["o"].a["patch_reference_coordinates"])
        v.eq("ra", f.attrs["ra"].fn((i,)) + z.at(0), ra0.at(i))
        v.eq("dec", f.attrs["dec"].fn((i,)) + z.at(1), dec0.at(i))
        v.eq("recorded-ra", ref.at(0), z.at(0))
        v.eq("recorded-dec", ref.at(1), z.at(1))
    v.run(th, post)


@contract(M + ":Patch._pack_source_metadata")
def source_meta(v):
    ns, nr = v.int("ns", lo=1), v.int("nr", lo=1)
    radii = v.arr("radii", (nr,))
    f, seq, ra0, dec0 = sources(v, ns)
    f.attrs["radii"] = ("const", radii)

    def th():
        o = v.obj(M + ":Patch", meta_dtype=N.DT["float32"])
        v.call(v.method(o, "_pack_source_metadata"), S.Obj(None, "scene", sources=seq, n_active=ns))
        return o

    def post(o):
        k = v.idx("k", nr)
        v.eq("n_sources", o.a["n_sources"], ns)
        v.eq("n_radii", o.a["n_radii"], nr)
        v.is_shape("rad2-shape", o.a["rad2"], (nr,))
        v.eq("rad2-are-squared-radii", o.a["rad2"].at(k), radii.at(k) * radii.at(k))
    v.run(th, post)


@contract(M + ":Patch.pack_meta", M + ":Patch.zerocoords", M + ":Patch._pack_astrometry", M + ":Patch._pack_source_metadata", M + ":Patch._pack_fluxcal")
def whole_meta(v):
    """packing the metadata of a scene: one reference for sources and astrometry, the astrometry of every exposure at the true position of
    every source (where it was before the reference was subtracted), radii, calibration and the mixtures of the same scene and exposures"""
    ne, ns, nr = v.int("ne", lo=1), v.int("ns", lo=1), v.int("nr", lo=1)
    f, seq, ra0, dec0 = sources(v, ns)
    radii = v.arr("radii", (nr,))
    f.attrs["radii"] = ("const", radii)
    uf = {k: z3.Function(k, T.I, T.R, T.R, T.R) for k in ("CW00", "CW01", "CW10", "CW11", "D00", "D01", "D10", "D11", "X", "Y")}
    st = {}

    def sc(I, sky, wcs, *a, **k):
        s = N.as_nd(sky)
        r, d, j = s.at(0), s.at(1), wcs.idx
        mat = lambda p: N.mk_nd((2, 2), lambda x, y: ite(cmp("==", x, 0), ite(cmp("==", y, 0), uf[p + "00"](j, r, d), uf[p + "01"](j, r, d)),
                                                          ite(cmp("==", y, 0), uf[p + "10"](j, r, d), uf[p + "11"](j, r, d))), "real")
        return (mat("CW"), mat("D"))
    v.stub("forcepho.utils.wcs:scale_at_sky", sc)
    W = S.Fam(None, ne, "wcs")
    W.attrs["world_to_pixel_values"] = ("fn", lambda j: (lambda r, d, *a: (uf["X"](j, N.as_nd(r).at(), N.as_nd(d).at()), uf["Y"](j, N.as_nd(r).at(), N.as_nd(d).at()))))

    def th():
        st.clear()
        wcses, bands, hdrs = S.SList(S.Seq(ne, lambda j: W.obj(j), "wcses")), S.Obj(None, "bands"), S.SList(S.Seq(ne, lambda j: S.Obj(None, "hdr")))
        scene = S.Obj(None, "scene", sources=seq, n_active=ns)
        scene.set("__len__", lambda: ns)
        st["psf"] = []
        o = v.obj(M + ":Patch", n_exp=ne, n_sources=v.int("stale", lo=0), patch_reference_coordinates=v.arr("stale_ref", (2,)), meta_dtype=N.DT["float32"],
                  wcses=wcses, hdrs=hdrs, bands=bands, _pack_psf=lambda b, w, s, **k: st["psf"].append((b is bands, w is wcses, s is scene, st["o"].a["n_sources"])))
        st["o"] = o
        v.call(v.method(o, "pack_meta"), scene)
        return o, scene

    def post(r):
        o, scene = r
        j, i, k = v.idx("j", ne), v.idx("i", ns), v.idx("k", nr)
        ref = N.as_nd(o.a["patch_reference_coordinates"])
        fr, fd = f.attrs["ra"].fn((i,)), f.attrs["dec"].fn((i,))
        v.eq("offset-ra", fr + ref.at(0), ra0.at(i))
        v.eq("offset-dec", fd + ref.at(1), dec0.at(i))
        D, CW, cv, cp = (o.a[x] for x in ("D", "CW", "crval", "crpix"))
        v.is_shape("D-shape", D, (ne, ns, 2, 2))
        v.is_shape("crpix-shape", cp, (ne, ns, 2))
        # the true position is the offset plus the reference (above), written the way the code adds them
        x, y = fr + ref.at(0), fd + ref.at(1)
        for a in range(2):
            for b in range(2):
                v.eq(f"D[{a}{b}]", D.at(j, i, a, b), uf[f"D{a}{b}"](j, x, y))
                v.eq(f"CW[{a}{b}]", CW.at(j, i, a, b), uf[f"CW{a}{b}"](j, x, y))
        v.eq("crval-ra-is-the-offset", cv.at(j, i, 0), fr)
        v.eq("crval-dec-is-the-offset", cv.at(j, i, 1), fd)
        v.eq("crpix-x", cp.at(j, i, 0), uf["X"](j, x, y))
        v.eq("crpix-y", cp.at(j, i, 1), uf["Y"](j, x, y))
        v.eq("n_sources", o.a["n_sources"], ns)
        v.eq("n_radii", o.a["n_radii"], nr)
        v.eq("rad2", o.a["rad2"].at(k), radii.at(k) * radii.at(k))
        v.eq("calibration", o.a["G"].at(j), 1)
        v.soft("the-mixtures-of-this-scene", len(st["psf"]) == 1 and all(q is True for q in st["psf"][0][:3]))
        v.eq("sources-known-to-the-mixtures", st["psf"][0][3], ns)
    v.run(th, post)


def fluxcal(tweak):
    def body(v):
        ne = v.int("ne", lo=1)
        g = v.arr("g", (ne,))
        H = S.Fam(None, ne, "hdr")
        hd = S.SList(S.Seq(ne, lambda j: Hdr(v, j, g), "hdrs"))

        def th():
            o = v.obj(M + ":Patch", n_exp=ne, meta_dtype=N.DT["float32"])
            v.call(v.method(o, "_pack_fluxcal"), hd, **({"tweakphot": "TWEAK"} if tweak else {}))
            return o

        def post(o):
            j = v.idx("j", ne)
            G = o.a["G"]
            v.is_shape("shape", G, (ne,))
            v.eq("calibration-of-that-exposure", G.at(j), g.at(j) if tweak else T.to_real(1))
        v.run(th, post)
    body.__name__ = "fluxcal_" + ("tweaked" if tweak else "unit")
    return body


def Hdr(v, j, g):
    return S.SDict({"TWEAK": g.at(j)})


contract(M + ":Patch._pack_fluxcal")(fluxcal(True))
contract(M + ":Patch._pack_fluxcal")(fluxcal(False))


class Store:
    """a PSF store: N(b) Gaussians per source for the b-th band of the patch"""
    def __init__(w, v, nb, ne):
        w.nb, w.ne = nb, ne
        w.N = v.arr("npsf", (nb,), "int")
        w.band = v.arr("bandof", (ne,), "int")            # index of the band of an exposure in bandlist
        w.cols = list(v.I.resolve("forcepho.patches.storage:PSF_COLS").v) + ["sersic_bin"]
        w.par = {c: v.arr("psf_" + c, (nb, v.int("bigK", lo=1)), "int" if c == "sersic_bin" else "real") for c in w.cols}

    def code(w, b):
        return S.Name(b)

    def data(w):
        return S.Obj(None, "psfdata", __getitem__=lambda nm: S.Obj(None, "dset", attrs=S.SDict({"n_psf_per_source": w.N.at(S.code_of(nm))})))

    def local(w, band=None, source=None):
        b = S.code_of(band)
        return S.Rec((w.N.at(b),), {c: (N.mk_nd((w.N.at(b),), lambda k, c=c: w.par[c].at(b, k), w.par[c].kind).buf, ()) for c in w.cols}, None, name="psfparams")


def psf(pattern):
    """pattern: band index of each exposure (number of exposures bounded; sources and Gaussians are not)"""
    def body(v):
        ne, nb, ns = len(pattern), max(pattern) + 1, v.int("ns", lo=1)
        w = Store(v, nb, ne)
        for b in range(nb):
            v.assume(w.N.at(b) >= 1)
        cnt = N.as_nd([pattern.count(b) for b in range(nb)])
        f, seq, ra0, dec0 = sources(v, ns)
        Ne = [w.N.at(b) for b in pattern]
        start = [sum((ns * x for x in Ne[:e]), z3.IntVal(0)) for e in range(ne + 1)]

        def th():
            st = S.Obj(None, "psfstore", data=w.data(), get_local_psf=w.local)
            o = v.obj(M + ":Patch", n_exp=ne, n_sources=ns, n_bands=nb, n_exp_per_band=cnt, meta_dtype=N.DT["float32"], psfstore=st,
                      bandlist=S.SList([S.Name(z3.IntVal(b)) for b in range(nb)]))
            v.call(v.method(o, "_pack_psf"), S.SList([S.Name(z3.IntVal(b)) for b in pattern]), S.SList([S.Obj(None, "wcs") for _ in pattern]),
                   S.Obj(None, "scene", sources=seq))
            return o

        def post(o):
            for b in range(nb):
                v.eq("n_psf_per_source", o.a["n_psf_per_source"].at(b), w.N.at(b))
            G = o.a["psfgauss"]
            v.eq("array-exactly-full", G.shape[0], start[ne])
            for e in range(ne):
                v.eq("start", o.a["psfgauss_start"].at(e), start[e])
                i, k = v.idx("i", ns), v.idx("k", Ne[e])
                p = start[e] + i * Ne[e] + k
                v.ob("in-bounds", z3.And(p >= 0, p < start[ne]))
                for c in w.cols:
                    v.eq(f"gaussian-{c}", N.as_nd(v.I.getitem(G, c)).at(p), w.par[c].at(pattern[e], k))
        v.run(th, post)
    body.__name__ = "psf_exposures_" + "".join(map(str, pattern))
    return body


def psf_any(nb):
    def body(v):
        """any number of exposures, their bands in any order.  Ghost: c_b(k), the exposures of band b before exposure k; the mixtures of
        exposure k start at start(k) = n_sources * sum_b N_b c_b(k).  The loop carries: the mixtures before exposure k are in place"""
        I = v.I
        E, ns = v.int("n_exp", lo=1), v.int("ns", lo=1)
        w = Store(v, nb, 1)
        B = T.ufun("band_of", T.I, T.I)
        c = [T.ufun(f"exposures_before_{b}", T.I, T.I) for b in range(nb)]
        cnt = [v.int(f"n_exp_{b}", lo=0) for b in range(nb)]
        for b in range(nb):
            v.assume(w.N.at(b) >= 1, c[b](0) == 0, c[b](E) == cnt[b])
        v.assume(v.forall((E,), lambda e: z3.And(B(e) >= 0, B(e) < nb)))
        Nb = lambda e: w.N.at(B(T.to_int(e)))
        start = lambda k: sum((ns * w.N.at(b) * c[b](T.to_int(k)) for b in range(nb)), z3.IntVal(0))

        def step(k):       # the definition of c_b, and that it grows
            for b in range(nb):
                I.fact(z3.And(c[b](k) >= 0, c[b](k + 1) == c[b](k) + z3.If(B(k) == b, 1, 0), c[b](k + 1) <= cnt[b]))
            I.fact(z3.And(B(k) >= 0, B(k) < nb))
        f, seq, ra0, dec0 = sources(v, ns)
        wcs = S.Fam(None, E, "wcs")
        st = {}

        same = lambda nm, x, y: v.inv(nm, T.to_int(x), T.to_int(y))

        def cut(it, run):
            o, env = st["o"], run.env
            if not I.valid(T.to_int(it.n) == E):
                return False
            try:
                s0 = env.get("s")
            except KeyError:
                raise Unsupported("the running index of the mixtures was not found")
            run.keep |= {"s"}
            G, ps = o.a.get("psfgauss"), o.a.get("psfgauss_start")
            if not isinstance(G, S.Rec) or not isinstance(ps, S.Nd):
                raise Unsupported("the arrays of the packing loop were not found")
            col = lambda x: N.as_nd(I.getitem(G, x))

            def put(k):
                env.set("s", start(k))
                g = T.fresh_fun("rest", T.I, T.I)
                N.setitem(ps, slice(None), N.mk_nd((E,), lambda e: start(e) if k.eq(E) else z3.If(T.to_int(e) < k, start(e), g(T.to_int(e))), "int"))
                held = {}
                for x in w.cols:
                    kind = w.par[x].kind
                    h = held[x] = T.fresh_fun("held_" + x, T.I, T.I if kind == "int" else T.R)
                    N.setitem(col(x), slice(None), N.mk_nd(G.shape, lambda q, h=h: h(T.to_int(q)), kind))
                return held
            same("entry", s0, 0)
            if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
                k = T.fresh("kiter", T.I)
                I.assume(0 <= k, k < E)
                step(k)
                held = put(k)
                for b in range(nb):
                    if I.branch(B(k) == b):
                        break
                else:
                    raise Infeasible()
                run(k)
                after = lambda: sum((ns * w.N.at(q) * (c[q](k) + (1 if q == b else 0)) for q in range(nb)), z3.IntVal(0))
                same("preserved.mixtures-so-far", env.get("s"), after())
                i, q = v.idx("i", ns), v.idx("k", w.N.at(b))
                e, p = T.fresh("e", T.I), T.fresh("p", T.I)
                same("preserved.start", ps.at(k), start(k))
                with I.assuming(0 <= e, e < k):
                    same("preserved.earlier-starts", ps.at(e), start(e))
                for x in w.cols:
                    v.inv("preserved.gaussian-" + x, col(x).at(start(k) + i * w.N.at(b) + q), w.par[x].at(b, q))
                    with I.assuming(0 <= p, p < start(k)):
                        v.inv("preserved.earlier-" + x, col(x).at(p), held[x](p))
                raise Infeasible()
            st["held"] = put(E)
            return True

        def th():
            st.clear()
            ps = S.Obj(None, "psfstore", data=w.data(), get_local_psf=w.local)
            o = st["o"] = v.obj(M + ":Patch", n_exp=E, n_sources=ns, n_bands=nb, n_exp_per_band=N.as_nd(cnt), meta_dtype=N.DT["float32"], psfstore=ps,
                                bandlist=S.SList([S.Name(z3.IntVal(b)) for b in range(nb)]))
            I.cuts = (cut,)
            try:
                v.call(v.method(o, "_pack_psf"), S.SList(S.Seq(E, lambda k: S.Name(B(T.to_int(k))))), S.SList(S.Seq(E, lambda k: S.FamObj(wcs, k))),
                       S.Obj(None, "scene", sources=seq))
            finally:
                I.cuts = ()
            return o

        def post(o):
            if "held" not in st:
                raise Unsupported("the loop over the exposures was not met")
            for b in range(nb):
                v.eq("n_psf_per_source", o.a["n_psf_per_source"].at(b), w.N.at(b))
            v.eq("array-exactly-full", T.to_int(o.a["psfgauss"].shape[0]), start(E))
            e = v.idx("e", E)
            v.eq("start", o.a["psfgauss_start"].at(e), start(e))
        v.run(th, post)
    body.__name__ = f"psf_any_exposures_{nb}"
    return body


for _n in (1, 2):
    contract(M + ":Patch._pack_psf")(psf_any(_n))


for _p in ((0,), (0, 0), (0, 1), (0, 0, 1), (0, 1, 1), (0, 1, 2)):
    contract(M + ":Patch._pack_psf", bounded=True)(psf(list(_p)))
BOUNDED = ["_pack_psf: besides the contracts psf_any_exposures (any number of exposures, in one or two bands), one to three exposures in up to three bands"]


DP = "forcepho.patches.device_patch"
PTRS = ["data", "ierr", "xpix", "ypix", "residual", "exposure_start", "exposure_N", "band_start", "band_N", "rad2", "D", "crpix",
        "crval", "CW", "G", "n_psf_per_source", "psfgauss", "psfgauss_start"]
VALS = ["n_sources", "n_radii"]


def device(v):
    """a packed CPU patch: one array per structure member"""
    n = v.int("npix", lo=1)
    a = {k: v.arr("a_" + k, (n,)) for k in PTRS if k != "residual"}
    vals = {k: v.int("v_" + k, lo=1) for k in VALS}
    pdt = v.I.resolve("forcepho.patches.patch:PatchBase")
    o = S.Obj(v.I.resolve(DP + ":CPUPatchMixin"), "patch", return_residual=True, **a, **vals)
    for k in ("patch_struct_dtype", "ptr_dtype", "meta_names"):
        o.a[k] = v.I.getattr(pdt, k)
    return o, n


def check_struct(v, o, tag=""):
    st = o.a["patch_struct"]
    names = o.a["patch_struct_dtype"].names
    v.ob(tag + "members", set(names) == set(PTRS + VALS))
    f = lambda k: N.as_nd(v.I.getitem(st, k)).at()
    for k in PTRS:
        v.eq(f"{tag}struct.{k}-points-at-the-array", f(k), N.addr_of(o.a[k]))
    for k in VALS:
        v.eq(f"{tag}struct.{k}-is-the-value", f(k), o.a[k])
    v.eq(tag + "device_patch-points-at-the-struct", N.as_nd(o.a["device_patch"]).at(), N.addr_of(st))


@contract(DP + ":CPUPatchMixin.send_to_device", DP + ":CPUPatchMixin.send_patchstruct_to_device")
def send(v):
    """every member of the structure handed to the compiled code is the address of (or the value of) the like-named
    attribute; the residual buffer is separate from the data and as long"""
    o, n = device(v)

    def th():
        r = v.call(v.method(o, "send_to_device"))
        return r

    def post(r):
        check_struct(v, o)
        v.is_shape("residual-as-long-as-the-data", o.a["residual"], (n,))
        v.ob("residual-is-not-the-data", cmp("!=", N.addr_of(o.a["residual"]), N.addr_of(o.a["data"])))
        v.eq("returns-the-pointer", N.as_nd(r).at(), N.as_nd(o.a["device_patch"]).at())
    v.run(th, post)


@contract(DP + ":CPUPatchMixin.swap_on_device", DP + ":CPUPatchMixin.replace_device_meta_ptrs",
          DP + ":CPUPatchMixin.send_patchstruct_to_device")
def swap(v):
    """after a swap the structure describes the newly packed metadata, and data is the former residual"""
    o, n = device(v)
    box = {}

    def th():
        v.call(v.method(o, "send_to_device"))
        box["data"], box["residual"] = N.addr_of(o.a["data"]), N.addr_of(o.a["residual"])
        box["pix"] = {k: N.addr_of(o.a[k]) for k in ("ierr", "xpix", "ypix", "exposure_start", "exposure_N", "band_start", "band_N")}
        for k in o.a["meta_names"].v:          # pack_meta makes new metadata arrays
            o.set(k, v.arr("new_" + k, (n,)) if k in PTRS else v.int("new_" + k, lo=1))
        return v.call(v.method(o, "swap_on_device"))

    def post(r):
        check_struct(v, o, "new-")
        v.eq("data-is-the-former-residual", N.addr_of(o.a["data"]), box["residual"])
        v.eq("residual-is-the-former-data", N.addr_of(o.a["residual"]), box["data"])
        st = o.a["patch_struct"]
        for k, a in box["pix"].items():
            v.eq(f"pixel-array-{k}-kept", N.as_nd(v.I.getitem(st, k)).at(), a)
    v.run(th, post)


@contract(DP + ":CPUPatchMixin.replace_device_meta_ptrs", DP + ":CPUPatchMixin.send_patchstruct_to_device")
def replace_meta(v):
    """replacing the metadata leaves the pixel pointers alone"""
    o, n = device(v)

    def th():
        v.call(v.method(o, "send_to_device"))
        for k in o.a["meta_names"].v:
            o.set(k, v.arr("new_" + k, (n,)) if k in PTRS else v.int("new_" + k, lo=1))
        v.call(v.method(o, "replace_device_meta_ptrs"))
        return v.call(v.method(o, "send_patchstruct_to_device"))

    def post(r):
        check_struct(v, o)
    v.run(th, post)


# ---------------------------------------------------------------- layouts: the Python dtypes and the C++ classes are the same bytes
SIZE = {"float32": 4, "float": 8, "float64": 8, "int32": 4, "int": 8, "int64": 8, "int16": 2, "int8": 1, "uint8": 1, "uint32": 4, "uintp": 8, "uint64": 8}
CSIZE = {"float": (4, "real"), "double": (8, "real"), "int": (4, "int"), "int16_t": (2, "int"), "short": (2, "int"), "long": (8, "int")}


def cfields(k, rn):
    """[(name, (element size, kind), count)] of a C++ class of plain members, in declaration order"""
    out = []
    for f, q, d in k.tu.fields(rn):
        cnt = 1
        if cxx.is_ptr(q):
            out.append((f, (8, "ptr"), 1))
            continue
        if cxx.is_arr(q):
            cnt, q = cxx.arr_len(q), cxx.pointee(q)
        b = cxx.strip(q)
        b = {"PixFloat": "float"}.get(b, b)
        if b not in CSIZE:
            raise Unsupported("member type " + q)
        out.append((f, CSIZE[b], cnt))
    return out


def nfields(v, spec):
    out = []
    for f, (d, tail) in spec.fields.items():
        n = 1
        for t in tail:
            n = n * t
        n = conc_of(n) if is_z3(n) else n
        if d.name not in SIZE:
            raise Unsupported("dtype " + d.name)
        out.append((f, (SIZE[d.name], "ptr" if d.name in ("uintp", "uint64") else d.kind), n))
    return out


def offsets(fs):
    o, r = 0, []
    for f, (s, k), n in fs:
        o = (o + s - 1) // s * s
        r.append(o)
        o += s * n
    return r, (o + 7) // 8 * 8 if any(s == 8 for _, (s, _), _ in fs) else o


def same_layout(v, tag, py, cc, rename={}):
    v.eq(tag + "-members", len(py), len(cc))
    po, pn = offsets(py)
    co, cn = offsets(cc)
    v.eq(tag + "-size", pn, cn)
    cpos = {f: (o, t, n) for (f, t, n), o in zip(cc, co)}
    for (f, t, n), o in zip(py, po):
        g = rename.get(f, f)
        if g not in cpos:          # members renamed on one side: only the positions are compared
            x = [(o2, t2, n2) for (f2, t2, n2), o2 in zip(cc, co) if o2 == o]
            v.ob(f"{tag}.{f}-position", bool(x) and x[0][1:] == (t, n))
            continue
        v.ob(f"{tag}.{f}-same-offset-type-and-length", cpos[g] == (o, t, n))


@contract("forcepho.patches.patch:PatchBase", "src:Patch")
def layout_patch(v):
    """Patch: every member at the same offset, of the same width"""
    k = K(v)
    same_layout(v, "Patch", nfields(v, v.I.getattr(v.I.resolve(M + ":PatchBase"), "patch_struct_dtype")), cfields(k, "Patch"))


@contract("forcepho.proposal:source_struct_dtype", "src:Source")
def layout_source(v):
    k = K(v)
    same_layout(v, "Source", nfields(v, v.I.resolve("forcepho.proposal:source_struct_dtype")), cfields(k, "Source"))


@contract("forcepho.proposal:response_struct_dtype", "src:Response")
def layout_response(v):
    k = K(v)
    same_layout(v, "Response", nfields(v, v.I.resolve("forcepho.proposal:response_struct_dtype")), cfields(k, "Response"))


@contract(M + ":Patch._pack_psf", "src:PSFSourceGaussian")
def layout_psf(v):
    """the default psf dtype built inside _pack_psf has the layout of PSFSourceGaussian"""
    k = K(v)
    ns, n = 1, v.int("n", lo=1)
    w = Store(v, 1, 1)
    v.assume(w.N.at(0) >= 1)
    box = {}
    orig = N.rec_zeros

    def spy(shape, spec):
        box["spec"] = spec
        return orig(shape, spec)
    f, seq, ra0, dec0 = sources(v, ns)

    def th():
        st = S.Obj(None, "psfstore", data=w.data(), get_local_psf=w.local)
        o = v.obj(M + ":Patch", n_exp=1, n_sources=ns, n_bands=1, n_exp_per_band=N.as_nd([1]), meta_dtype=N.DT["float32"], psfstore=st,
                  bandlist=S.SList([S.Name(z3.IntVal(0))]))
        N.rec_zeros = spy
        try:
            v.call(v.method(o, "_pack_psf"), S.SList([S.Name(z3.IntVal(0))]), S.SList([S.Obj(None, "wcs")]), S.Obj(None, "scene", sources=seq))
        finally:
            N.rec_zeros = orig
        return o

    def post(o):
        if "spec" not in box:
            raise Unsupported("psf dtype not seen")
        same_layout(v, "PSFSourceGaussian", nfields(v, box["spec"]), cfields(k, "PSFSourceGaussian"), {"sersic_bin": "sersic_radius_bin"})
    v.run(th, post)


# ---------------------------------------------------------------- the CUDA patch, with device memory by contract
class Cuda:
    """pycuda.driver by contract: to_device copies the array as it is now to new memory; memory is used only while allocated"""
    def __init__(self, v):
        self.v, self.allocs = v, []
        self.mod = S.Obj(None, "cuda", to_device=self.to_device, mem_alloc=self.mem_alloc, from_device=self.from_device)

    def alloc(self, **kw):
        ad = self.v.int(f"dptr{len(self.allocs)}", lo=1)
        o = S.Obj(None, "alloc", addr=ad, live=True, frees=0, **kw)
        for q in self.allocs:
            self.v.assume(q.a["addr"] != ad)
        o.set("__int__", lambda: ad)
        o.set("free", lambda: self.free(o))
        self.allocs.append(o)
        return o

    def free(self, o):
        self.v.ob("memory-freed-once", o.a["live"])
        o.set("live", False)

    def to_device(self, arr):
        return self.alloc(src=arr, at=N.addr_of(arr), nbytes=None)

    def mem_alloc(self, nb):
        return self.alloc(src=None, at=None, nbytes=nb)

    def from_device(self, ptr, shape=None, dtype=None, **k):
        return S.Obj(None, "fetched", ptr=ptr, shape=shape, dtype=dtype)


def gpu(v):
    o, n = device(v)
    g = S.Obj(v.I.resolve(DP + ":GPUPatchMixin"), "patch", pix_dtype=S.Obj(None, "pix_dtype"), _dirty_data=False, **o.a)
    for k in PTRS:
        if k == "residual":
            g.a.pop(k, None)
    c = Cuda(v)
    v.I.module(DP).env.d["cuda"] = c.mod
    return g, n, c


def check_gpu(v, o, c, expect_data=None, expect_res=None, tag=""):
    st = o.a["patch_struct"]
    f = lambda k: N.as_nd(v.I.getitem(st, k)).at()
    dp = o.a["device_ptrs"]
    for k in PTRS:
        p = v.I.getitem(dp, k)
        v.ob(f"{tag}{k}-is-allocated", p.a["live"])
        v.eq(f"{tag}struct.{k}-points-at-device-memory", f(k), p.a["addr"])
        if k not in ("data", "residual"):
            v.eq(f"{tag}{k}-holds-the-current-array", p.a["at"], N.addr_of(o.a[k]))
    for k in VALS:
        v.eq(f"{tag}struct.{k}-is-the-value", f(k), o.a[k])
    d, r = v.I.getitem(dp, "data"), v.I.getitem(dp, "residual")
    v.ob(tag + "data-and-residual-memory-differ", d is not r)
    if expect_data is None:
        v.eq(tag + "data-holds-the-pixels", d.a["at"], N.addr_of(o.a["data"]))
        v.ob(tag + "residual-is-scratch-memory", r.a["src"] is None)
        v.eq(tag + "residual-as-large-as-the-pixels", r.a["nbytes"], N.as_nd(o.a["xpix"]).shape[0] * z3.Int("itemsize_real"))
    else:
        v.ob(tag + "data-is-the-former-residual", d is expect_data)
        v.ob(tag + "residual-is-the-former-data", r is expect_res)
    dev = o.a["device_patch"]
    v.ob(tag + "struct-on-the-device", dev.a["live"])
    v.eq(tag + "struct-is-the-current-one", dev.a["at"], N.addr_of(st))


@contract(DP + ":GPUPatchMixin.send_to_device", DP + ":GPUPatchMixin.send_patchstruct_to_device", DP + ":GPUPatchMixin.swap_on_device",
          DP + ":GPUPatchMixin.replace_device_meta_ptrs", DP + ":GPUPatchMixin.retrieve_array", DP + ":GPUPatchMixin.free")
def cuda_patch(v):
    """CUDA patches: the structure on the device holds live device copies of the like-named arrays, after sending, after
    replacing the metadata, after a swap; nothing is freed twice or used after it was freed"""
    o, n, c = gpu(v)

    def newmeta():
        for k in o.a["meta_names"].v:
            o.set(k, v.arr(f"new{len(c.allocs)}_" + k, (n,)) if k in PTRS else v.int(f"new{len(c.allocs)}_" + k, lo=1))

    def th():
        c.allocs.clear()
        v.call(v.method(o, "send_to_device"))
        check_gpu(v, o, c, tag="sent-")
        dp = o.a["device_ptrs"]
        d0, r0 = v.I.getitem(dp, "data"), v.I.getitem(dp, "residual")
        newmeta()
        r = v.call(v.method(o, "swap_on_device"))
        v.ob("swap-returns-the-struct", r is o.a["device_patch"])
        check_gpu(v, o, c, r0, d0, "swapped-")
        v.ob("local-data-marked-stale", o.a["_dirty_data"])
        newmeta()
        v.call(v.method(o, "replace_device_meta_ptrs"))
        v.call(v.method(o, "send_patchstruct_to_device"))
        check_gpu(v, o, c, r0, d0, "replaced-")
        for k, p in (("data", r0), ("residual", d0)):
            a = v.call(v.method(o, "retrieve_array"), k)
            v.ob(f"retrieve-{k}", a.a["ptr"] is p and a.a["dtype"] is o.a["pix_dtype"])
            v.eq(f"retrieve-{k}-all-pixels", a.a["shape"], (n,))
        a = v.call(v.method(o, "retrieve_array"))
        v.ob("retrieve-default-is-the-residual", a.a["ptr"] is d0)
        live = [q for q in c.allocs if q.a["live"]]
        v.ob("no-leak", len(live) == len(PTRS) + 1)
        v.call(v.method(o, "free"))
        v.ob("everything-freed", not any(q.a["live"] for q in c.allocs))
        v.ob("no-pointers-left", len(o.a["device_ptrs"].d) == 0 and "device_patch" not in o.a)
        return True

    v.run(th, lambda r: v.ob("done", True))


@contract(DP + ":GPUPatchMixin.send_to_device", DP + ":GPUPatchMixin.send_patchstruct_to_device", DP + ":GPUPatchMixin.swap_on_device")
def cuda_no_residual(v):
    """without residuals there is no residual memory, and swapping is refused"""
    o, n, c = gpu(v)
    o.set("return_residual", False)

    def th():
        c.allocs.clear()
        v.call(v.method(o, "send_to_device"))
        v.eq("no-residual-pointer", N.as_nd(v.I.getitem(o.a["patch_struct"], "residual")).at(), 0)
        v.ob("other-arrays-sent", set(map(str, o.a["device_ptrs"].d)) == set(PTRS) - {"residual"})
        return v.call(v.method(o, "swap_on_device"))
    v.run(th, lambda r: v.ob("swap-refused", False), raises=lambda e: v.ob("refused", e.etype == "AssertionError"))
