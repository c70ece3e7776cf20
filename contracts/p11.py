"""P11: parameter bounds are ordered, contain the source, and follow the settings."""
from ve.spec import *

M = "forcepho.superscene"
TRUSTED = ["astropy.io.fits / the catalog file contain the table as given"]
BANDS = ["F1", "F2"]
BOUNDED = ["two bands (every band column is treated alike)", "convert_pa: angles within +-9 pi/2 (max_try = 4), one source (two in the thorough tier; the function is element by element)"]


def shapes(v):
    return list(v.I.getattr(v.I.resolve("forcepho.sources:Galaxy"), "SHAPE_COLS").v)


def catalog(v, n, cols, tag="c_", ints=()):
    a = {c: v.arr(tag + c, (n,), "int" if c in ints else "real") for c in cols}
    old = {c: N.snap(x) for c, x in a.items()}
    return old, S.Rec((n,), {c: (N.mk_nd((n,), old[c], "int" if c in ints else "real").buf, ()) for c in cols}, None, name="cat")


def making(unc, dpos):
    def body(v):
        """lower < upper; positions centred on the source with the requested half-width on the sky; shapes get the ranges;
        fluxes are centred with the requested number of sigmas (at least 5%)"""
        n = v.int("n", lo=1)
        sh = shapes(v)
        old, cat = catalog(v, n, BANDS + sh)
        rng = {k: (v.real(k + "_lo"), v.real(k + "_hi")) for k in ("sqrtq_range", "pa_range", "rhalf_range", "sersic_range")}
        for lo, hi in rng.values():
            v.assume(lo < hi)
        nsig, npix, scale = v.real("n_sig"), v.real("n_pix"), v.real("pixscale")
        v.assume(nsig > 0, npix > 0, scale > 0)
        kw = {k: tuple(x) for k, x in rng.items()}
        kw.update(n_sig_flux=nsig)
        hw = [npix * scale, npix * scale]
        if dpos:
            d = v.arr("dpos", (2,))
            v.assume(d.at(0) > 0, d.at(1) > 0)
            kw["dpos"] = d
            hw = [d.at(0), d.at(1)]
        else:
            kw.update(n_pix=npix, pixscale=scale)
        if unc:
            uold, ucat = catalog(v, n, BANDS, "u_")
            kw["unccat"] = ucat
            v.assume(v.forall((n,), lambda i: z3.And(*[uold[b](i) > 0 for b in BANDS])))
        fl = {}
        if not unc:
            def fb(I, flux, s, *a, **k):
                f = N.snap(N.as_nd(flux))
                L, H = z3.Function("fb_lo", T.R, T.R, T.R), z3.Function("fb_hi", T.R, T.R, T.R)
                return (N.mk_nd((n,), lambda i: L(T.to_real(f(i)), s), "real"), N.mk_nd((n,), lambda i: H(T.to_real(f(i)), s), "real"))
            v.stub(M + ":flux_bounds", fb)

        def th():
            return v.call(M + ":make_bounds", cat, S.SList(list(BANDS)), shapenames=S.SList(list(sh)), **kw)

        def post(r):
            i = v.idx("i", n)
            g = lambda c: N.as_nd(v.I.getitem(r, c))
            v.eq("one-row-per-source", N.np_len(r), n)
            for c in BANDS + sh:
                v.is_shape(c + "-shape", g(c), (n, 2))
            for c, k in (("q", "sqrtq_range"), ("pa", "pa_range"), ("rhalf", "rhalf_range"), ("sersic", "sersic_range")):
                v.eq(c + "-lower", g(c).at(i, 0), rng[k][0])
                v.eq(c + "-upper", g(c).at(i, 1), rng[k][1])
            cosd = T.cos(old["dec"](i) * T.PI / 180)
            v.assume(cosd > 0)
            v.eq("ra-lower", g("ra").at(i, 0), old["ra"](i) - hw[0] / 3600 / cosd)
            v.eq("ra-upper", g("ra").at(i, 1), old["ra"](i) + hw[0] / 3600 / cosd)
            v.eq("dec-lower", g("dec").at(i, 0), old["dec"](i) - hw[1] / 3600)
            v.eq("dec-upper", g("dec").at(i, 1), old["dec"](i) + hw[1] / 3600)
            v.ob("dec-ordered-and-contains", z3.And(g("dec").at(i, 0) < old["dec"](i), old["dec"](i) < g("dec").at(i, 1)))
            for b in BANDS:
                f = old[b](i)
                if unc:
                    a5 = z3.If(f >= 0, f, -f) * RV("1/20")
                    u = uold[b](i)
                    s = z3.If(u >= a5, u, a5)
                    v.eq("flux-lower-" + b, g(b).at(i, 0), f - nsig * s)
                    v.eq("flux-upper-" + b, g(b).at(i, 1), f + nsig * s)
                else:
                    v.eq("flux-lower-" + b, g(b).at(i, 0), z3.Function("fb_lo", T.R, T.R, T.R)(f, nsig))
                    v.eq("flux-upper-" + b, g(b).at(i, 1), z3.Function("fb_hi", T.R, T.R, T.R)(f, nsig))
        v.run(th, post)
    body.__name__ = "make_bounds" + ("_unc" if unc else "_guess") + ("_dpos" if dpos else "")
    return body


RV = z3.RealVal
for _u, _d in ((True, False), (False, True), (True, True)):
    contract(M + ":make_bounds")(making(_u, _d))


@contract(M + ":flux_bounds")
def flux_guess(v):
    """without uncertainties: ordered, contains the flux, never touches the input"""
    n = v.int("n", lo=1)
    fl, u = v.arr("flux", (n,)), v.real("unc1")
    v.assume(u > 0)
    f0 = N.snap(fl)
    src = N.mk_nd((n,), f0, "real")

    def th():
        return v.call(M + ":flux_bounds", src, u)

    def post(r):
        lo, hi = r
        i = v.idx("i", n)
        f = f0(i)
        v.is_shape("shapes", lo, (n,))
        v.is_shape("shape-hi", hi, (n,))
        v.eq("input-kept", src.at(i), f)
        a = z3.If(f >= 0, f, -f)
        s = T.sqrt(a)
        v.assume(s >= 0, s * s == a)
        p, q = u * s, (u / 2) * (u / 2)
        v.lemma(p >= 0, u > 0, s >= 0)
        v.lemma(q > 0, u > 0)
        v.lemma(p > 0, u > 0, s >= 0, s * s == a, f > q, q > 0)
        v.ob("contains-the-flux", z3.And(lo.at(i) <= f, f <= hi.at(i)))
        v.ob("ordered", lo.at(i) < hi.at(i))
        fm = (u / 2) * (u / 2)
        v.ob("lower-is-the-noise-or-below", lo.at(i) <= f - u * s)
        v.ob("upper-is-the-noise-or-above", z3.And(hi.at(i) >= f + u * s, hi.at(i) >= fm))
    v.run(th, post)


@contract(M + ":flux_bounds")
def flux_precision(v):
    """with a precision matrix: n sigma around the flux, sigma at least flux/snr_max; both bounds ordered"""
    n = v.int("n", lo=1)
    fl, u, snr = v.arr("flux", (n,)), v.real("unc1"), v.real("snr_max")
    v.assume(u > 0, snr > 0)
    Sg = v.arr("Sigma", (n, n))
    v.assume(v.forall((n,), lambda i: Sg.at(i, i) > 0))
    f0 = N.snap(fl)
    v.stub("numpy.linalg:pinv", lambda I, a: Sg)

    def th():
        return v.call(M + ":flux_bounds", fl, u, snr_max=snr, precisions=v.arr("P", (n, n)))

    def post(r):
        lo, hi = r
        i = v.idx("i", n)
        sd = T.sqrt(Sg.at(i, i))
        v.assume(sd > 0)
        s = z3.If(sd >= f0(i) / snr, sd, f0(i) / snr)
        v.eq("lower", lo.at(i), f0(i) - u * s)
        h = f0(i) + u * s
        v.eq("upper", hi.at(i), z3.If(h >= u * s, h, u * s))
    v.run(th, post)


@contract(M + ":bounds_vectors")
def vectors(v):
    """source by source: fluxes in band order, then shapes; positions relative to the reference; the catalog is not changed"""
    n = v.int("n", lo=1)
    sh = shapes(v)
    cols = BANDS + sh
    a = {c: v.arr("b_" + c, (n, 2)) for c in cols}
    old = {c: N.snap(x) for c, x in a.items()}
    cat = S.Rec((n,), {c: (N.mk_nd((n, 2), old[c], "real").buf, (2,)) for c in cols}, None, name="bounds")
    ref = (v.real("ra0"), v.real("dec0"))

    def th():
        return v.call(M + ":bounds_vectors", cat, S.SList(list(BANDS)), shapenames=S.SList(list(sh)), reference_coordinates=S.SList(list(ref)))

    def post(r):
        np_ = len(cols)
        i = v.idx("i", n)
        for s, x in enumerate(r):
            v.is_shape("length", x, (n * np_,))
            for k, c in enumerate(cols):
                w = old[c](i, s) - (ref[0] if c == "ra" else ref[1] if c == "dec" else 0)
                v.eq(f"{'lower' if s == 0 else 'upper'}-{c}", x.at(i * np_ + k), w)
        for c in cols:
            v.eq("catalog-kept-" + c, N.as_nd(v.I.getitem(cat, c)).at(i, 0), old[c](i, 0))
    v.run(th, post)


def adjusting(minflux, factor, act):
    def body(v):
        n = v.int("n", lo=1)
        cols = BANDS + ["ra"]
        old, cat = catalog(v, n, cols)
        b = {c: v.arr("b_" + c, (n, 2)) for c in cols}
        bo = {c: N.snap(x) for c, x in b.items()}
        bc = S.Rec((n,), {c: (N.mk_nd((n, 2), bo[c], "real").buf, (2,)) for c in cols}, None, name="bounds")
        mn, mf, eps = v.real("minflux"), v.real("factor"), v.real("eps")
        v.assume(mf > 0 if factor else mf <= 0, eps > 0)
        checked = []

        def th():
            checked.clear()
            o = v.obj(M + ":SuperScene", bounds_catalog=bc, sourcecat=cat, check_bounds=lambda: checked.append(1))
            kw = dict(minflux=mn if minflux else None, maxfluxfactor=mf, config=S.Obj(None, "config", minflux=None, maxfluxfactor=mf))
            if act:
                kw["active"] = cat
            v.call(M + ":adjust_bounds", o, S.SList(list(BANDS)), eps=eps, **kw)
            return o

        def post(o):
            i = v.idx("i", n)
            g = lambda c: N.as_nd(v.I.getitem(bc, c))
            x = lambda c: N.as_nd(v.I.getitem(cat, c)).at(i)
            for c in BANDS:
                lo, hi = bo[c](i, 0), bo[c](i, 1)
                f = old[c](i)
                nl = z3.If(lo <= mn, lo, mn) if minflux else lo
                nh = z3.If(hi >= f * mf, hi, f * mf) if factor else hi
                v.eq("lower-only-lowered-to-minflux", g(c).at(i, 0), nl)
                v.eq("upper-only-raised", g(c).at(i, 1), nh)
                if act:
                    v.ob("inside-values-kept", z3.Implies(z3.And(f >= nl + eps, f <= nh - eps), x(c) == f))
                    v.ob("outside-values-moved-inside", z3.Implies(nl + 2 * eps < nh, z3.And(x(c) >= nl + eps, x(c) <= nh - eps)))
                else:
                    v.eq("catalog-kept", x(c), f)
            v.eq("other-columns-kept", x("ra"), old["ra"](i))
            for s in range(2):
                v.eq("other-bounds-kept", g("ra").at(i, s), bo["ra"](i, s))
            v.eq("bounds-checked", len(checked), 1)
        v.run(th, post)
    body.__name__ = "adjust" + ("_minflux" if minflux else "") + ("_factor" if factor else "") + ("_active" if act else "")
    return body


for _a in ((True, True, True), (True, False, False), (False, True, True), (False, False, True)):
    contract(M + ":adjust_bounds")(adjusting(*_a))


@contract(M + ":check_bounds")
def checking(v):
    """passes exactly when every value lies strictly between its bounds"""
    n = v.int("n", lo=1)
    v.assume(n != 2)
    cols = BANDS + ["ra"]
    old, cat = catalog(v, n, cols)
    b = {c: N.snap(v.arr("b_" + c, (n, 2))) for c in cols}
    bc = S.Rec((n,), {"source_index": (N.mk_nd((n,), lambda i: T.to_int(i), "int").buf, ()), **{c: (N.mk_nd((n, 2), b[c], "real").buf, (2,)) for c in cols}}, None, name="bounds")
    i = v.idx("i", n)
    inside = lambda i: z3.And(*[z3.And(old[c](i) > b[c](i, 0), old[c](i) < b[c](i, 1)) for c in cols])

    def th():
        return v.call(M + ":check_bounds", cat, bc)

    def post(r):
        v.ob("accepted-values-are-inside", inside(i))

    def raises(e):
        v.eq("refused-by-assertion", e.etype, "AssertionError")
        j = z3.Int("j")
        v.ob("refused-only-if-some-value-is-outside", z3.Exists([j], z3.And(j >= 0, j < n, z3.Not(inside(j)))))
    v.run(th, post, raises)


def angles(deg, rotate, reverse):
    def body(v):
        """the equivalent angle (modulo a half turn) in the standard interval; rotated and reversed as asked; input untouched"""
        n = 2 if v.tier == "thorough" else 1
        a0 = N.snap(v.arr("pa", (n,)))
        src = N.mk_nd((n,), a0, "real")
        rad = lambda i: a0(i) * T.PI / 180 if deg else a0(i)
        v.assume(v.forall((n,), lambda i: z3.And(rad(i) <= 9 * T.PI / 2, rad(i) >= -9 * T.PI / 2)))
        v.assume(T.PI > 3)

        def th():
            return v.call(M + ":convert_pa", src, from_deg=deg, rotate=rotate, reverse=reverse)

        def post(r):
            i = v.idx("i", n)
            x, y = r.at(i), rad(i)
            v.is_shape("shape", r, (n,))
            v.eq("input-kept", src.at(i), a0(i))
            v.ob("standard-half-turn", z3.And(x >= -T.PI / 2, x <= T.PI / 2))
            want = y + T.PI / 2 if rotate else y
            want = -want if reverse else want
            v.ob("equivalent-angle", z3.Or(*[x == want + k * T.PI for k in range(-6, 7)]))
        v.run(th, post)
    body.__name__ = "convert_pa" + ("_deg" if deg else "") + ("_rotate" if rotate else "") + ("_reverse" if reverse else "")
    return body


for _a in ((False, False, False), (True, False, False), (False, True, False), (False, True, True), (False, False, True)):
    contract(M + ":convert_pa", bounded=True)(angles(*_a))


def rectifying(rotate, reverse):
    def body(v):
        n = v.int("n", lo=1)
        sh = shapes(v)
        cols = BANDS + sh + ["roi"]
        old, cat = catalog(v, n, cols + ["extra"])
        rng = {k: (v.real(k + "_lo"), v.real(k + "_hi")) for k in ("rhalf_range", "sqrtq_range", "sersic_range", "pa_range")}
        for lo, hi in rng.values():
            v.assume(lo < hi)
        hdr = S.SDict({"FILTERS": "F1, F2"})

        def th():
            return v.call(M + ":rectify_catalog", (cat, hdr), rotate=rotate, reverse=reverse, shapenames=S.SList(list(sh)), **{k: tuple(x) for k, x in rng.items()})

        def post(r):
            out, bands, h = r
            i = v.idx("i", n)
            g = lambda c: N.as_nd(v.I.getitem(out, c)).at(i)
            v.eq("bands", list(bands.v), BANDS)
            v.eq("one-row-per-source", N.np_len(out), n)
            clip = lambda x, lo, hi: z3.If(x < lo, lo, z3.If(x > hi, hi, x))
            key = {"rhalf": "rhalf_range", "q": "sqrtq_range", "sersic": "sersic_range", "pa": "pa_range"}
            for c in cols:
                w = old[c](i)
                if c in key:
                    w = clip(w, *rng[key[c]])
                if c == "pa":
                    if rotate:
                        w = w + T.PI / 2 - z3.If(w > 0, T.PI, RV(0))
                    if reverse:
                        w = -w
                v.eq("column-" + c, g(c), w)
            v.eq("row-index", g("source_index"), i)
            for c in ("is_active", "is_valid", "n_iter", "n_patch"):
                v.eq("bookkeeping-" + c, g(c), 0)
            for c in cols:
                v.eq("input-kept-" + c, N.as_nd(v.I.getitem(cat, c)).at(i), old[c](i))
        v.run(th, post)
    body.__name__ = "rectify" + ("_rotate" if rotate else "") + ("_reverse" if reverse else "")
    return body


for _a in ((False, False), (True, False), (True, True)):
    contract(M + ":rectify_catalog", M + ":sourcecat_dtype")(rectifying(*_a))
