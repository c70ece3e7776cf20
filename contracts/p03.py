"""P03: the pure-python image model, its gradients and its likelihood.

 pixel_*     : compute_gaussian is the second-order pixel integral of one Gaussian, its gradient the exact derivative;
 convert     : convert_to_gaussians gives, per profile and PSF component, the Gaussian with the combined covariance and centre;
 jacobian    : _get_gaussian_gradients gives d(image Gaussian)/d(source parameter);
 gig         : compute_gig sums the components and chains the two derivatives;
 work plans  : residual, chi and gradients from the per-component images; lnlike_multi adds stamps and scatters the gradient."""
from ve.spec import *
from contracts.kern import count, mahal, parts, mmul, mtr, madd, mscale, RV

GM = "forcepho.slow.gaussmodel"
LK = "forcepho.slow.likelihood"
GP = ("amp", "xcen", "ycen", "fxx", "fyy", "fxy")
TRUSTED = ["interchange of finite sums (FastWorkPlan gradient: over components of sums over pixels)"]
BOUNDED = []


def counts(x, y, g, second, det):
    e = count(x, y, g) if second else g["amp"] * T.exp(RV("-1/2") * mahal(x, y, g))
    return e * T.sqrt(g["fxx"] * g["fyy"] - g["fxy"] * g["fxy"]) if det else e


def pixel(second, det):
    def body(v):
        """value and derivatives of one Gaussian in every pixel"""
        n = v.int("npix", lo=1)
        g = {k: v.real("g_" + k) for k in GP}
        if det:
            v.assume(g["fxx"] * g["fyy"] - g["fxy"] * g["fxy"] > 0)
        x, y = v.arr("x", (n,)), v.arr("y", (n,))

        def th():
            o = v.obj(GM + ":ImageGaussian", **g)
            return v.call(GM + ":compute_gaussian", o, x, y, second_order=second, use_det=det, compute_deriv=True)

        def post(r):
            C, G = r
            i = v.idx("i", n)
            v.is_shape("counts-shape", C, (n,))
            v.is_shape("gradient-shape", G, (6, n))
            c = counts(x.at(i), y.at(i), g, second, det)
            v.eq("counts", C.at(i), c)
            for k, f in enumerate(GP):
                v.eq("d-" + f, G.at(k, i), v.diff_at(c, g[f]))
        v.run(th, post)

        def th2():
            o = v.obj(GM + ":ImageGaussian", **g)
            return v.call(GM + ":compute_gaussian", o, x, y, second_order=second, use_det=det, compute_deriv=False)

        def post2(C):
            i = v.idx("i", n)
            v.is_shape("counts-only-shape", C, (n,))
            v.eq("counts-only", C.at(i), counts(x.at(i), y.at(i), g, second, det))
        v.run(th2, post2)
    body.__name__ = f"pixel_{'second' if second else 'first'}{'_det' if det else ''}"
    return body


for _s in (True, False):
    for _d in (False, True):
        contract(GM + ":compute_gaussian", GM + ":_compute_gaussian")(pixel(_s, _d))


class Src:
    """an arbitrary source and stamp"""
    def __init__(self, v, units="pixels", nb=None, q0=True):
        self.v = v
        self.ns, self.np_ = v.int("n_profile", lo=1), v.int("n_psf", lo=1)
        A = v.arr
        c = self.var = A("svar", (self.ns,))
        v.assume(v.forall((self.ns,), lambda i: c.at(i) >= 0))
        self.cov = N.mk_nd((self.ns, 2, 2), lambda i, a, b: ite(cmp("==", a, b), c.at(i), RV(0)), "real")      # circular profile components
        self.amp, self.dn, self.dr = A("samp", (self.ns,)), A("da_dn", (self.ns,)), A("da_dr", (self.ns,))
        self.pcov, self.pmean, self.pamp = A("pcov", (self.np_, 2, 2)), A("pmean", (self.np_, 2)), A("pamp", (self.np_,))
        v.assume(v.forall((self.np_,), lambda j: self.pcov.at(j, 0, 1) == self.pcov.at(j, 1, 0)))
        self.D, self.CW, self.crpix, self.crval = A("D", (2, 2)), A("CW", (2, 2)), A("crpix", (2,)), A("crval", (2,))
        self.q, self.pa, self.ra, self.dec, self.G = (v.real(x) for x in ("q", "pa", "ra", "dec", "G"))
        v.assume(self.q > 0)
        self.nb = v.int("nb", lo=1) if nb is None else nb
        self.flux = A("flux", (self.nb,))
        self.b = v.int("band", lo=0)
        v.assume(self.b < self.nb)
        self.units = units

    def objs(self):
        psf = S.Obj(None, "psf", n_gauss=self.np_, units=self.units, covariances=self.pcov, means=self.pmean, amplitudes=self.pamp)
        st = self.v.obj("forcepho.slow.stamp:PostageStamp", scale=self.D, psf=psf, dpix_dsky=self.CW, crpix=self.crpix, crval=self.crval, photocounts=self.G, id=1,
                   filtername="F")
        src = S.Obj(None, "source", pa=self.pa, q=self.q, ra=self.ra, dec=self.dec, flux=N.mk_nd((self.nb,), N.snap(self.flux), "real"),
                    covariances=self.cov, amplitudes=self.amp, damplitude_dsersic=self.dn, damplitude_drh=self.dr, n_gauss=self.ns, id=3,
                    filter_index=lambda f: self.b)
        return src, st

    def m(self, a, *ix):
        return [[a.at(*ix, i, j) for j in range(2)] for i in range(2)]

    def T(self):
        c, s = T.cos(self.pa), T.sin(self.pa)
        return mmul(mmul(self.m(self.D), [[c, -s], [s, c]]), [[1 / self.q, RV(0)], [RV(0), self.q]])

    def psf(self, j):
        """covariance and mean of the PSF component in pixels"""
        c, m = self.m(self.pcov, j), [self.pmean.at(j, k) for k in range(2)]
        if self.units == "arcsec":
            D = self.m(self.D)
            c = mmul(mmul(D, c), mtr(D))
            m = [D[k][0] * m[0] + D[k][1] * m[1] for k in range(2)]
        return c, m

    def sigma(self, i, j, TT=None):
        TT = TT or self.T()
        return madd(mmul(mmul(TT, self.m(self.cov, i)), mtr(TT)), self.psf(j)[0])


    def want(self, i, j):
        """image Gaussian of profile component i and PSF component j"""
        Sg = self.sigma(i, j)
        det = Sg[0][0] * Sg[1][1] - Sg[0][1] * Sg[1][0]
        off = [self.ra - self.crval.at(0), self.dec - self.crval.at(1)]
        m = self.psf(j)[1]
        cen = [self.CW.at(k, 0) * off[0] + self.CW.at(k, 1) * off[1] + self.crpix.at(k) + m[k] for k in range(2)]
        return {"fxx": Sg[1][1] / det, "fyy": Sg[0][0] / det, "fxy": -Sg[0][1] / det, "xcen": cen[0], "ycen": cen[1]}, det

    def positive(self, i, j):
        """a covariance is positive definite"""
        Sg = self.sigma(i, j)
        det = Sg[0][0] * Sg[1][1] - Sg[0][1] * Sg[1][0]
        self.v.assume(det > 0, Sg[0][0] > 0, self.pcov.at(j, 0, 1) == self.pcov.at(j, 1, 0), self.var.at(i) >= 0)


def converting(units):
    def body(v):
        """component i*n_psf + j is profile component i convolved with PSF component j"""
        w = Src(v, units)

        def th():
            src, st = w.objs()
            gig = v.call(GM + ":convert_to_gaussians", src, st)
            v.eq("source-flux-kept", N.as_nd(src.a["flux"]).at(w.b), w.flux.at(w.b))
            return gig

        def post(gig):
            L = v.I.getattr(gig, "gaussians")
            v.eq("number", N.np_len(L), w.ns * w.np_)
            i, j = v.idx("i", w.ns), v.idx("j", w.np_)
            v.lemma(z3.And(i * w.np_ + j >= 0, i * w.np_ + j < w.ns * w.np_), i >= 0, i < w.ns, j >= 0, j < w.np_)
            g = v.I.getitem(L, i * w.np_ + j)
            want, det = w.want(i, j)
            for f in ("xcen", "ycen"):
                v.eq(f, v.I.getattr(g, f), want.pop(f))
            w.positive(i, j)
            for f, e in want.items():
                v.eq(f, v.I.getattr(g, f), e)
            A = T.to_real(v.I.getattr(g, "amp"))
            f = w.flux.at(w.b) * w.G * w.amp.at(i) * w.pamp.at(j)
            # the amplitude is the flux over 2 pi sqrt(det): its square, and its sign
            v.eq_gen("amp", v.sqrt_to(A, det), f / T.sqrt(det) / (2 * T.PI))
        v.run(th, post)
    body.__name__ = "convert_" + units
    return body


for _u in ("pixels", "arcsec"):
    contract(GM + ":convert_to_gaussians", GM + ":_convert_to_gaussians", GM + ":fast_inv_2x2", GM + ":fast_det_2x2",
             GM + ":fast_dot_dot_2x2", GM + ":fast_matmul_matmul_2x2", GM + ":rotation_matrix", GM + ":scale_matrix")(converting(_u))


@contract(GM + ":_get_gaussian_gradients", GM + ":fast_trace_2x2", GM + ":fast_inv_2x2", GM + ":fast_det_2x2", GM + ":fast_dot_dot_2x2")
def jacobian(v):
    """row p of the Jacobian is the derivative of (amplitude, centre, inverse covariance) with respect to source parameter p,
    for any transformation matrix T and its derivatives"""
    ns, np_ = v.int("ns", lo=1), v.int("np", lo=1)
    A = v.arr
    var = A("svar", (ns,))
    sc = N.mk_nd((ns, 2, 2), lambda i, a, b: ite(cmp("==", a, b), var.at(i), RV(0)), "real")
    pcv = A("pcov", (np_, 3))       # symmetric
    pc = N.mk_nd((np_, 2, 2), lambda j, a, b: pcv.at(j, arith("+", a, b)), "real")
    sa, pa, dn, dr = A("samp", (ns,)), A("pamp", (np_,)), A("da_dn", (ns,)), A("da_dr", (ns,))
    Tm, Tq, Tp, CW = A("T", (2, 2)), A("dT_dq", (2, 2)), A("dT_dpa", (2, 2)), A("CW", (2, 2))
    flux, G = v.real("flux"), v.real("G")

    def th():
        return v.call(GM + ":_get_gaussian_gradients", ns, np_, sc, pc, sa, pa, flux, G, Tm, Tq, Tp, dn, dr, CW)

    def post(r):
        v.is_shape("shape", r, (ns, np_, 7, 6))
        i, j = v.idx("i", ns), v.idx("j", np_)
        TT = [[Tm.at(a, b) for b in range(2)] for a in range(2)]
        Sg = madd(mscale(var.at(i), mmul(TT, mtr(TT))), [[pc.at(j, a, b) for b in range(2)] for a in range(2)])
        det = Sg[0][0] * Sg[1][1] - Sg[0][1] * Sg[1][0]
        v.assume(det > 0, Sg[0][0] > 0)
        F = {"fxx": Sg[1][1] / det, "fyy": Sg[0][0] / det, "fxy": -Sg[0][1] / det}
        unit = G * pa.at(j) / (2 * T.PI * T.sqrt(det))
        f, a = flux, sa.at(i)
        z = RV(0)
        at = lambda p, c: v.sqrt_to(T.to_real(r.at(i, j, p, c)), det)
        col = {"amp": 0, "xcen": 1, "ycen": 2, "fxx": 3, "fyy": 4, "fxy": 5}
        zero = {0: ("xcen", "ycen", "fxx", "fyy", "fxy"), 1: ("amp", "fxx", "fyy", "fxy"), 2: ("amp", "fxx", "fyy", "fxy"),
                3: ("xcen", "ycen"), 4: ("xcen", "ycen"), 5: ("xcen", "ycen", "fxx", "fyy", "fxy"), 6: ("xcen", "ycen", "fxx", "fyy", "fxy")}
        for p, cs in zero.items():
            for c in cs:
                v.eq(f"zero-{p}-{c}", r.at(i, j, p, col[c]), z)
        v.eq_gen("dA_dflux", at(0, 0), unit * a)
        v.eq_gen("dA_dsersic", at(5, 0), unit * f * dn.at(i))
        v.eq_gen("dA_drh", at(6, 0), unit * f * dr.at(i))
        for p in (0, 1):
            for k in range(2):
                v.eq(f"dcentre-{p}{k}", r.at(i, j, 1 + p, 1 + k), CW.at(k, p))
        for p, dT in ((3, Tq), (4, Tp)):
            D = lambda e: sum((T.to_real(v.diff_at(e, TT[x][y])) * dT.at(x, y) for x in range(2) for y in range(2)), z)
            for c, e in F.items():
                v.eq(f"d{c}_d{'q' if p == 3 else 'pa'}", r.at(i, j, p, col[c]), D(e))
            dd = D(det)
            # d(f/sqrt(det)) = -f ddet/(2 det sqrt(det))
            v.eq_gen(f"dA_d{'q' if p == 3 else 'pa'}", at(p, 0), -unit * f * a * dd / (2 * det))
    v.run(th, post)


@contract(GM + ":get_gaussian_gradients", GM + ":scale_matrix_deriv", GM + ":rotation_matrix_deriv")
def jacobian_inputs(v):
    """the Jacobians belong to this source, band and stamp (T and its derivatives with respect to q and pa), and component i*n_psf + j
    gets that of profile component i and PSF component j"""
    for units in ("pixels", "arcsec"):
        w = Src(v, units)
        J = z3.Function("J", T.I, T.I, T.I, T.I, T.R)
        got = {}

        def core(I, sn, pn, scov, pcov, samps, pamps, flux, G, Tm, Tq, Tp, dn, dr, CW):
            i, j = v.idx("i", w.ns), v.idx("j", w.np_)
            v.eq("n-profile", sn, w.ns)
            v.eq("n-psf", pn, w.np_)
            TT = w.T()
            pcw = w.psf(j)[0]
            v.eq("flux-of-the-band", N.as_nd(flux).at(), w.flux.at(w.b))
            v.eq("counts-per-flux", G, w.G)
            for a in range(2):
                for b in range(2):
                    v.eq("profile-covariance", scov.at(i, a, b), w.cov.at(i, a, b))
                    v.eq("psf-covariance", pcov.at(j, a, b), pcw[a][b])
                    v.eq("T", Tm.at(a, b), TT[a][b])
                    v.eq("dT_dq", Tq.at(a, b), v.diff_at(TT[a][b], w.q))
                    v.eq("dT_dpa", Tp.at(a, b), v.diff_at(TT[a][b], w.pa))
                    v.eq("CW", CW.at(a, b), w.CW.at(a, b))
            for nm, x, y, k in (("profile-amplitude", samps, w.amp, i), ("psf-amplitude", pamps, w.pamp, j), ("da_dn", dn, w.dn, i), ("da_dr", dr, w.dr, i)):
                v.eq(nm, N.as_nd(x).at(k), y.at(k))
            return N.mk_nd((sn, pn, 7, 6), lambda *ix: J(*[T.to_int(x) for x in ix]), "real")

        def th():
            src, st = w.objs()
            fam = S.Fam(v.I.resolve(GM + ":ImageGaussian"), w.ns * w.np_, "g")
            fam.attrs["derivs"] = ("nd", v.arr("old", (w.ns * w.np_, 7, 6)).buf, (7, 6))
            gig = v.obj(GM + ":GaussianImageGalaxy", gaussians=S.SList(S.Seq(fam.n, fam.obj, "g")), id=1)
            v.stub(GM + ":_get_gaussian_gradients", core)
            return v.call(GM + ":get_gaussian_gradients", src, st, gig)

        def post(gig):
            L = v.I.getattr(gig, "gaussians")
            i, j, p, c = v.idx("i", w.ns), v.idx("j", w.np_), v.idx("p", 7), v.idx("c", 6)
            v.lemma(z3.And(i * w.np_ + j >= 0, i * w.np_ + j < w.ns * w.np_), i >= 0, i < w.ns, j >= 0, j < w.np_)
            d = v.I.getattr(v.I.getitem(L, i * w.np_ + j), "derivs")
            v.eq("attached", d.at(p, c), J(i, j, p, c))
        v.run(th, post)


@contract(GM + ":compute_gig")
def sum_components(v):
    """image: sum over components; gradient: sum over components of Jacobian times image-parameter derivative"""
    n, ng = v.int("npix", lo=1), v.int("ngauss", lo=1)
    x, y = v.arr("x", (n,)), v.arr("y", (n,))
    IM = z3.Function("IM", T.I, T.I, T.R)
    DI = z3.Function("DI", T.I, T.I, T.I, T.R)
    der = v.arr("derivs", (ng, 7, 6))
    i0 = v.idx("i0", n)

    def core(I, g, xp, yp, compute_deriv=True, **kw):
        v.eq("x", N.as_nd(xp).at(i0), x.at(i0))
        v.eq("y", N.as_nd(yp).at(i0), y.at(i0))
        v.eq("keywords-passed", kw, {"second_order": False})
        k = g.idx
        im = N.mk_nd((n,), lambda p: IM(T.to_int(k), T.to_int(p)), "real")
        return (im, N.mk_nd((6, n), lambda c, p: DI(T.to_int(k), T.to_int(c), T.to_int(p)), "real")) if conc(compute_deriv) else im
    for deriv in (True, False):
        def th():
            fam = S.Fam(v.I.resolve(GM + ":ImageGaussian"), ng, "g")
            fam.attrs["derivs"] = ("nd", der.buf, (7, 6))
            gig = v.obj(GM + ":GaussianImageGalaxy", gaussians=S.SList(S.Seq(ng, fam.obj, "g")), id=1)
            v.stub(GM + ":compute_gaussian", core)
            return v.call(GM + ":compute_gig", gig, x, y, compute_deriv=deriv, second_order=False)

        def post(r):
            i, p = v.idx("i", n), v.idx("p", 7)
            v.is_shape("image-shape", r[0], (n,))
            v.eq("image", r[0].at(i), T.mk_sum(0, ng, lambda k: IM(k, i)))
            if deriv:
                v.is_shape("gradient-shape", r[1], (7, n))
                v.eq("gradient", r[1].at(p, i), T.mk_sum(0, ng, lambda k: sum([der.at(k, p, c) * DI(k, z3.IntVal(c), i) for c in range(6)], RV(0))))
            else:
                v.ob("no-gradient", r[1] is None)
        v.run(th, post)


def conc(x):
    x = N.conc_of(z3.simplify(x)) if is_z3(x) else x
    return x


class PlanWorld:
    """a stamp with active and fixed galaxies; compute_gaussian by its contract: image IM and derivatives DI of a component"""
    def __init__(self, v, tag=""):
        self.v = v
        self.nx, self.ny = v.int("nx" + tag, lo=1), v.int("ny" + tag, lo=1)
        self.n = self.nx * self.ny
        self.na, self.nf = v.int("nactive" + tag, lo=0), v.int("nfixed" + tag, lo=0)
        I_, R_ = T.I, T.R
        self.GC = z3.Function("galaxy" + tag, I_, I_, I_)
        ng, cc = z3.Function("NG" + tag, I_, I_), z3.Function("component" + tag, I_, I_, I_)
        self.NG = lambda kind, i: ng(self.GC(kind, i))
        self.C = lambda kind, i, k: cc(self.GC(kind, i), k)
        self.ng, self.cc = ng, cc
        self.IM, self.DI, self.J = z3.Function("IM", I_, I_, R_), z3.Function("DI", I_, I_, I_, R_), z3.Function("J", I_, I_, I_, R_)
        q = z3.Int("q")
        v.assume(z3.ForAll([q], ng(q) >= 0))
        gf = S.Fam(None, z3.Int("ncomp"), "gauss")
        gf.attrs["derivs"] = ("fn", lambda c: N.mk_nd((7, 6), lambda p, k: self.J(T.to_int(c), T.to_int(p), T.to_int(k)), "real"))
        self.fam = S.Fam(None, z3.Int("ngal"), "gig")
        self.fam.attrs["gaussians"] = ("fn", lambda i: S.SList(S.Seq(ng(T.to_int(i)), lambda k: gf.obj(cc(T.to_int(i), T.to_int(k))), "g")))
        self.pix = v.arr("pix" + tag, (self.nx, self.ny))
        self.ie = v.arr("ierr" + tag, (self.n,))
        self.xp, self.yp = v.arr("xpix" + tag, (self.nx, self.ny)), v.arr("ypix" + tag, (self.nx, self.ny))
        self.p0 = v.idx("p0", self.n)
        self.tag = tag
        v.assume(self.n >= 1)

    def stamp(self):
        return S.Obj(None, "stamp", nx=self.nx, ny=self.ny, npix=self.n, xpix=self.xp, ypix=self.yp, ierr=self.ie, filtername="F",
                     pixel_values=N.mk_nd((self.nx, self.ny), N.snap(self.pix), "real"))

    def gigs(self, kind, n):
        return S.SList(S.Seq(n, lambda i: self.fam.obj(self.GC(kind, T.to_int(i))), "gigs"))

    def core(self, I, g, xp, yp, compute_deriv=True, **kw):
        v, k = self.v, g.idx
        n = self.n
        a, b = N.divmod_sym(self.p0, self.ny)
        v.eq("pixel-x", flat(v, xp).at(self.p0), self.xp.at(a, b))
        v.eq("pixel-y", flat(v, yp).at(self.p0), self.yp.at(a, b))
        v.eq("keywords-passed", kw, {"second_order": False})
        im = N.mk_nd((n,), lambda p: self.IM(T.to_int(k), T.to_int(p)), "real")
        return (im, N.mk_nd((6, n), lambda c, p: self.DI(T.to_int(k), T.to_int(c), T.to_int(p)), "real")) if conc(compute_deriv) else im

    def image(self, kind, i, p):
        return T.mk_sum(0, self.NG(kind, T.to_int(i)), lambda k: self.IM(self.C(kind, T.to_int(i), T.to_int(k)), T.to_int(p)))

    def grad(self, i, par, p):
        def term(k):
            c = self.C(0, T.to_int(i), T.to_int(k))
            return sum([self.J(c, T.to_int(par), z3.IntVal(m)) * self.DI(c, z3.IntVal(m), T.to_int(p)) for m in range(6)], RV(0))
        return T.mk_sum(0, self.NG(0, T.to_int(i)), term)

    def resid(self, p):
        a, b = N.divmod_sym(p, self.ny)
        rows = T.mk_sum(0, self.na, lambda r: self.image(0, r, p)) + T.mk_sum(0, self.nf, lambda r: self.image(1, r, p))
        return self.pix.at(a, b) - rows


def flat(v, x):
    return N.as_nd(x)


def lnlike(cls):
    def body(v):
        """-1/2 the sum of squared weighted residuals; gradient of the active galaxies only"""
        w = PlanWorld(v)

        def th():
            v.stub(GM + ":compute_gaussian", w.core)
            v.stub(LK + ":compute_gaussian", w.core)
            o = v.call(LK + ":" + cls, w.stamp(), active=w.gigs(0, w.na), fixed=w.gigs(1, w.nf))
            v.I.setattr(o, "compute_keywords", S.SDict({"second_order": False}))
            return v.call(v.method(o, "lnlike"))

        def post(r):
            L, G = r
            v.eq("lnlike", N.as_nd(L).at(), RV("-1/2") * T.mk_sum(0, w.n, lambda p: (w.resid(p) * w.ie.at(p)) * (w.resid(p) * w.ie.at(p))))
            s, q = v.idx("s", w.na), v.idx("q", 7)
            v.is_shape("gradient-shape", G, (w.na, 7))
            cv = lambda p: w.resid(p) * w.ie.at(p) * w.ie.at(p)
            if cls == "WorkPlan":
                v.eq("gradient", G.at(s, q), T.mk_sum(0, w.n, lambda p: w.grad(s, q, p) * cv(p)))
            else:
                # the same with the (finite) sums over pixels and components interchanged
                def term(k):
                    c = w.C(0, s, T.to_int(k))
                    return sum([w.J(c, q, z3.IntVal(m)) * T.mk_sum(0, w.n, lambda p: w.DI(c, z3.IntVal(m), T.to_int(p)) * cv(p)) for m in range(6)], RV(0))
                v.eq("gradient", G.at(s, q), T.mk_sum(0, w.NG(0, s), term))
        v.run(th, post)
    body.__name__ = "lnlike_" + cls
    return body


for _c in ("WorkPlan", "FastWorkPlan"):
    contract(LK + f":{_c}.lnlike", LK + f":{_c}.process_pixels", LK + f":{_c}.reset", LK + ":WorkPlan.__init__")(lnlike(_c))


@contract(LK + ":make_image", LK + ":WorkPlan.process_pixels")
def one_source_image(v):
    """make_image restricted to one source of the plan is that source's image (active sources first, then fixed ones)"""
    w = PlanWorld(v)
    r = v.int("row", lo=0)
    v.assume(r < w.na + w.nf)

    def th():
        st = w.stamp()

        def plan(I, p, scene, stamp_index=None):
            v.ob("plan-of-the-stamp", v.I.getattr(p, "stamp") is st)
            p.set("active", w.gigs(0, w.na))
            p.set("fixed", w.gigs(1, w.nf))
            return p, S.SList([]), S.SList([])
        v.stub(LK + ":plan_sources", plan)
        v.stub(GM + ":compute_gaussian", w.core)
        v.stub(LK + ":compute_gaussian", w.core)
        return v.call(LK + ":make_image", S.Obj(None, "scene"), st, use_sources=slice(r, r + 1), compute_kwargs=S.SDict({"second_order": False}))

    def post(x):
        im = x[0]
        v.is_shape("shape", im, (w.nx, w.ny))
        a, b = v.idx("a", w.nx), v.idx("b", w.ny)
        p = a * w.ny + b
        v.lemma(z3.And(p >= 0, p < w.n), a >= 0, a < w.nx, b >= 0, b < w.ny)
        v.eq("image", im.at(a, b), ite(r < w.na, w.image(0, r, p), w.image(1, r - w.na, p)))
    v.run(th, post)


SRC = "forcepho.sources"
SHAPES = {"Star": ("ra", "dec"), "SimpleGalaxy": ("ra", "dec", "q", "pa"), "Galaxy": ("ra", "dec", "q", "pa", "sersic", "rhalf"),
          "ConformalShearGalaxy": ("ra", "dec", "ep", "ec", "sersic", "rhalf")}


def params(cls):
    def body(v):
        """parameter vector = fluxes, then the parameters of the source type, in order; setting and reading back"""
        nb = v.int("nb", lo=1)
        names = SHAPES[cls]

        def make():
            fl = S.SList(S.Seq(nb, lambda i: S.Name(T.to_int(i)), "filters"))
            return v.obj(f"{SRC}:{cls}", filternames=fl, flux=N.mk_nd((nb,), N.snap(v.arr("f0", (nb,))), "real"))
        th_ = v.arr("theta", (nb + len(names),))

        def th():
            o = make()
            v.call(v.method(o, "set_params"), th_)
            return o, v.call(v.method(o, "get_param_vector")), v.I.getattr(o, "n_params"), v.I.getattr(o, "use_gradients")

        def post(r):
            o, back, npar, sl = r
            b, k = v.idx("b", nb), v.idx("k", nb + len(names))
            v.eq("flux", N.as_nd(v.I.getattr(o, "flux")).at(b), th_.at(b))
            for i, nm in enumerate(names):
                v.eq(nm, N.as_nd(v.I.getattr(o, nm)).at(), th_.at(nb + i))
            v.is_shape("vector-shape", back, (nb + len(names),))
            v.eq("vector", back.at(k), th_.at(k))
            v.eq("n_params", npar, nb + len(names))
            # of (flux, ra, dec, q, pa, n, r), those before the parameters the type does not have
            ix = list(range(7))[sl]
            v.eq("gradients-used", ix, list(range(1 + len(names))))
        v.run(th, post)
    body.__name__ = "parameters_" + cls
    return body


for _c in SHAPES:
    contract(f"{SRC}:{_c}.set_params", f"{SRC}:{_c}.get_param_vector", SRC + ":Source.n_params", SRC + ":Source.use_gradients")(params(_c))


@contract(SRC + ":Galaxy.covariances", SRC + ":SimpleGalaxy.covariances", SRC + ":Star.covariances")
def covariances(v):
    """circular components of variance radius^2; a star has none"""
    n = v.int("n", lo=1)
    R = v.arr("radii", (n,))
    for cls in ("Galaxy", "SimpleGalaxy"):
        def th():
            return v.I.getattr(v.obj(f"{SRC}:{cls}", radii=R), "covariances")

        def post(c):
            i = v.idx("i", n)
            v.is_shape("shape", c, (n, 2, 2))
            for a in range(2):
                for b in range(2):
                    v.eq(f"{a}{b}", c.at(i, a, b), R.at(i) * R.at(i) if a == b else RV(0))
        v.run(th, post)

    def post(c):
        v.is_shape("star-shape", c, (1, 2, 2))
        for a in range(2):
            for b in range(2):
                v.eq("star", c.at(0, a, b), RV(0))
    v.run(lambda: v.I.getattr(v.obj(f"{SRC}:Star"), "covariances"), post)


@contract(SRC + ":Galaxy.amplitudes", SRC + ":Galaxy.damplitude_dsersic", SRC + ":Galaxy.damplitude_drh", SRC + ":Source.amplitudes",
          SRC + ":Source.damplitude_dsersic", SRC + ":Source.damplitude_drh")
def amplitudes(v):
    """mixture amplitudes and their derivatives come from the spline of that component, at (sersic, rhalf)"""
    ng = v.int("ng", lo=2)
    A = {k: z3.Function("A" + k, T.I, T.R, T.R, T.R) for k in ("", "x", "y")}
    R = v.arr("radii", (ng,))
    s, r, smin, smax = v.real("sersic"), v.real("rhalf"), v.real("smin"), v.real("smax")
    v.assume(s >= smin, r >= 0)

    def spline(i):
        def f(x, y, dx=0, dy=0):
            k = {(0, 0): "", (1, 0): "x", (0, 1): "y"}[(conc(dx), conc(dy))]
            return N.mk_nd((1, 1), lambda a, b: A[k](T.to_int(i), T.to_real(x), T.to_real(y)), "real")
        return f

    def th():
        o = v.obj(f"{SRC}:Galaxy", radii=R, sersic=s, rhalf=r, sersic_range=(smin, smax), splines=S.SList(S.Seq(ng, spline, "splines")))
        return [v.I.getattr(o, k) for k in ("amplitudes", "damplitude_dsersic", "damplitude_drh")]

    def post(x):
        i = v.idx("i", ng)
        for y, k, nm in zip(x, ("", "x", "y"), ("amplitude", "d-sersic", "d-rhalf")):
            v.is_shape(nm + "-shape", y, (ng,))
            v.eq(nm, y.at(i), A[k](i, s, r))
    v.run(th, post)

    def th2():
        o = v.obj(f"{SRC}:SimpleGalaxy", radii=R)
        return [v.I.getattr(o, k) for k in ("amplitudes", "damplitude_dsersic", "damplitude_drh")]

    def post2(x):
        i = v.idx("i", ng)
        v.eq("equal-amplitudes", x[0].at(i) * T.to_real(ng), RV(1))
        v.eq("constant-n", x[1].at(i), RV(0))
        v.eq("constant-r", x[2].at(i), RV(0))
    v.run(th2, post2)


@contract(SRC + ":Source.render", "forcepho.slow.stamp:PostageStamp.render")
def render(v):
    """a rendered source: its Gaussians evaluated in every pixel of the stamp (row-major), with the gradients its type has"""
    nx, ny = v.int("nx", lo=1), v.int("ny", lo=1)
    x, y = v.arr("xpix", (nx, ny)), v.arr("ypix", (nx, ny))
    IM, GR = z3.Function("im", T.I, T.R), z3.Function("gr", T.I, T.I, T.R)
    for cls in SHAPES:
        for deriv in (True, False):
            gig = S.Obj(None, "gig")
            box = {}

            def conv(I, source, stamp, compute_deriv=False):
                v.eq("jacobians-when-needed", bool(conc(compute_deriv)) or not deriv, True)
                return gig

            def comp(I, g, xp, yp, compute_deriv=True, **kw):
                p = v.idx("p", nx * ny)
                a, b = N.divmod_sym(p, ny)
                v.ob("its-gaussians", g is gig)
                v.eq("x", N.as_nd(xp).at(p), x.at(a, b))
                v.eq("y", N.as_nd(yp).at(p), y.at(a, b))
                v.eq("keywords", kw, {"second_order": False})
                return (N.mk_nd((nx * ny,), lambda i: IM(T.to_int(i)), "real"),
                        N.mk_nd((7, nx * ny), lambda k, i: GR(T.to_int(k), T.to_int(i)), "real") if conc(compute_deriv) else None)

            def th():
                o = v.obj(f"{SRC}:{cls}", **({"ep": v.real("ep"), "ec": v.real("ec")} if cls == "ConformalShearGalaxy" else {}))
                box["o"] = o
                st = v.obj("forcepho.slow.stamp:PostageStamp", nx=nx, ny=ny, xpix=x, ypix=y, filtername="F")
                for m in (GM, SRC):
                    v.stub(m + ":convert_to_gaussians", conv)
                    v.stub(m + ":compute_gig", comp)
                return v.call(v.method(st, "render"), o, compute_deriv=deriv, second_order=False)

            def post(r):
                p = v.idx("p", nx * ny)
                v.eq("image", r[0].at(p), IM(p))
                if deriv:
                    n = 1 + len(SHAPES[cls])
                    v.is_shape("gradient-shape", r[1], (n, nx * ny))
                    J = None
                    if cls == "ConformalShearGalaxy":
                        J = N.as_nd(v.I.getattr(box["o"], "ds_deta"))
                    for k in range(n):
                        want = GR(z3.IntVal(k), p)
                        if J is not None and k in (3, 4):
                            want = J.at(k - 3, 0) * GR(z3.IntVal(3), p) + J.at(k - 3, 1) * GR(z3.IntVal(4), p)
                        v.eq("gradient", r[1].at(k, p), want)
            v.run(th, post)


@contract(SRC + ":ConformalShearGalaxy.ds_deta", SRC + ":ConformalShearGalaxy.q", SRC + ":ConformalShearGalaxy.pa")
def shear_jacobian(v):
    """d(q, pa)/d(eta_+, eta_x) for q = exp(-|eta|/2), 2 pa the angle of eta"""
    ep, ec = v.real("ep"), v.real("ec")
    v.assume(z3.Or(ep != 0, ec != 0))

    def th():
        o = v.obj(f"{SRC}:ConformalShearGalaxy", ep=ep, ec=ec)
        return [v.I.getattr(o, k) for k in ("q", "pa", "ds_deta")]

    def post(r):
        Q, P, J = N.as_nd(r[0]).at(), N.as_nd(r[1]).at(), r[2]
        v.eq("q", Q, T.exp(-T.sqrt(ep * ep + ec * ec) / 2))
        h, l = RV("1/2"), T.log(Q * Q)
        v.eq("dq_dep", J.at(0, 0), -h * Q * T.cos(2 * P))
        v.eq("dq_dec", J.at(1, 0), -h * Q * T.sin(2 * P))
        v.eq("dpa_dep", J.at(0, 1), T.sin(2 * P) / (2 * l))
        v.eq("dpa_dec", J.at(1, 1), -T.cos(2 * P) / (2 * l))
    v.run(th, post)


class MultiWorld:
    def __init__(self, v, types, fixed, cover):
        """three sources (type, fixed?) and stamps in bands A and B; cover[stamp][source] as PostageStamp.coverage"""
        self.v = v
        self.types, self.fixed, self.cover = types, fixed, cover
        self.npar = [2 + len(SHAPES[t]) for t in types]
        self.start = [sum(p for p, f in zip(self.npar[:i], fixed) if not f) for i in range(len(types))]
        self.total = sum(p for p, f in zip(self.npar, fixed) if not f)
        self.set = []

    def scene(self):
        v = self.v
        srcs = []
        for k, (t, f) in enumerate(zip(self.types, self.fixed)):
            srcs.append(v.obj(f"{SRC}:{t}", filternames=S.SList(["A", "B"]), fixed=f, id=k, flux=N.mk_nd((2,), N.snap(v.arr(f"flux{k}", (2,))), "real")))
        self.srcs = srcs
        return v.obj(f"{SRC}:Scene", sources=S.SList(srcs))

    def plan(self, k, band):
        v = self.v
        cov = lambda s: self.cover[k][[x is s for x in self.srcs].index(True)]
        st = v.obj("forcepho.slow.stamp:PostageStamp", filtername=band, coverage=cov, id=k)
        o = S.Obj(None, "plan", stamp=st)

        def lnlike(*a, **kw):
            n = len(o.a["active"].v)
            self.nact[k] = [self.who[id(g)] for g in o.a["active"].v]
            self.nfix[k] = [self.who[id(g)] for g in o.a["fixed"].v]
            return z3.Real(f"L{k}"), N.mk_nd((n, 7), lambda i, p: z3.Function(f"G{k}", T.I, T.I, T.R)(T.to_int(i), T.to_int(p)), "real")
        o.set("lnlike", lnlike)
        return o

    def run(self, theta):
        v = self.v
        self.who, self.nact, self.nfix, keep = {}, {}, {}, []

        def conv(I, source, stamp, compute_deriv=False):
            g = S.Obj(None, "gig")
            keep.append(g)
            k = [x is source for x in self.srcs].index(True)
            self.who[id(g)] = (k, stamp.a["id"], bool(compute_deriv), tuple(T.to_real(N.as_nd(v.I.getattr(source, "flux")).at(b)) for b in range(2)))
            return g

        def grads(I, source, stamp, gig):
            k, s, d, f = self.who[id(gig)]
            v.ob("gradients-for-the-same-source-and-stamp", self.srcs[k] is source and s == stamp.a["id"])
            self.who[id(gig)] = (k, s, True, f)
            return gig
        for m in (GM, LK):
            v.stub(m + ":convert_to_gaussians", conv)
            v.stub(m + ":get_gaussian_gradients", grads)
        sc = self.scene()
        self.keep = keep
        return v.call(LK + ":lnlike_multi", theta, sc, S.SList([self.plan(0, "A"), self.plan(1, "B")]))


def multi(types):
    def body(v):
        """the parameters are set in the scene; likelihoods of the stamps add; gradient entries go to the source, parameter and band"""
        import itertools
        for fixed in itertools.product((False, True), repeat=len(types)):
            if all(fixed):
                continue
            for c0 in itertools.product((0, 1, 2), repeat=len(types)):
                w = MultiWorld(v, types, fixed, [c0, (2,) * len(types)])
                theta = v.arr("theta", (w.total,))

                def post(r):
                    lnp, g = r
                    v.eq("sum", N.as_nd(lnp).at(), z3.Real("L0") + z3.Real("L1"))
                    v.is_shape("gradient-length", g, (w.total,))
                    act = [[s for s in range(len(types)) if w.cover[k][s] > 1 and not fixed[s]] for k in range(2)]
                    fix = [[s for s in range(len(types)) if w.cover[k][s] == 1 or (w.cover[k][s] > 1 and fixed[s])] for k in range(2)]
                    for k in range(2):
                        v.eq("active-sources", [(x[0], x[1], x[2]) for x in w.nact[k]], [(s, k, True) for s in act[k]])
                        v.eq("fixed-sources", [(x[0], x[1]) for x in w.nfix[k]], [(s, k) for s in fix[k]])
                        for x in w.nact[k]:
                            for b in range(2):
                                v.eq("parameters-were-set", x[3][b], theta.at(w.start[x[0]] + b))
                    for s in range(len(types)):
                        if fixed[s]:
                            continue
                        for p in range(w.npar[s]):
                            want = RV(0)
                            for k in range(2):
                                if s in act[k] and (p >= 2 or p == k):
                                    want = want + z3.Function(f"G{k}", T.I, T.I, T.R)(z3.IntVal(act[k].index(s)), z3.IntVal(0 if p < 2 else p - 1))
                            v.eq("gradient-entry", g.at(w.start[s] + p), want)
                v.run(lambda: w.run(theta), post)
    body.__name__ = "multi_" + "_".join(types)
    return body


BOUNDED.append("lnlike_multi / plan_sources: scenes of 2 sources, 2 stamps in 2 bands; every fixed flag and coverage")
for _t in (("Galaxy", "Star"), ("SimpleGalaxy", "Galaxy")):
    contract(LK + ":lnlike_multi", LK + ":plan_sources", SRC + ":Scene.set_all_source_params", SRC + ":Scene.param_indices",
             SRC + ":Source.filter_index", bounded=True)(multi(_t))




PF = "forcepho.slow.psf"


@contract(PF + ":PointSpreadFunction.__init__", PF + ":PointSpreadFunction.make_from_parameters", PF + ":PointSpreadFunction.as_tuplelist", bounded=True)
def psf_parameters(v):
    """the mixture made from stored PSF parameters has component i with the amplitude, centre and covariance of row i (bounded: three
    components, either name of the centre columns)"""
    for k in (1, 3):
        for cen in (("xcr", "ycr"), ("xcen", "ycen")):
            cols = ["amp", cen[0], cen[1], "Cxx", "Cyy", "Cxy"]
            A = {c: v.arr(f"{c}{k}{cen[0]}", (k,)) for c in cols}

            def th():
                rec = S.Rec((k,), {c: (S.Buf(1, lambda ix, f=N.snap(A[c]): f(T.to_int(ix[0])), "real"), ()) for c in cols}, None, name="psf")
                rec.name = "psf"          # the table has no other columns
                o = v.call(PF + ":PointSpreadFunction", rec)
                return o, v.call(v.method(o, "as_tuplelist"))

            def post(r):
                o, tl = r
                v.eq("n_gauss", v.I.getattr(o, "n_gauss"), k)
                mu, C, am = v.I.getattr(o, "means"), v.I.getattr(o, "covariances"), v.I.getattr(o, "amplitudes")
                v.is_shape("means-shape", mu, (k, 2))
                v.is_shape("covariances-shape", C, (k, 2, 2))
                v.is_shape("amplitudes-shape", am, (k,))
                v.eq("tuples", N.np_len(tl), k)
                for i in range(k):
                    x, y = A[cen[0]].at(i), A[cen[1]].at(i)
                    v.eq("amplitude", am.at(i), A["amp"].at(i))
                    v.eq("x", mu.at(i, 0), x)
                    v.eq("y", mu.at(i, 1), y)
                    v.eq("cxx", C.at(i, 0, 0), A["Cxx"].at(i))
                    v.eq("cyy", C.at(i, 1, 1), A["Cyy"].at(i))
                    v.eq("cxy", C.at(i, 0, 1), A["Cxy"].at(i))
                    v.eq("cyx", C.at(i, 1, 0), A["Cxy"].at(i))
                    t = v.I.getitem(tl, i)
                    for q, w in enumerate((A["amp"].at(i), x, y, A["Cxx"].at(i), A["Cyy"].at(i), A["Cxy"].at(i))):
                        v.eq(f"tuple-{q}", v.I.getitem(t, q), w)
            v.run(th, post)


@contract(PF + ":make_psf", PF + ":params_to_gauss", bounded=True)
def psf_fits(v):
    """fitted parameters (amplitude, row, column, widths along both, correlation) of an oversampled PSF image become detector-pixel
    Gaussians: centres relative to the image centre, covariances divided by the oversampling squared (bounded: two components)"""
    k = 2
    p = v.arr("fit", (6 * k,))
    os_, c = v.real("oversample"), v.real("center")
    v.assume(os_ > 0)

    def th():
        return v.call(PF + ":make_psf", S.SDict({"fitted_params": p}), oversample=os_, center=c)

    def post(o):
        v.eq("n_gauss", v.I.getattr(o, "n_gauss"), k)
        mu, C, am = v.I.getattr(o, "means"), v.I.getattr(o, "covariances"), v.I.getattr(o, "amplitudes")
        for i in range(k):
            a, y, x, sy, sx, rho = (p.at(6 * i + q) for q in range(6))
            v.eq("amplitude", am.at(i), a)
            v.eq("x", mu.at(i, 0), (x - c) / os_)
            v.eq("y", mu.at(i, 1), (y - c) / os_)
            v.eq("cxx", C.at(i, 0, 0), sx * sx / (os_ * os_))
            v.eq("cyy", C.at(i, 1, 1), sy * sy / (os_ * os_))
            v.eq("cxy", C.at(i, 0, 1), rho * sx * sy / (os_ * os_))
            v.eq("cyx", C.at(i, 1, 0), rho * sx * sy / (os_ * os_))
    v.run(th, post)
