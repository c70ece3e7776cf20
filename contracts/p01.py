"""P01: the compiled residual is data minus model and the chi-square is its sum."""
from contracts.kern import *
from contracts.kern import TRUSTED


@contract("src/common_kernel.cc:ComputeResidualImage")
def residual_image(v):
    """data - sum over ALL gaussians inside the cut of their pixel counts, for any number of gaussians"""
    k = K(v)
    n = v.int("n", lo=0)
    off, tot = v.int("off", lo=0), v.int("tot", lo=0)
    v.assume(off + n <= tot)
    g = k.sym_rec("ImageGaussian", tot, "ig")
    xp, yp, data = v.real("xp"), v.real("yp"), v.real("data")
    cut = k.limit("MAX_EXP_ARG")

    def th():
        return k.call("ComputeResidualImage", xp, yp, data, g, off, n)

    def post(r):
        def term(j):
            p = gat(g, off + j)
            return ite(mahal(xp, yp, p) > T.rv(T.frac(cut)), RV(0), count(xp, yp, p))
        v.eq("data-minus-model", r, data - T.mk_sum(0, n, term))
    v.run(th, post)


def gj_setup(v):
    """an arbitrary source Gaussian and PSF Gaussian whose convolution is a proper Gaussian"""
    k = K(v)
    s = k.sym_obj("PixGaussian", "s")
    s.a["scovar_im"] = k.new("matrix22")
    p = k.sym_obj("PSFSourceGaussian", "p")
    TT = mat(s.a["T"])
    cov = madd(mscale(s.a["covar"], mmul(TT, mtr(TT))), [[p.a["Cxx"], p.a["Cxy"]], [p.a["Cxy"], p.a["Cyy"]]])
    det = cov[0][0] * cov[1][1] - cov[0][1] * cov[1][0]
    v.assume(det > 0, cov[0][0] > 0)
    return k, s, p, cov, det


@contract("src/common_kernel.cc:GetGaussianAndJacobian", "src/matrix22.cc:AAt", "src/matrix22.cc:inv", "src/matrix22.cc:det",
          "src/matrix22.cc:operator*", "src/matrix22.cc:operator+")
def convolved_gaussian(v):
    """image Gaussian = source Gaussian (covariance covar*T*T^t) convolved with the PSF Gaussian"""
    k, s, p, cov, det = gj_setup(v)
    before = {f: s.a[f] for f in ("amp", "xcen", "ycen", "covar", "flux", "G", "da_dn", "da_dr")}
    tm = mat(s.a["T"])
    n, o = v.int("n", lo=1), v.int("o", lo=0)
    v.assume(o < n)
    g = k.sym_rec("ImageGaussian", n, "ig")

    def th():
        k.call("GetGaussianAndJacobian", s, 0, p, 0, g, o)
        return gat(g, o), gat(g, v.idx("other", n))

    def post(r):
        r = r[0]
        F = [[r["fxx"], r["fxy"]], [r["fxy"], r["fyy"]]]
        one = mmul(F, cov)
        for i in range(2):
            for j in range(2):
                v.eq(f"inverse-covariance-{i}{j}", one[i][j], RV(1 if i == j else 0))
        v.eq("x-centre", r["xcen"], s.a["xcen"] + p.a["xcen"])
        v.eq("y-centre", r["ycen"], s.a["ycen"] + p.a["ycen"])
        flux = before["flux"] * before["G"] * before["amp"] * p.a["amp"]
        v.eq("normalisation", r["amp"], flux / (2 * T.PI * T.sqrt(det)))
        # the source description is not disturbed (it is reused for the next PSF component)
        for f, x in before.items():
            v.eq(f"source-{f}-unchanged", s.a[f], x)
        for i in range(2):
            for j in range(2):
                v.eq(f"source-T-unchanged-{i}{j}", mat(s.a["T"])[i][j], tm[i][j])
        # nothing but element o is written
        q = v.idx("q", n)
        v.assume(q != o)
        for f in GP + JAC:
            v.eq("frame-" + f, g.field(f).at(q), T.ufun("ig_" + f, T.I, T.R)(q))
    v.run(th, post)


@contract("src/compute_gaussians_kernel.cc:ConvolveOneSource", "src/matrix22.cc:rot", "src/matrix22.cc:scale", "src/matrix22.cc:Av")
def convolve_one_source(v):
    """every (source, PSF component) pair is convolved once, with the astrometry, PSF, profile and flux of that
    exposure/source/band, and stored at source*npsf + component"""
    k = K(v)
    w = PatchWorld(v, k)
    b, e, g = v.idx("b", w.nb), v.idx("e", w.ne), v.idx("g", w.ns)
    w.band(b)
    w.exposure(b, e)
    npsf = w.npsf
    ig = k.sym_rec("ImageGaussian", w.ns * npsf, "ig")
    v.assume(w.src.field("q").at(g) > 0)
    tot = w.ns * npsf
    v.assume(g * npsf + npsf <= tot)          # g <= n_sources-1, nonlinear
    U = {f: T.ufun("out_" + f, T.I, T.R) for f in GP + JAC}

    def gj(I, s, so, p, po, o, oo):
        """callee contract: preconditions checked here"""
        v.ob("distinct-output-array", o is ig and p is w.psf)
        c = po - w.a["psfgauss_start"].at(e)
        v.ob("psf-component-of-this-exposure", z3.And(c >= 0, c < npsf))
        v.eq("stored-at-source-and-component", oo, g * npsf + c)
        sb = w.psf.field("sersic_radius_bin").at(po)
        v.assume(sb >= 0, sb < w.nr)
        gf = lambda f, *i: w.src.field(f).at(g, *i)
        v.eq("radius", s.a["covar"], w.a["rad2"].at(sb))
        v.eq("profile-amplitude", s.a["amp"], gf("mixture_amplitudes", sb))
        v.eq("profile-amplitude-dn", s.a["da_dn"], gf("damplitude_dnsersic", sb))
        v.eq("profile-amplitude-dr", s.a["da_dr"], gf("damplitude_drh", sb))
        v.eq("band-flux", s.a["flux"], gf("fluxes", b))
        v.eq("calibration", s.a["G"], w.a["G"].at(e))
        D, CW = w.m22("D", e, g), w.m22("CW", e, g)
        pa, q = gf("pa"), gf("q")
        R = [[T.cos(pa), -T.sin(pa)], [T.sin(pa), T.cos(pa)]]
        Sc = [[1 / q, RV(0)], [RV(0), q]]
        TT = mmul(mmul(D, R), Sc)
        crv, crp = w.v2("crval", e, g), w.v2("crpix", e, g)
        d = [gf("ra") - crv[0], gf("dec") - crv[1]]
        for i in range(2):
            for j in range(2):
                v.eq(f"shape-matrix-{i}{j}", mat(s.a["T"])[i][j], TT[i][j])
                v.eq(f"position-matrix-{i}{j}", mat(s.a["CW"])[i][j], CW[i][j])
        v.eq("x-position", s.a["xcen"], CW[0][0] * d[0] + CW[0][1] * d[1] + crp[0])
        v.eq("y-position", s.a["ycen"], CW[1][0] * d[0] + CW[1][1] * d[1] + crp[1])
        # and the quantities the gradient needs are derivatives of those (used by P02)
        X = {"xcen": s.a["xcen"], "ycen": s.a["ycen"]}
        for i, f in enumerate(("xcen", "ycen")):
            v.eq(f"d{f}-dra", mat(s.a["CW"])[i][0], v.diff_at(X[f], gf("ra")))
            v.eq(f"d{f}-ddec", mat(s.a["CW"])[i][1], v.diff_at(X[f], gf("dec")))
        for i in range(2):
            for j in range(2):
                v.eq(f"dT-dq-{i}{j}", mat(s.a["dT_dq"])[i][j], v.diff_at(TT[i][j], q))
                v.eq(f"dT-dpa-{i}{j}", mat(s.a["dT_dpa"])[i][j], v.diff_at(TT[i][j], pa))
        for f in U:
            N.setitem(o.field(f), oo, U[f](T.to_int(oo)))
        s.a["scovar_im"].set("v11", T.fresh("sc"))
    v.stub("kernel:GetGaussianAndJacobian", gj)

    def th():
        k.call("ConvolveOneSource", b, e, g, npsf, w.patch, 0, w.src, 0, ig, 0)

    def post(_):
        c = v.idx("c", npsf)
        for f in U:
            v.eq("all-components-" + f, ig.field(f).at(g * npsf + c), U[f](g * npsf + c))
        q = v.idx("qq", tot)
        v.assume(z3.Or(q < g * npsf, q >= g * npsf + npsf))
        for f in U:
            v.eq("frame-" + f, ig.field(f).at(q), T.ufun("ig_" + f, T.I, T.R)(q))
    v.run(th, post)


@contract("src/compute_gaussians_kernel.cc:CreateImageGaussians")
def create_image_gaussians(v):
    """every source of the patch is convolved for this exposure"""
    k = K(v)
    w = PatchWorld(v, k)
    b, e = v.idx("b", w.nb), v.idx("e", w.ne)
    w.band(b)
    w.exposure(b, e)
    npsf = w.npsf
    ig = k.sym_rec("ImageGaussian", w.ns * npsf, "ig")
    U = {f: T.ufun("out_" + f, T.I, T.R) for f in GP + JAC}

    def conv(I, band, ex, g, np_, patch, po, src, so, im, io):
        v.eq("band", band, b)
        v.eq("exposure", ex, e)
        v.ob("source-in-range", z3.And(T.to_int(g) >= 0, T.to_int(g) < w.ns))
        v.eq("components", np_, npsf)
        v.ob("arguments", patch is w.patch and src is w.src and im is ig)
        v.eq("offsets", io, 0)
        for f in U:
            # written: [g*npsf, (g+1)*npsf)
            N.setitem(im.field(f), slice(arith("*", g, npsf), arith("*", arith("+", g, 1), npsf)),
                      N.mk_nd((npsf,), lambda c, f=f: U[f](T.to_int(arith("+", arith("*", g, npsf), c))), "real"))
    v.stub("kernel:ConvolveOneSource", conv)

    def th():
        k.call("CreateImageGaussians", b, e, w.patch, 0, w.src, 0, ig, 0)

    def post(_):
        g, c = v.idx("g", w.ns), v.idx("c", npsf)
        for f in U:
            v.eq("all-sources-" + f, ig.field(f).at(g * npsf + c), U[f](g * npsf + c))
    v.run(th, post)


class EvalWorld:
    """EvaluateProposal over the contracts of its callees"""
    def __init__(self, v, grads=False):
        self.v = v
        self.grads = grads
        v.I.light = True
        self.k = k = K(v)
        self.w = w = PatchWorld(v, k)
        self.b = v.idx("b", w.nb)
        w.band(self.b)
        w.quant(self.b)
        self.npsf = w.npsf
        # imageGaussian field f of component j in exposure e (any values)
        self.U = {f: T.ufun("out_" + f, T.I, T.I, T.R) for f in GP + JAC}
        self.CNT = T.ufun("pixel_count", *([T.R] * 9))
        self.DER = {j: T.ufun("pixel_deriv%d" % j, *([T.R] * (3 + len(GP) + len(JAC) + 1))) for j in range(7)}
        self.keep = {f: N.snap(x) for f, x in w.a.items() if isinstance(x, S.Nd)}
        v.stub("kernel:CreateImageGaussians", self.create)
        v.stub("kernel:ComputeResidualImage", self.resid)
        v.stub("kernel:ComputeGaussianDerivative", self.deriv)

    def create(self, I, band, ex, patch, po, src, so, im, io):
        v, w = self.v, self.w
        v.eq("convolve-band", band, self.b)
        v.ob("convolve-exposure-of-this-band", z3.And(T.to_int(ex) >= w.a["band_start"].at(self.b),
                                                      T.to_int(ex) < w.a["band_start"].at(self.b) + w.a["band_N"].at(self.b)))
        v.ob("convolve-arguments", patch is w.patch and src is w.src)
        v.eq("convolve-offset", io, 0)
        v.eq("convolve-room", im.shape[0], w.ns * self.npsf)
        for f, u in self.U.items():
            im.fields[f][0].set(lambda ix, u=u: u(T.to_int(ex), T.to_int(ix[0])))     # the whole array is (re)written

    def cnt(self, xp, yp, g):
        return self.CNT(*[T.to_real(x) for x in (xp, yp)], *[T.to_real(g[f]) for f in GP])

    def resid(self, I, xp, yp, data, g, o, n):
        v, w = self.v, self.w
        v.ob("model-gaussians-in-bounds", z3.And(T.to_int(o) >= 0, T.to_int(arith("+", o, n)) <= T.to_int(g.shape[0])))
        return arith("-", data, T.mk_sum(0, T.to_int(n), lambda j: self.cnt(xp, yp, gat(g, arith("+", o, j)))))

    def deriv(self, I, xp, yp, r, g, o, d, do, n):
        v = self.v
        v.ob("derivative-gaussians-in-bounds", z3.And(T.to_int(o) >= 0, T.to_int(arith("+", o, n)) <= T.to_int(g.shape[0])))
        v.ob("derivative-output-in-bounds", land(cmp(">=", do, 0), cmp("<=", arith("+", do, 7), d.shape[0])))
        if not self.grads:
            # frame: only the seven entries are written, with values of no interest here
            u = T.fresh_fun("someder", T.I, T.R)
            d.buf.set(lambda ix: u(T.to_int(ix[0])))
            return
        for j in range(7):
            def term(c):
                x = gat(g, arith("+", o, c), GP + JAC)
                return self.DER[j](*[T.to_real(t) for t in (xp, yp, r)], *[T.to_real(x[f]) for f in GP + JAC])
            s = T.mk_sum(0, T.to_int(n), term)
            kx = arith("+", do, j)
            N.setitem(d, kx, arith("+", d.at(kx), s))

    def run(self):
        return self.k.call("EvaluateProposal", self.b, self.w.patch, self.w.src)

    # specification
    def pix(self, e, p):
        a = self.w.a
        i = a["exposure_start"].at(e) + p
        return i

    def model(self, e, i):
        a = self.w.a
        n = self.w.ns * self.npsf
        return T.mk_sum(0, n, lambda c: self.cnt(a["xpix"].at(i), a["ypix"].at(i), {f: self.U[f](T.to_int(e), T.to_int(c)) for f in GP}))

    def over(self, fn):
        a, b = self.w.a, self.b
        return T.mk_sum(0, a["band_N"].at(b), lambda x: T.mk_sum(
            0, a["exposure_N"].at(a["band_start"].at(b) + x), lambda p: fn(a["band_start"].at(b) + x, self.pix(a["band_start"].at(b) + x, p))))

    def chi2(self):
        a = self.w.a

        def t(e, i):
            r = a["data"].at(i) - self.model(e, i)
            return (r * r - a["data"].at(i) * a["data"].at(i)) * a["ierr"].at(i) * a["ierr"].at(i)
        return self.over(t)


@contract("src/compute_gaussians_kernel.cc:EvaluateProposal")
def evaluate_chi2(v):
    """chi-square of the band, with the residual image requested or not"""
    E = EvalWorld(v)

    def th():
        return E.run()

    def post(r):
        v.eq("chi2-is-sum-over-pixels-of-the-band", r.a["chi2"], E.chi2())
        for f, s in E.keep.items():
            x = E.w.a[f]
            i = v.idx("i", x.shape[0])
            v.eq(f"patch-{f}-unchanged", x.at(i), s(i))
    v.run(th, post)
    E.w.patch.set("residual", None)
    v.run(th, post)


@contract("src/compute_gaussians_kernel.cc:EvaluateProposal")
def evaluate_residual(v):
    """residual image: every pixel of every exposure of the band holds data minus model, others are untouched"""
    E = EvalWorld(v)
    E.k.bounds = False                              # memory safety: evaluate_chi2
    a, b, w = E.w.a, E.b, E.w
    own = T.ufun("owner_exposure", T.I, T.I)       # ghost: exposures occupy disjoint pixel ranges (P12)
    x, y = z3.Int("own_e"), z3.Int("own_p")
    st, nn = a["exposure_start"], a["exposure_N"]
    v.assume(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < w.ne, y >= st.at(x), y < st.at(x) + nn.at(x)), own(y) == x),
                       patterns=[z3.MultiPattern(own(y), st.at(x))]))
    v.I.inverse_hints = [lambda ix: [own(t) - a["band_start"].at(b) for t in ix[:1]] if len(ix) == 1 else []]
    res = w.patch.a["residual"]

    def th():
        return E.run()

    def post(r):
        e, = [v.idx("e", a["band_N"].at(b))]
        ex = a["band_start"].at(b) + e
        p = v.idx("p", nn.at(ex))
        i = st.at(ex) + p
        v.assume(own(i) == ex)
        v.eq("residual-is-data-minus-model", w.patch.a["residual"].at(i), a["data"].at(i) - E.model(ex, i))
    v.run(th, post)

contract(PR + ":CPUProposer.evaluate_proposal", PR + ":CPUProposer.send_to_device")(proposer("chi"))
