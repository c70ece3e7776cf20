"""shared specification of the compiled kernel (see ve/cxx.py for the extraction)"""
from ve.spec import *
from ve import cxx

TRUSTED = ["clang 18 parser (C++ semantic analysis of the kernel)", "ve/cxx.py translation clang AST -> executable AST",
           "pybind11 array_t/buffer_info hand out one writable buffer"]
MAT = ("v11", "v12", "v21", "v22")
GP = ("amp", "xcen", "ycen", "fxx", "fyy", "fxy")
JAC = ("dA_dFlux", "dx_dAlpha", "dy_dAlpha", "dx_dDelta", "dy_dDelta", "dA_dQ", "dFxx_dQ", "dFyy_dQ", "dFxy_dQ",
       "dA_dPA", "dFxx_dPA", "dFyy_dPA", "dFxy_dPA", "dA_dSersic", "dA_drh")
PAR = ("flux", "ra", "dec", "q", "pa", "n", "r")
RV = z3.RealVal


class K(cxx.Kernel):
    def sym_rec(self, rn, n, tag):
        """array of n structs with arbitrary contents"""
        fields = {}
        for f, q, d in self.tu.fields(rn):
            if cxx.is_arr(q):
                kd = cxx.kind_of(cxx.pointee(q))
                u = T.ufun(f"{tag}_{f}", T.I, T.I, S.kind_sort(kd))
                fields[f] = (S.Buf(2, lambda ix, u=u: u(T.to_int(ix[0]), T.to_int(ix[1])), kd), (cxx.arr_len(q),))
            else:
                kd = cxx.kind_of(q)
                u = T.ufun(f"{tag}_{f}", T.I, S.kind_sort(kd))
                fields[f] = (S.Buf(1, lambda ix, u=u: u(T.to_int(ix[0])), kd), ())
        return S.Rec((n,), fields, name=rn)

    def sym_obj(self, rn, tag):
        o = S.Obj(None, rn)
        for f, q, d in self.tu.fields(rn):
            if self.tu.is_struct(q):
                o.a[f] = self.sym_obj(cxx.strip(q), f"{tag}_{f}")
            else:
                o.a[f] = z3.Real(f"{tag}_{f}") if cxx.kind_of(q) == "real" else z3.Int(f"{tag}_{f}")
        return o

    def limit(self, k):
        return self.I.resolve("forcepho.kernel_limits:" + k)


def parts(xp, yp, g):
    dx, dy = xp - g["xcen"], yp - g["ycen"]
    vx, vy = g["fxx"] * dx + g["fxy"] * dy, g["fxy"] * dx + g["fyy"] * dy
    return dx, dy, vx, vy


def mahal(xp, yp, g):
    dx, dy = xp - g["xcen"], yp - g["ycen"]
    return g["fxx"] * dx * dx + 2 * g["fxy"] * dx * dy + g["fyy"] * dy * dy


def count(xp, yp, g):
    """Gaussian integrated over the unit pixel to second order (midpoint + Laplacian/24)"""
    dx, dy, vx, vy = parts(xp, yp, g)
    return g["amp"] * T.exp(RV("-1/2") * mahal(xp, yp, g)) * (1 + (vx * vx + vy * vy - g["fxx"] - g["fyy"]) / 24)


def gat(rec, k, names=GP):
    return {f: rec.field(f).at(k) for f in names}


def mmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)] for i in range(2)]


def mtr(a):
    return [[a[j][i] for j in range(2)] for i in range(2)]


def madd(a, b):
    return [[a[i][j] + b[i][j] for j in range(2)] for i in range(2)]


def mscale(s, a):
    return [[s * a[i][j] for j in range(2)] for i in range(2)]


def mat(o):
    return [[o.a["v11"], o.a["v12"]], [o.a["v21"], o.a["v22"]]]


class PatchWorld:
    """an arbitrary packed patch: shapes and index ranges as established by packing (P12, P13)"""
    def __init__(self, v, k):
        self.v, self.k = v, k
        I = v.int
        self.nb, self.ne, self.ns, self.npsf_tot, self.npix, self.nr = (I("n_bands", lo=1), I("n_exp", lo=1), I("n_sources", lo=1),
                                                                       I("n_psf_tot", lo=1), I("n_pix", lo=0), I("n_radii", lo=1))
        self.maxr, self.maxb, self.maxs = k.limit("MAXRADII"), k.limit("MAXBANDS"), k.limit("MAXSOURCES")
        v.assume(self.nr <= self.maxr, self.nb <= self.maxb, self.ns <= self.maxs)
        A = v.arr
        ne, ns = self.ne, self.ns
        self.psf = k.sym_rec("PSFSourceGaussian", self.npsf_tot, "psf")
        self.a = dict(data=A("data", (self.npix,)), ierr=A("ierr", (self.npix,)), xpix=A("xpix", (self.npix,)), ypix=A("ypix", (self.npix,)),
                      exposure_start=A("exp_start", (ne,), "int"), exposure_N=A("exp_N", (ne,), "int"),
                      band_start=A("band_start", (self.nb,), "int"), band_N=A("band_N", (self.nb,), "int"),
                      n_sources=ns, n_radii=self.nr, rad2=A("rad2", (self.nr,)),
                      D=A("D", (4 * ns * ne,)), CW=A("CW", (4 * ns * ne,)), crpix=A("crpix", (2 * ns * ne,)), crval=A("crval", (2 * ns * ne,)),
                      G=A("G", (ne,)), n_psf_per_source=A("npsf", (self.nb,), "int"), psfgauss=self.psf,
                      psfgauss_start=A("psf_start", (ne,), "int"))
        self.patch = S.Obj(None, "Patch", **self.a)
        self.patch.a["residual"] = A("residual", (self.npix,))
        self.src = k.sym_rec("Source", ns, "src")

    def band(self, b):
        """facts packing establishes about band b"""
        v, a = self.v, self.a
        v.assume(a["n_psf_per_source"].at(b) >= 0, a["band_start"].at(b) >= 0, a["band_N"].at(b) >= 0,
                 a["band_start"].at(b) + a["band_N"].at(b) <= self.ne)
        self.npsf = a["n_psf_per_source"].at(b)

    def quant(self, b):
        """range facts for every exposure of band b"""
        v, a = self.v, self.a
        v.assume(v.forall((self.ne,), lambda e: z3.And(a["exposure_start"].at(e) >= 0, a["exposure_N"].at(e) >= 0,
                                                       a["exposure_start"].at(e) + a["exposure_N"].at(e) <= self.npix)))

    def exposure(self, b, e):
        v, a = self.v, self.a
        v.assume(e >= 0, e < self.ne, a["psfgauss_start"].at(e) >= 0, a["psfgauss_start"].at(e) + self.npsf <= self.npsf_tot,
                 a["exposure_start"].at(e) >= 0, a["exposure_N"].at(e) >= 0, a["exposure_start"].at(e) + a["exposure_N"].at(e) <= self.npix)
        v.assume(v.forall((self.npsf_tot,), lambda j: z3.And(self.psf.field("sersic_radius_bin").at(j) >= 0,
                                                             self.psf.field("sersic_radius_bin").at(j) < self.nr)))

    def m22(self, nm, e, g):
        x = self.a[nm]
        b = 4 * (self.ns * e + g)
        return [[x.at(b + 2 * i + j) for j in range(2)] for i in range(2)]

    def v2(self, nm, e, g):
        x = self.a[nm]
        b = 2 * (self.ns * e + g)
        return [x.at(b), x.at(b + 1)]


PR = "forcepho.proposal"


def proposer(tag):
    def body(v):
        """one kernel call per band, on the packed patch and a copy of the proposal; chi^2 and the gradients of the real sources
        are handed back per band"""
        nb, ns = v.int("nb", lo=1), v.int("ns", lo=1)
        MS, NP = v.I.resolve("forcepho.kernel_limits:MAXSOURCES"), v.I.resolve("forcepho.kernel_limits:NPARAMS")
        v.assume(cmp("<=", ns, MS))
        chi = z3.Function("chi", T.I, T.I, T.I, T.R)
        dch = z3.Function("dch", T.I, T.I, T.I, T.I, T.R)
        # content of the proposal at the time of the call, as seen through its address
        q = v.arr("qpar", (ns,))
        prop = S.Rec((ns,), {"q": (N.mk_nd((ns,), N.snap(q), "real").buf, ())}, None, name="proposal")
        dev = v.int("device_patch", lo=1)
        seen = []

        def kern(i, p, ptr):
            seen.append((p, ptr))
            i, p, ptr = (T.to_int(N.as_nd(x).at()) for x in (i, p, ptr))
            return S.Obj(None, "CResponse", chi2=chi(i, p, ptr),
                         dchi2_dp=N.mk_nd((arith("*", MS, NP),), lambda k: dch(i, p, ptr, k), "real"))
        box = {}

        def th():
            o = v.obj(PR + ":CPUProposer", evaluate_proposal_kernel=kern, ptr_dtype=N.DT["uintp"], chi_dtype=N.DT["float64"], patch=None)
            patch = S.Obj(None, "patch", n_bands=nb, n_sources=ns, device_patch=dev, return_residual=False)
            r = v.call(v.method(o, "evaluate_proposal"), prop, patch=patch)
            box["o"] = o
            return r

        def post(r):
            o = box["o"]
            i, s, k = v.idx("i", nb), v.idx("s", ns), v.idx("k", NP)
            ptr = N.addr_of(o.a["proposal"])
            v.eq("proposal-copied", N.as_nd(v.I.getitem(o.a["proposal"], "q")).at(s), q.at(s))
            v.ob("own-copy", cmp("!=", ptr, N.addr_of(prop)))
            if tag == "chi":
                v.is_shape("chi-shape", r[0], (nb,))
                v.eq("chi2-of-that-band", N.as_nd(r[0]).at(i), chi(i, dev, ptr))
            else:
                v.is_shape("derivs-shape", r[1], (nb, ns, NP))
                v.eq("gradient-of-that-band-source-parameter", N.as_nd(r[1]).at(i, s, k), dch(i, dev, ptr, s * NP + k))
        v.run(th, post)
    body.__name__ = "proposer_" + tag
    return body


