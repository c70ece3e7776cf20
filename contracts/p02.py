"""P02: the compiled gradient is the exact derivative of the compiled chi-square.

Composition: chi2 = sum_pix (r^2 - d^2) ierr^2 with r = d - sum_k C(phi_k) (P01), so
d chi2/d theta = sum_pix -2 r ierr^2 sum_k dC/dphi_k . dphi_k/dtheta.
 evaluate_gradient : the sum over pixels and its place, given the per-pixel derivative;
 pixel_derivative  : the per-pixel sum over Gaussians of -2 r ierr^2 dC/dphi . J;
 jacobian          : J = dphi/d(flux, T, amplitude, centre) of the convolved Gaussian;
 convolve (P01.convolve_one_source, re-run here): dT/dq, dT/dpa, dcentre/d(ra,dec)."""
from contracts.kern import *
from contracts.kern import TRUSTED
from contracts import p01
from contracts.p01 import EvalWorld, gj_setup

# direction of the image parameters phi for each sky parameter
DIR = {0: {"amp": "dA_dFlux"}, 1: {"xcen": "dx_dAlpha", "ycen": "dy_dAlpha"}, 2: {"xcen": "dx_dDelta", "ycen": "dy_dDelta"},
       3: {"amp": "dA_dQ", "fxx": "dFxx_dQ", "fyy": "dFyy_dQ", "fxy": "dFxy_dQ"},
       4: {"amp": "dA_dPA", "fxx": "dFxx_dPA", "fyy": "dFyy_dPA", "fxy": "dFxy_dPA"},
       5: {"amp": "dA_dSersic"}, 6: {"amp": "dA_drh"}}


@contract("src/common_kernel.cc:ComputeGaussianDerivative")
def pixel_derivative(v):
    """dchi2_dp[j] += sum over gaussians of -2 * (residual*ierr^2) * d(count)/d(parameter j)"""
    k = K(v)
    n = v.int("n", lo=0)
    off, tot = v.int("off", lo=0), v.int("tot", lo=0)
    v.assume(off + n <= tot)
    g = k.sym_rec("ImageGaussian", tot, "ig")
    d = v.arr("d0", (7,))
    d0 = N.snap(d)
    xp, yp, r = v.real("xp"), v.real("yp"), v.real("r")
    cut = k.limit("MAX_EXP_ARG")

    def th():
        dd = N.mk_nd((7,), lambda i: d0(i), "real")
        k.call("ComputeGaussianDerivative", xp, yp, r, g, off, dd, 0, n)
        return dd

    def post(dd):
        t = T.fresh("t", T.R)
        for j in range(7):
            def term(c):
                p = gat(g, off + c, GP + JAC)
                ph = {f: p[f] + (t * p[DIR[j][f]] if f in DIR[j] else RV(0)) for f in GP}
                dC = T.diff(count(xp, yp, ph), t)
                dC = z3.substitute(T.to_real(dC), (t, RV(0)))
                return ite(mahal(xp, yp, p) > T.rv(T.frac(cut)), RV(0), -2 * r * dC)
            v.eq(f"derivative-{PAR[j]}", dd.at(j), d0(j) + T.mk_sum(0, n, term))
    v.run(th, post)


@contract("src/common_kernel.cc:GetGaussianAndJacobian", "src/matrix22.cc:symABt", "src/matrix22.cc:ABA", "src/matrix22.cc:trace")
def jacobian(v):
    """the fifteen Jacobian elements are the derivatives of the six image parameters"""
    k, s, p, cov, det = gj_setup(v)
    g = k.sym_rec("ImageGaussian", 1, "ig")
    TT = {m: s.a["T"].a[m] for m in MAT}

    def th():
        k.call("GetGaussianAndJacobian", s, 0, p, 0, g, 0)
        return gat(g, 0, GP + JAC)

    def post(r):
        # closed forms of the image parameters (proved equal to the code's in P01.convolved_gaussian)
        F = {"fxx": cov[1][1] / det, "fyy": cov[0][0] / det, "fxy": -cov[0][1] / det,
             "amp": s.a["flux"] * s.a["G"] * s.a["amp"] * p.a["amp"] / (2 * T.PI * T.sqrt(det))}
        v.eq("amplitude", r["amp"], F["amp"])
        for nm_, dT in (("Q", s.a["dT_dq"]), ("PA", s.a["dT_dpa"])):
            dn = sum((T.to_real(v.diff_at(det, TT[m])) * dT.a[m] for m in MAT), RV(0))
            for f, e in F.items():
                d = RV(0)
                for m in MAT:
                    d = d + T.to_real(v.diff_at(e, TT[m])) * dT.a[m]
                jn = {"amp": "dA_d", "fxx": "dFxx_d", "fyy": "dFyy_d", "fxy": "dFxy_d"}[f] + nm_
                if f == "amp":
                    # chain: dA/dT = A * (-ddet/(2 det)) for the closed form A, and the code's amplitude equals A
                    v.eq(jn + "-closed-form", d, e * (-dn / (2 * det)))
                    v.eq_gen(jn, r[jn], r["amp"] * (-dn / (2 * det)))
                else:
                    v.eq(jn, r[jn], d)
        v.eq("dA_dFlux", r["dA_dFlux"], v.diff_at(F["amp"], s.a["flux"]))
        v.eq("dA_dSersic", r["dA_dSersic"], T.to_real(v.diff_at(F["amp"], s.a["amp"])) * s.a["da_dn"])
        v.eq("dA_drh", r["dA_drh"], T.to_real(v.diff_at(F["amp"], s.a["amp"])) * s.a["da_dr"])
        CW = mat(s.a["CW"])
        for i, x in enumerate("xy"):
            v.eq(f"d{x}_dAlpha", r[f"d{x}_dAlpha"], CW[i][0])
            v.eq(f"d{x}_dDelta", r[f"d{x}_dDelta"], CW[i][1])
    v.run(th, post)


@contract("src/compute_gaussians_kernel.cc:ConvolveOneSource", "src/matrix22.cc:rotation_matrix_deriv", "src/matrix22.cc:scale_matrix_deriv")
def convolve_derivatives(v):
    p01.convolve_one_source(v)


@contract("src/compute_gaussians_kernel.cc:EvaluateProposal")
def evaluate_gradient(v):
    """entry source*NPARAMS + j is the sum over the band's pixels of that source's derivative j; all other entries are zero"""
    E = EvalWorld(v, grads=True)
    E.k.bounds = False
    w, a = E.w, E.w.a

    def th():
        return E.run()

    def post(r):
        arr = r.a["pdchi2_dp"].a["nd"]
        np_ = E.k.limit("NPARAMS")
        v.eq("room", arr.shape[0], np_ * w.maxs)
        g = v.idx("src", w.ns)
        for j in range(7):
            def t(e, i, j=j):
                wr = (a["data"].at(i) - E.model(e, i)) * a["ierr"].at(i) * a["ierr"].at(i)
                return T.mk_sum(0, E.npsf, lambda c: E.DER[j](
                    a["xpix"].at(i), a["ypix"].at(i), wr, *[E.U[f](T.to_int(e), T.to_int(g * E.npsf + c)) for f in GP + JAC]))
            v.eq(f"gradient-{PAR[j]}", arr.at(g * 7 + j), E.over(t))
        q = v.idx("rest", np_ * w.maxs)
        v.assume(q >= w.ns * 7)
        v.eq("unused-entries-zero", arr.at(q), RV(0))
    v.run(th, post)

contract(PR + ":CPUProposer.evaluate_proposal", PR + ":CPUProposer.send_to_device")(proposer("derivs"))
