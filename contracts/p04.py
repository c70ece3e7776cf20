"""P04: the log-probability handed to samplers/optimisers is
-chi2/2 + ln prior (+ ln|dq/dz| when sampling) and the gradient is its exact
derivative with respect to z, laid out like the parameter vector."""
from ve.spec import *

TRUSTED = ["the likelihood kernel's contract (P01, P02), the prior's contract (P07) and the transform's (P06)"]
M = "forcepho.model"


def nparams(v):
    return conc_of(v.I.resolve("forcepho.kernel_limits:NPARAMS"))


class World:
    """a posterior whose collaborators are known only through their contracts"""
    def __init__(w, v, sampling=True, resid=False, cls="FastPosterior", prior=True):
        w.v = v
        w.nb = v.int("nb", lo=1)
        w.ns = v.int("ns", lo=1)
        w.npar = nparams(v)
        w.stride = w.nb + (w.npar - 1)
        w.ndim = w.ns * w.stride
        w.chi2 = v.arr("chi2", (w.nb,))
        w.der = v.arr("dchi2", (w.nb, w.ns, w.npar))
        w.z = v.arr("z", (w.ndim,))
        w.q = v.arr("q", (w.ndim,))
        w.jac = v.arr("jac", (w.ndim,))
        w.ldj = v.real("lndetjac")
        w.ldjg = v.arr("ldjgrad", (w.ndim,))
        w.lpr = v.real("lpr")
        w.lprg = v.arr("lprg", (w.ndim,))
        w.log = []

    def build(w, sampling=True, prior=True, resid=False, **kw):
        v = w.v
        log = w.log
        log.clear()
        w.scene = S.Obj(None, "scene",
                        set_all_source_params=lambda q, **k: log.append(("set", q)),
                        get_proposal=lambda: (log.append(("prop",)), "PROPOSAL")[1])
        w.patch = S.Obj(None, "patch", n_sources=w.ns, n_bands=w.nb, scene=w.scene, return_residual=resid)

        def ev(proposal, patch=None, **k):
            log.append(("eval", proposal, patch))
            return (w.chi2, w.der, "RES") if resid else (w.chi2, w.der)
        w.proposer = S.Obj(None, "proposer", evaluate_proposal=ev)
        w.transform = S.Obj(None, "transform",
                            jacobian=lambda z: (log.append(("J", z)), w.jac)[1],
                            lndetjac=lambda z: w.ldj, lndetjac_grad=lambda z: w.ldjg,
                            transform=lambda z: (log.append(("T", z)), w.q)[1])
        pr = (lambda q: (log.append(("prior", q)), (w.lpr, w.lprg))[1]) if prior else None
        return v.call(M + ":FastPosterior", w.proposer, w.patch, lnprior=pr, transform=w.transform,
                      sampling=sampling, **kw)

    def spec(w, sampling, prior):
        v = w.v
        h = z3.RealVal("1/2")
        lnp = -h * T.mk_sum(0, w.nb, lambda b: w.chi2.at(b))
        if prior:
            lnp = lnp + w.lpr
        if sampling:
            lnp = lnp + w.ldj

        def g(p, s, slot, kind):
            """position p = s*stride + slot; kind flux -> band slot, shape -> k"""
            if kind == "flux":
                d = w.der.at(slot, s, 0)
            else:
                d = T.mk_sum(0, w.nb, lambda b: w.der.at(b, s, 1 + slot))
            r = -h * d
            if prior:
                r = r + w.lprg.at(p)
            r = r * w.jac.at(p)
            if sampling:
                r = r + w.ldjg.at(p)
            return r
        return lnp, g


def scal(x):
    return x.at() if isinstance(x, Nd) else x


def check_pair(v, w, lnp, grad, sampling, prior, tag="", sign=1):
    L, g = w.spec(sampling, prior)
    v.eq(tag + "lnp", scal(lnp), L if sign == 1 else -L)
    v.is_shape(tag + "grad-shape", grad, (w.ndim,))
    s = v.idx("s", w.ns)
    b = v.idx("b", w.nb)
    p = s * w.stride + b
    v.eq(tag + "flux-slot", grad.at(p), sign * g(p, s, b, "flux"))
    for k in range(w.npar - 1):
        p = s * w.stride + (w.nb + k)
        v.eq(tag + f"shape-slot{k}", grad.at(p), sign * g(p, s, k, "shape"))


def mk(sampling, prior, resid=False):
    def body(v):
        w = World(v)

        def th():
            o = w.build(sampling=sampling, prior=prior, resid=resid)
            r = v.call(v.method(o, "lnprob_and_grad"), w.z)
            return o, r

        def post(res):
            o, (lnp, grad) = res
            check_pair(v, w, lnp, grad, sampling, prior)
            sets = [x for x in w.log if x[0] == "set"]
            evs = [x for x in w.log if x[0] == "eval"]
            v.ob("one-likelihood-call", len(evs) == 1 and len(sets) >= 1)
            v.ob("scene-set-before-proposal",
                 [x[0] for x in w.log if x[0] in ("set", "prop", "eval")][:3] == ["set", "prop", "eval"])
            v.ob("own-patch", evs[0][2] is w.patch)
            i = v.idx("i", w.ndim)
            v.eq("scene-gets-transformed-parameters", N.as_nd(sets[-1][1]).at(i), w.q.at(i))
            for x in w.log:
                if x[0] == "prior":
                    v.eq("prior-gets-transformed-parameters", N.as_nd(x[1]).at(i), w.q.at(i))
                if x[0] in ("J", "T"):
                    v.eq("transform-gets-z", N.as_nd(x[1]).at(i), w.z.at(i))
            for a in (lnp, grad):
                pass
        v.run(th, post)
    return body


FN = ("forcepho.model:FastPosterior.evaluate", "forcepho.model:FastPosterior.stack_grad",
      "forcepho.model:Posterior.lnprior", "forcepho.model:Posterior.make_transform",
      "forcepho.model:Posterior.lnprob_and_grad", "forcepho.model:FastPosterior.__init__",
      "forcepho.model:Posterior.__init__")


@contract(*FN)
def sampling_prior(v):
    mk(True, True)(v)


@contract(*FN)
def sampling_noprior(v):
    mk(True, False)(v)


@contract(*FN)
def optim_prior(v):
    mk(False, True)(v)


@contract(*FN)
def optim_noprior_resid(v):
    mk(False, False, True)(v)


@contract("forcepho.model:Posterior.nll", "forcepho.model:Posterior.nll_nograd",
          "forcepho.model:Posterior.lnprob", "forcepho.model:Posterior.lnprob_grad")
def accessors(v):
    w = World(v)
    smp = v.bool("sampling")

    for sampling in (True, False):
        def th():
            out = {}
            for m in ("lnprob", "lnprob_grad", "nll", "nll_nograd"):
                o = w.build(sampling=sampling)
                out[m] = v.call(v.method(o, m), w.z)
            return out

        def post(r):
            L, g = w.spec(sampling, True)
            v.eq("lnprob", scal(r["lnprob"]), L)
            v.eq("nll", scal(r["nll"][0]), -L)
            v.eq("nll_nograd", scal(r["nll_nograd"]), -L)
            check_pair(v, w, r["lnprob"], r["lnprob_grad"], sampling, True, "lnprob_grad.")
            check_pair(v, w, r["nll"][0], r["nll"][1], sampling, True, "nll.", -1)
        v.run(th, post)


@contract("forcepho.model:FastPosterior.stack_grad")
def grad_layout(v):
    w = World(v)

    def th():
        o = w.build()
        return v.call(v.method(o, "stack_grad"), w.der)

    def post(g):
        v.is_shape("shape", g, (w.ndim,))
        s, b = v.idx("s", w.ns), v.idx("b", w.nb)
        v.eq("flux", g.at(s * w.stride + b), w.der.at(b, s, 0))
        for k in range(w.npar - 1):
            v.eq(f"shape{k}", g.at(s * w.stride + w.nb + k), T.mk_sum(0, w.nb, lambda c: w.der.at(c, s, 1 + k)))
    v.run(th, post)


@contract("forcepho.model:Posterior.__init__")
def init_bounds(v):
    """either a transform or both bounds, whatever the bound values"""
    n = v.int("n", lo=1)
    lo, up = v.arr("lo", (n,)), v.arr("up", (n,))
    patch = S.Obj(None, "patch", n_sources=1, n_bands=1, scene=S.Obj(None, "scene"))

    def th():
        return v.call(M + ":FastPosterior", S.Obj(None, "proposer"), patch, lower=lo, upper=up)

    def post(o):
        t = v.I.getattr(o, "transform")
        i = v.idx("i", n)
        v.eq("lower", v.I.getattr(t, "lower").at(i), lo.at(i))
        v.eq("upper", v.I.getattr(t, "upper").at(i), up.at(i))
    v.run(th, post)


@contract("forcepho.model:SlowPosterior.evaluate", "forcepho.model:SlowPosterior.__init__")
def slow(v):
    n = v.int("n", lo=1)
    z, q, jac, ldjg, lprg, llg = [v.arr(k, (n,)) for k in ("z", "q", "jac", "ldjg", "lprg", "llg")]
    ldj, lpr, ll = v.real("ldj"), v.real("lpr"), v.real("ll")
    for has_t in (True, False):
        for has_p in (True, False):
            log = []

            def th():
                log.clear()
                t = S.Obj(None, "transform", jacobian=lambda x: jac, lndetjac=lambda x: ldj,
                          lndetjac_grad=lambda x: ldjg, transform=lambda x: q) if has_t else None

                def like(p, scene=None, plans=None, **k):
                    log.append(("like", p, scene))
                    return ll, llg
                kw = dict(scene="SCENE", plans=S.SList(["PLAN"]), lnlike=like, transform=t)
                if has_p:
                    kw["lnprior"] = lambda p: (log.append(("prior", p)), (lpr, lprg))[1]
                o = v.call(M + ":SlowPosterior", **kw)
                return v.call(v.method(o, "lnprob_and_grad"), z)

            def post(r):
                lnp, g = r
                v.eq("lnp", scal(lnp), ll + (lpr if has_p else 0) + (ldj if has_t else 0))
                v.is_shape("gshape", g, (n,))
                i = v.idx("i", n)
                e = llg.at(i) + (lprg.at(i) if has_p else 0)
                if has_t:
                    e = e * jac.at(i) + ldjg.at(i)
                v.eq("grad", g.at(i), e)
                for x in log:
                    v.eq("gets-q", N.as_nd(x[1]).at(i), (q if has_t else z).at(i))
            v.run(th, post)
