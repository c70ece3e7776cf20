"""P04 runtime contracts: the log-posterior and its gradient are composed correctly."""
import numpy as np
from oracles.common import *
setup(kernel=True)
from forcepho.model import FastPosterior, SlowPosterior, BoundedTransform, Transform, Posterior, LogLikeWithGrad
from forcepho.priors import ExpBeta
R = Run()


def lnj(z, w):
    z = np.abs(z)
    return np.log(w) - z - 2 * np.log1p(np.exp(-z))


class StubScene:
    def __init__(self, n):
        self.n, self.log = n, []

    def set_all_source_params(self, q):
        self.q = np.array(q)
        self.log.append(self.q)

    def get_proposal(self):
        return {"fluxes": None, "q": self.q.copy()}


class StubPatch:
    return_residual = False


class StubProposer:
    """chi2 and derivatives are fixed known functions of the proposal"""
    def __init__(self, ns, nb, rng, resid):
        self.A = rng.normal(size=(nb, ns * (nb + 6)))
        self.B = rng.normal(size=(nb, ns, 7))
        self.ns, self.nb, self.resid = ns, nb, resid
        self.n = 0

    def chi2(self, q):
        return np.sin(self.A @ q) * 100

    def derivs(self, q):
        return (self.B * (1 + np.cos(q.sum()))).astype(np.float32)

    def evaluate_proposal(self, proposal, patch=None, **kw):
        self.n += 1
        q = proposal["q"]
        out = (self.chi2(q).astype(np.float32), self.derivs(q))
        return out + ("RES",) if self.resid else out


def build(rng, **kw):
    ns, nb = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if rng.random() < .12:
        ns = nb + 6 + int(rng.integers(-1, 2))
    nd = ns * (nb + 6)
    lo = rng.normal(size=nd); up = lo + rng.uniform(0.1, 3, nd)
    k = rng.integers(0, 4)
    if k == 0:
        lo = np.zeros(nd); up = rng.uniform(0.1, 3, nd)
    if k == 1:
        up = np.zeros(nd); lo = -rng.uniform(0.1, 3, nd)
    pr = None
    if rng.random() < 0.6:
        c = rng.normal(size=nd)
        pr = lambda q: (float(np.sum(c * q ** 2)), 2 * c * q)
    scene, patch = StubScene(nd), StubPatch()
    patch.n_sources, patch.n_bands = ns, nb
    usescene = rng.random() < 0.5
    if not usescene:
        patch.scene = scene
    P = StubProposer(ns, nb, rng, rng.random() < 0.5)
    samp = bool(rng.random() < 0.5)
    tr = rng.random() < 0.5
    kk = dict(transform=BoundedTransform(lo, up)) if tr else dict(lower=lo, upper=up)
    mod = FastPosterior(P, patch, scene=scene if usescene else None, lnprior=pr, sampling=samp,
                        logging=bool(rng.random() < 0.3), **kk, **kw)
    mod.ndof = float(rng.choice([1., 1., 40.]))
    return mod, P, patch, lo, up, pr, samp, scene, ns, nb, nd


def spec(P, lo, up, pr, samp, z, ns, nb):
    w = up - lo
    s = 1 / (1 + np.exp(-z))
    q = lo + w * s
    J = w * s * (1 - s)
    chi2 = P.chi2(q).astype(np.float32).astype(float).sum()
    d = P.derivs(q).astype(float)
    g = np.zeros((ns, nb + 6))
    for b in range(nb):
        g[:, b] = d[b][:, 0]
    g[:, nb:] = d[:, :, 1:].sum(0)
    l, lg = pr(q) if pr else (0.0, 0.0)
    L = -0.5 * chi2 + l
    G = (-0.5 * g.ravel() + lg) * J
    if samp:
        L += lnj(z, w).sum()
        G = G + (1 - 2 * s)
    return q, L, G


@R.prop(n=20, tmax=4)
def gradient_check(rng):
    """the gradient check compares the gradient at a position with central differences of the log-probability there"""
    mod, P, patch, lo, up, pr, samp, scene, ns, nb, nd = build(rng)
    z = rng.normal(0, 1, nd)
    z0 = z.copy()
    a = rng.normal(0, 1, (nd, nd)); b = rng.normal(0, 1, nd)
    h = rng.uniform(1e-3, 1e-2, nd) if rng.random() < .5 else 1e-3
    mod.lnprob = lambda x: float(b @ x + x @ a @ x)
    mod.lnprob_grad = lambda x: 3 * np.asarray(x) + 1
    g, num = mod.check_grad(z, delta=h)
    same(z, z0, "position unchanged")
    close(g, 3 * z0 + 1, 1e-12, 1e-12, "analytic gradient")
    close(num, b + (a + a.T) @ z0, 1e-7, 1e-7, "numerical gradient")


@R.prop(n=200)
def composition(rng):
    mod, P, patch, lo, up, pr, samp, scene, ns, nb, nd = build(rng)
    for _ in range(3):
        z = rng.normal(0, 1.5, nd)
        z0 = z.copy()
        q, L, G = spec(P, lo, up, pr, samp, z, ns, nb)
        close(float(mod.lnprob(z)), L, 1e-5, 1e-3, "lnprob")
        close(mod.lnprob_grad(z), G, 1e-5, 1e-5, "lnprob_grad")
        a, b = mod.nll(z)
        close(float(a) * mod.ndof, -L, 1e-5, 1e-3, "nll")
        close(b * mod.ndof, -G, 1e-5, 1e-5, "nll grad")
        close(float(mod.nll_nograd(z)) * mod.ndof, -L, 1e-5, 1e-3, "nll_nograd")
        a, b = mod.lnprob_and_grad(z)
        close(float(a), L, 1e-5, 1e-3, "lnprob_and_grad")
        close(b, G, 1e-5, 1e-5, "lnprob_and_grad grad")
        close(scene.q, q, 1e-9, 1e-9, "scene parameters")
        same(z, z0, "position modified")


@R.prop(n=60)
def wrapped(rng):
    """operators that hand the posterior to samplers"""
    mod, P, patch, lo, up, pr, samp, scene, ns, nb, nd = build(rng)
    op = LogLikeWithGrad(mod)
    z = rng.normal(0, 1, nd)
    q, L, G = spec(P, lo, up, pr, samp, z, ns, nb)
    o = [[None]]
    op.perform(None, [z], o)
    close(float(o[0][0]), L, 1e-5, 1e-3, "op value")
    o = [[None]]
    op.GradObj.perform(None, [z], o)
    close(o[0][0], G, 1e-5, 1e-5, "op gradient")


@R.prop(n=60)
def identity_transform(rng):
    ns, nb = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    nd = ns * (nb + 6)
    scene, patch = StubScene(nd), StubPatch()
    patch.n_sources, patch.n_bands, patch.scene = ns, nb, scene
    P = StubProposer(ns, nb, rng, False)
    mod = FastPosterior(P, patch, transform=Transform(nd))
    z = rng.normal(size=nd)
    d = P.derivs(z).astype(float)
    g = np.concatenate([np.moveaxis(d[:, :, 0], 0, 1), d[:, :, 1:].sum(0)], axis=1).ravel()
    close(float(mod.lnprob(z)), -0.5 * P.chi2(z).sum(), 1e-5, 1e-3, "lnprob")
    close(mod.lnprob_grad(z), -0.5 * g, 1e-5, 1e-5, "grad")


@R.prop(n=40)
def many_pixel_precision(rng):
    """per-band chi2 of very different size are added in double precision"""
    mod, P, patch, lo, up, pr, samp, scene, ns, nb, nd = build(rng)
    big = rng.uniform(1e7, 3e7, nb) * rng.choice([-1, 1], nb)
    P.chi2 = lambda q: big + np.arange(nb)
    z = rng.normal(size=nd)
    q, L, G = spec(P, lo, up, pr, samp, z, ns, nb)
    close(float(mod.lnprob(z)), L, 0, 1e-2, "lnprob with large chi2")


@R.prop(n=100)
def slow(rng):
    n = int(rng.integers(1, 10))
    lo = rng.normal(size=n); up = lo + rng.uniform(0.1, 3, n)
    A = rng.normal(size=n)
    c = rng.normal(size=n)
    pr = (lambda q: (float(np.sum(c * q ** 2)), 2 * c * q)) if rng.random() < 0.5 else None
    tr = BoundedTransform(lo, up) if rng.random() < 0.8 else None
    like = lambda q, scene=None, plans=None, **k: (float(np.sum(np.sin(A * q))), A * np.cos(A * q))
    mod = SlowPosterior(scene="S", plans=["P"], lnlike=like, lnprior=pr, transform=tr)
    z = rng.normal(0, 1.5, n)
    if tr is None:
        q, J, v, vg = z, 1.0, 0.0, 0.0
    else:
        s = 1 / (1 + np.exp(-z)); w = up - lo
        q, J, v, vg = lo + w * s, w * s * (1 - s), lnj(z, w).sum(), 1 - 2 * s
    l, lg = pr(q) if pr else (0., 0.)
    ll, llg = like(q)
    close(float(mod.lnprob(z)), ll + l + v, 1e-8, 1e-8, "lnprob")
    close(mod.lnprob_grad(z), (llg + lg) * J + vg, 1e-8, 1e-8, "grad")
    a, b = mod.nll(z)
    close(float(a), -(ll + l + v), 1e-8, 1e-8, "nll")
    close(b, -((llg + lg) * J + vg), 1e-8, 1e-8, "nll grad")


@R.prop(n=20)
def construction(rng):
    n = 3
    lo, up = np.zeros(n), np.ones(n)
    for kw in (dict(), dict(lower=lo), dict(upper=up), dict(lower=lo, upper=up, transform=Transform(n)),
               dict(transform=Transform(n), bogus=1)):
        try:
            Posterior(**kw)
        except Exception:
            continue
        raise_fail(f"inconsistent construction accepted: {sorted(kw)}")


@R.prop(n=10, tmax=12)
def end_to_end(rng):
    """real patch, scene and kernel against an independent model of the image"""
    from oracles import fix
    from forcepho.proposal import CPUProposer
    w = fix.World(rng, nbands=int(rng.integers(1, 3)), nexp=int(rng.integers(1, 3)))
    cat = w.cat(rng, int(rng.integers(1, 4)))
    p = w.patch(cat, return_residual=bool(rng.random() < 0.5))
    p.send_to_device()
    q0 = p.scene.get_all_source_params().copy()
    half = np.abs(q0) * 0.01 + 1e-3
    lab = [b for s in p.scene.sources for b in list(w.bands) + ["ra", "dec", "q", "pa", "sersic", "rhalf"]]
    half[[k for k, l in enumerate(lab) if l in ("ra", "dec")]] = 2e-5
    lo, up = q0 - half * rng.uniform(0.5, 1), q0 + half * rng.uniform(0.5, 1)
    mod = FastPosterior(CPUProposer(p), p, lower=lo, upper=up)
    z = rng.normal(0, 1, q0.size)
    s = 1 / (1 + np.exp(-z)); wd = up - lo
    q = lo + wd * s
    L, G = float(mod.lnprob(z)), np.array(mod.lnprob_grad(z))
    p.scene.set_all_source_params(q)
    prop = p.scene.get_proposal()
    c, g, res, mag, gm = fix.ref_evaluate(p, prop)
    ref = -0.5 * c.sum() + lnj(z, wd).sum()
    close(L, ref, 0, 3e-4 * mag.sum() + 1e-3, "lnprob end to end")
    nb = len(w.bands)
    st = np.concatenate([np.moveaxis(g[:, :, 0], 0, 1), g[:, :, 1:].sum(0)], axis=1).ravel()
    sm = np.concatenate([np.moveaxis(gm[:, :, 0], 0, 1), gm[:, :, 1:].sum(0)], axis=1).ravel()
    J = wd * s * (1 - s)
    expect(np.all(np.abs(G - (-0.5 * st * J + 1 - 2 * s)) <= (1e-3 * sm * J + 1e-3 * np.abs(st * J) + 1e-3)),
           f"gradient end to end: {G} vs {-0.5 * st * J + 1 - 2 * s}")


R.main()
