"""P05 runtime contracts: every history of calls returns values of the requested position."""
import numpy as np
from oracles.common import *
setup()
from forcepho.model import FastPosterior, SlowPosterior, BoundedTransform, Transform
R = Run()


class Boom(Exception):
    pass


class Env:
    def __init__(self, rng):
        self.rng = rng
        self.ns, self.nb = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        self.nd = self.ns * (self.nb + 6)
        self.A = rng.normal(size=(self.nb, self.nd))
        self.B = rng.normal(size=(self.nb, self.ns, 7, self.nd))
        self.fail = False
        self.nev = 0
        self.q0, self.S = 0., 1.

    # scene
    def set_all_source_params(self, q):
        self.q = np.array(q)

    def get_proposal(self):
        return {"q": self.q.copy(), "fluxes": 0}

    # proposer
    def vals(self, q):
        d = (np.asarray(q) - self.q0) * self.S
        return (self.A @ d) * 10, (self.B @ d).astype(np.float32)

    def evaluate_proposal(self, prop, patch=None, **kw):
        self.nev += 1
        if self.fail:
            raise Boom("device failure")
        c, g = self.vals(prop["q"])
        if self.return_residual:
            return c, g, [prop["q"].copy()]
        return c, g

    @property
    def n_sources(self):
        return self.ns

    @property
    def n_bands(self):
        return self.nb

    def like(self, q, scene=None, plans=None, **kw):
        self.nev += 1
        if self.fail:
            raise Boom("likelihood failure")
        c, g = self.vals(np.asarray(q))
        return -0.5 * c.sum(), self.stack(g) * -0.5

    def stack(self, g):
        g = g.astype(float)
        return np.concatenate([np.moveaxis(g[:, :, 0], 0, 1), g[:, :, 1:].sum(0)], axis=1).ravel()

    def spec(self, t, z, samp=True):
        q = t.transform(z)
        c, g = self.vals(q)
        L = -0.5 * c.sum() + (t.lndetjac(z) if samp else 0)
        G = -0.5 * self.stack(g) * t.jacobian(z) + (t.lndetjac_grad(z) if samp else 0)
        return L, G


def history(rng, slow):
    E = Env(rng)
    E.return_residual = False
    lo = rng.normal(size=E.nd)
    t = BoundedTransform(lo, lo + rng.uniform(0.1, 2, E.nd)) if rng.random() < 0.7 else Transform(E.nd)
    samp = bool(rng.random() < 0.6)
    if slow:
        samp = True
        mod = SlowPosterior(scene=E, plans=[0], lnlike=E.like, transform=t)
    else:
        E.scene = E
        mod = FastPosterior(E, E, scene=E, transform=t, sampling=samp, logging=bool(rng.random() < .3))
    mod.ndof = float(rng.choice([1., 1., 30.]))
    pool = [rng.normal(size=E.nd) for _ in range(3)] + [np.zeros(E.nd), np.full(E.nd, -99.), np.full(E.nd, -1.)]
    z2 = pool[0].copy(); z2[int(rng.integers(E.nd))] += 1e-13   # differs in one coordinate, slightly
    pool.append(z2)
    if rng.random() < .5:       # steep about one position, so that its close neighbours have other values
        E.q0, E.S = np.array(t.transform(pool[0])), 1e8
        pool = pool[:1] * 3 + [pool[0] * (1 + 3e-10), pool[0] + 3e-9, pool[0] * (1 + 3e-6)] + pool[1:3]
    z3 = pool[0].copy(); z3[-1] = -z3[-1]
    pool.append(z3)
    buf = np.array(pool[0])
    trace = []
    for step in range(int(rng.integers(3, 25))):
        k = int(rng.integers(len(pool)))
        if rng.random() < 0.5:
            buf[:] = pool[k]      # the caller reuses one array
            z = buf
        else:
            z = pool[k].copy() if rng.random() < 0.7 else pool[k]
        if rng.random() < 0.1:
            j = int(rng.integers(E.nd))
            z = z.copy() if z is pool[k] else z
            z[j] += rng.normal()
        m = str(rng.choice(["lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd", "check_grad", "residuals"],
                           p=[.2, .2, .2, .13, .12, .03, .12]))
        E.fail = bool(rng.random() < 0.12)
        trace.append((m, k, E.fail))
        zin = np.array(z)
        L, G = E.spec(t, zin, samp)
        tolL, tolG = 1e-5 * (1 + abs(L)), 1e-4 * (1 + np.abs(G).max())
        if m == "residuals":
            if slow:
                continue
            keep = E.return_residual
            E.fail = False
            qq = np.asarray(t.transform(pool[k])) if rng.random() < .6 else rng.normal(size=E.nd)
            r = mod.residuals(qq)
            close(r[0], qq, 0, 0, "residuals belong to the requested parameters")
            expect(E.return_residual == keep, "residual flag left changed")
            continue
        try:
            r = getattr(mod, m)(z)
        except Boom:
            same(z, zin, "position modified")
            continue
        if E.fail and m != "check_grad":
            pass          # served from the cache; must still be right
        if m == "lnprob":
            close(float(r), L, 0, tolL, f"{trace}: lnprob")
        elif m == "lnprob_grad":
            close(r, G, 0, tolG, f"{trace}: grad")
        elif m == "lnprob_and_grad":
            close(float(r[0]), L, 0, tolL, f"{trace}: value")
            close(r[1], G, 0, tolG, f"{trace}: grad")
        elif m == "nll":
            close(float(r[0]) * mod.ndof, -L, 0, tolL, f"{trace}: nll")
            close(r[1] * mod.ndof, -G, 0, tolG, f"{trace}: nll grad")
        elif m == "nll_nograd":
            close(float(r) * mod.ndof, -L, 0, tolL, f"{trace}: nll_nograd")
        elif m == "check_grad":
            close(r[0], G, 0, tolG, f"{trace}: check_grad analytic")
        same(z, zin, "position modified")


@R.prop(n=300)
def fast_history(rng):
    history(rng, False)


@R.prop(n=300)
def slow_history(rng):
    history(rng, True)


@R.prop(n=40)
def first_call(rng):
    """a fresh posterior evaluates at any first position"""
    for val in (-99., -1., 0., 1., np.e):
        for slow in (False, True):
            E = Env(rng)
            E.return_residual = False
            t = Transform(E.nd)
            mod = SlowPosterior(scene=E, plans=[0], lnlike=E.like, transform=t) if slow else \
                FastPosterior(E, E, scene=E, transform=t)
            z = np.full(E.nd, val)
            L, G = E.spec(t, z)
            close(float(mod.lnprob(z)), L, 1e-5, 1e-5, "first call")
            close(mod.lnprob_grad(z), G, 1e-4, 1e-4, "first call grad")


R.main()
