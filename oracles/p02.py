"""P02 runtime contracts: kernel derivatives against differentiation of an independent image model."""
import numpy as np
from oracles.common import *
setup(kernel=True)
from oracles import fix
from forcepho.proposal import CPUProposer
R = Run()


def check(p, prop, g, ns):
    c, gr, res, mag, gm = fix.ref_evaluate(p, prop)
    expect(g.shape == gr.shape, f"shape {g.shape} != {gr.shape}")
    tol = 1e-3 * gm + 1e-6 * gm.max(axis=(0, 1), keepdims=True)
    bad = np.abs(g - gr) > tol
    if bad.any():
        j = tuple(int(x) for x in np.argwhere(bad)[0])
        raise_fail(f"d chi2 / d {fix.PNAMES[j[2]]} (band {j[0]}, source {j[1]}): {g[j]} expected {gr[j]} scale {gm[j]}")


@R.prop(n=30, tmax=30)
def gradient(rng):
    w = fix.World(rng, sip=bool(rng.random() < 0.3))
    n = int(rng.choice([1, 2, 3, 5]))
    cat = w.cat(rng, n, size=float(rng.choice([0.1, 0.4, 0.8])))
    k = rng.random()
    if k < 0.25:
        for b in w.bands:
            cat[b] *= rng.choice([-1, 1], n)
    elif k < 0.5:
        for b in w.bands:
            cat[b] = np.where(rng.random(n) < 0.5, 0, cat[b])
    elif k < 0.7:
        cat["pa"] = rng.uniform(-6, 6, n)
        cat["q"] = rng.uniform(0.3, 1, n)
    p = w.patch(cat, return_residual=bool(rng.random() < 0.3))
    p.send_to_device()
    prop = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(prop, patch=p)
    check(p, prop, out[1], n)


@R.prop(n=20, tmax=15)
def single_pixel(rng):
    """derivatives pixel by pixel (no cancellation between pixels can hide an error)"""
    w = fix.World(rng, nbands=1, nexp=1, pad=False)
    cat = w.cat(rng, 1, size=0.1)
    p = w.patch(cat)
    ierr = p.ierr.copy()
    k = int(rng.integers(p.ierr.size))
    p.ierr[:] = 0
    p.ierr[k] = 1.3
    p.send_to_device()
    prop = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(prop, patch=p)
    check(p, prop, out[1], 1)


@R.prop(n=10, tmax=10)
def off_centre(rng):
    """the proposed position differs from the position the astrometry was packed at"""
    w = fix.World(rng)
    n = int(rng.integers(1, 4))
    p = w.patch(w.cat(rng, n))
    p.send_to_device()
    q = p.scene.get_all_source_params().copy()
    for s in p.scene.sources:
        s.ra = s.ra + rng.normal(0, 0.1) / 3600
        s.dec = s.dec + rng.normal(0, 0.1) / 3600
    prop = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(prop, patch=p)
    check(p, prop, out[1], n)


@R.prop(n=2, tmax=25)
def full_patch(rng):
    from forcepho.kernel_limits import MAXSOURCES
    w = fix.World(rng, nbands=1, nexp=1)
    p = w.patch(w.cat(rng, MAXSOURCES))
    p.send_to_device()
    prop = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(prop, patch=p)
    check(p, prop, out[1], MAXSOURCES)


@R.prop(n=4, tmax=15)
def end_to_end_profile(rng):
    """through the parameter vector: chi2 differences along each parameter, radial profile included"""
    w = fix.World(rng, nbands=1, nexp=2)
    for e in w.exposures:
        e.flux[:] = 0
    n = 1
    cat = w.cat(rng, n, size=0.1)
    cat["sersic"], cat["rhalf"] = rng.uniform(1.2, 4.5), rng.uniform(0.05, 0.4)
    p = w.patch(cat)
    p.send_to_device()
    P = CPUProposer(p)
    q = p.scene.get_all_source_params().copy()
    prop = p.scene.get_proposal()
    g = P.evaluate_proposal(prop, patch=p)[1]
    got = np.concatenate([g[:, 0, 0], g[:, 0, 1:].sum(0)])
    steps = np.concatenate([np.full(1, 0.05 * abs(q[0])), [2e-6, 2e-6, 0.01, 0.01, 0.05, 0.005]])
    for j in range(q.size):
        v = []
        for s in (-1, 1):
            z = q.copy()
            z[j] += s * steps[j]
            p.scene.set_all_source_params(z)
            v.append(fix.ref_evaluate(p, p.scene.get_proposal(), deriv=False)[0].sum())
        num = (v[1] - v[0]) / (2 * steps[j])
        sc = np.abs(got[j]) + 0.02 * np.max(np.abs(got * steps)) / steps[j]
        expect(abs(num - got[j]) < 0.08 * sc + 1e-3, f"parameter {j}: analytic {got[j]} numerical {num}")


R.main()
