"""P01 runtime contracts: residual image and chi2 of the compiled kernel."""
import numpy as np
from oracles.common import *
setup(kernel=True)
from oracles import fix
from forcepho.proposal import CPUProposer
R = Run()


def check(p, prop, out, unpack, what=""):
    c, g, res, mag, gm, pm = fix.ref_evaluate(p, prop, deriv=False, pixmag=True)
    chi2 = out[0]
    expect(len(chi2) == p.n_bands, "one chi2 per band")
    expect(np.all(np.abs(chi2 - c) <= 3e-4 * mag + 1e-4), f"{what} chi2 {chi2} expected {c} (scale {mag})")
    if len(out) == 3:
        r = np.concatenate(out[2]) if unpack else out[2]
        expect(r.shape == res.shape, "residual size")
        # float32 rounding of the exponent and of the sum; components just at the cut may differ
        peak = np.max(pm)
        tol = 2e-6 * np.abs(p.data) + 3e-3 * pm + 1e-7 * peak + 1e-6 * np.abs(res)
        bad = np.abs(r - res) > tol
        expect(not bad.any(), f"{what} residual differs at {np.flatnonzero(bad)[:5]}: {r[bad][:5]} expected {res[bad][:5]}")
        if unpack:
            expect([len(x) for x in out[2]] == list(p.exposure_N), "residuals per exposure")


@R.prop(n=40, tmax=25)
def kernel_values(rng):
    w = fix.World(rng, sip=bool(rng.random() < 0.3))
    n = int(rng.choice([1, 2, 3, 5, 8]))
    cat = w.cat(rng, n, size=float(rng.choice([0.2, 0.5, 1.5])))
    k = rng.random()
    if k < 0.2:
        for b in w.bands:
            cat[b][rng.random(n) < 0.5] = 0
    elif k < 0.4:
        for b in w.bands:
            cat[b] *= rng.choice([-1, 1], n)
    elif k < 0.6:
        cat["q"] = rng.uniform(0.2, 1.0, n)
        cat["pa"] = rng.uniform(-6, 6, n)
    rr = bool(rng.random() < 0.8)
    p = w.patch(cat, return_residual=rr)
    p.send_to_device()
    P = CPUProposer(p)
    prop = p.scene.get_proposal()
    prop0, d0, e0 = prop.copy(), p.data.copy(), p.ierr.copy()
    unpack = bool(rng.random() < 0.5)
    out = P.evaluate_proposal(prop, unpack=unpack) if rng.random() < 0.3 else P.evaluate_proposal(prop, patch=p, unpack=unpack)
    expect(len(out) == (3 if rr else 2), "residuals are returned when requested")
    check(p, prop, out, unpack)
    same(p.data, d0, "data modified")
    same(p.ierr, e0, "weights modified")
    expect(prop.tobytes() == prop0.tobytes(), "proposal modified")


@R.prop(n=15, tmax=15)
def bright_far(rng):
    """blank data, one bright source: every pixel inside the truncation radius gets its counts"""
    w = fix.World(rng, nbands=1, nexp=1)
    e = w.exposures[0]
    e.flux[:] = 0
    e.ierr[:e.nreal] = 1
    cat = w.cat(rng, 1, size=0.05)
    cat[w.bands[0]] = 1e6
    cat["rhalf"] = rng.uniform(0.03, 0.1)
    p = w.patch(cat)
    p.send_to_device()
    prop = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(prop, patch=p)
    c, g, res, mag, gm, pm = fix.ref_evaluate(p, prop, deriv=False, pixmag=True)
    r = np.concatenate(out[2])
    tot = np.abs(res)
    bad = np.abs(r - res) > 1e-2 * tot + 3e-8 * 1e6
    expect(not bad.any(), f"far wings: {r[bad][:5]} expected {res[bad][:5]}")


@R.prop(n=12, tmax=15)
def history(rng):
    """the result depends only on the proposal: repeated and interleaved evaluations agree"""
    w = fix.World(rng)
    n = int(rng.integers(1, 4))
    p = w.patch(w.cat(rng, n))
    p.send_to_device()
    P = CPUProposer(p)
    q0 = p.scene.get_all_source_params().copy()
    props, outs = [], []
    for k in range(4):
        p.scene.set_all_source_params(q0 * (1 + 1e-4 * rng.normal(size=q0.size)) if k else q0)
        pr = p.scene.get_proposal()
        o = P.evaluate_proposal(pr, patch=p)
        check(p, pr, o, True, f"call {k}")
        props.append(pr.copy())
        outs.append((o[0].copy(), o[1].copy(), [x.copy() for x in o[2]]))
    for k in rng.permutation(4):
        o = P.evaluate_proposal(props[k], patch=p)
        same(o[0], outs[k][0], "chi2 repeated")
        same(o[1], outs[k][1], "gradient repeated")
        same(np.concatenate(o[2]), np.concatenate(outs[k][2]), "residual repeated")
    # without the residual image the numbers are the same
    p.return_residual = False
    p.send_to_device()
    o = P.evaluate_proposal(props[0], patch=p)
    expect(len(o) == 2, "no residual when not requested")
    same(o[0], outs[0][0], "chi2 without residual")


@R.prop(n=2, tmax=20)
def full_patch(rng):
    """the largest number of sources the kernel supports"""
    from forcepho.kernel_limits import MAXSOURCES
    w = fix.World(rng, nbands=2, nexp=1)
    p = w.patch(w.cat(rng, MAXSOURCES))
    p.send_to_device()
    pr = p.scene.get_proposal()
    out = CPUProposer(p).evaluate_proposal(pr, patch=p)
    check(p, pr, out, True)


@R.prop(n=10, tmax=10)
def many_bands(rng):
    """fluxes, PSFs and pixels of each band belong together"""
    w = fix.World(rng, nbands=5, nexp=None)
    p = w.patch(w.cat(rng, 2))
    p.send_to_device()
    pr = p.scene.get_proposal()
    check(p, pr, CPUProposer(p).evaluate_proposal(pr, patch=p), True)


@R.prop(n=20)
def weights(rng):
    """zero-weight pixels contribute nothing whatever their value"""
    w = fix.World(rng)
    cat = w.cat(rng, 2)
    p = w.patch(cat)
    p.send_to_device()
    pr = p.scene.get_proposal()
    a = CPUProposer(p).evaluate_proposal(pr, patch=p)
    z = p.ierr == 0
    if not z.any():
        raise Skip
    p.data[z] = rng.normal(0, 1e3, z.sum())
    p.send_to_device()
    b = CPUProposer(p).evaluate_proposal(pr, patch=p)
    same(a[0], b[0], "chi2 of masked pixels")
    same(a[1], b[1], "gradient of masked pixels")


R.main()
