"""P14 runtime contracts: subtraction of fixed sources, design matrix, rendering."""
import numpy as np
from oracles.common import *
setup(kernel=True)
from oracles import fix
from forcepho.proposal import CPUProposer
R = Run()


def model_of(w, cat, order=None):
    """reference float64 model image (flat) of a catalog, and its magnitude per pixel"""
    p = w.patch(cat, order=order)
    c, g, res, mag, gm, pm = fix.ref_evaluate(p, p.scene.get_proposal(), deriv=False, pixmag=True, data=np.zeros(p.npix))
    return -res, pm


def tol_of(pm, data):
    return 4e-3 * pm + 1e-6 * np.max(pm) + 4e-6 * np.abs(data) + 1e-6


def cut(cat, sizes):
    out, k = [], 0
    for s in sizes:
        out.append(cat[k:k + s])
        k += s
    return out


def compare(got, exp, tol, what):
    got = np.asarray(got, dtype=float)
    expect(got.shape == exp.shape, f"{what} shape {got.shape} expected {exp.shape}")
    bad = ~(np.abs(got - exp) <= tol)
    expect(not bad.any(), f"{what}: {bad.sum()} pixels differ, first {np.flatnonzero(bad)[:4]} got {got[bad][:4]} expected {exp[bad][:4]}")


@R.prop(n=30, tmax=40)
def subtraction(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 3)), nexp=int(rng.integers(1, 3)))
    nf, na, nbig = int(rng.choice([0, 1, 2, 3, 4, 5, 7])), int(rng.integers(1, 4)), int(rng.choice([0, 0, 1, 2, 3]))
    cat = w.cat(rng, nf + na + nbig)
    fixed, active, big = cut(cat, (nf, na, nbig))
    f0, a0, b0 = fixed.copy(), active.copy(), big.copy()
    p = w.patch(None)
    d0, i0 = p.data.copy(), p.ierr.copy()
    mx = int(rng.integers(1, 9))
    prop, scene = p.subtract_fixed(fixed if nf else None, active=active, big=big if nbig else None, maxactive=mx)
    for a, b in ((fixed, f0), (active, a0), (big, b0)):
        expect(a.tobytes() == b.tobytes(), "input catalog modified")
    tot, pm = np.zeros(p.npix), np.zeros(p.npix)
    for c in ([fixed] if nf else []) + ([big] if nbig else []):
        m, q = model_of(w, c)
        tot, pm = tot + m, pm + q
    exp = d0.astype(float) - tot
    tol = tol_of(pm, d0) * 1.5
    compare(p.data, exp, tol, "data after subtraction")
    compare(p.retrieve_array("data"), exp, tol, "retrieved data after subtraction")
    same(p.ierr, i0, "weights")
    # the kernel now sees the subtracted data and the active sources
    expect(len(scene.sources) == na and p.n_sources == na, "active scene")
    p.return_residual = True
    r = prop.evaluate_proposal(scene.get_proposal(), patch=p, unpack=False)
    ma, pa_ = model_of(w, active)
    compare(r[2], exp - ma, tol + tol_of(pa_, exp), "residual after subtraction and active model")
    c, g, res, mag, gm = fix.ref_evaluate(p, scene.get_proposal(), deriv=False)
    expect(np.all(np.abs(r[0] - c) <= 1e-3 * mag + 1e-3), f"chi2 {r[0]} expected {c}")
    # a second evaluation sees the same data
    r2 = prop.evaluate_proposal(scene.get_proposal(), patch=p, unpack=False)
    same(r2[2], r[2], "repeated evaluation")


@R.prop(n=20, tmax=25)
def design(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 4)), nexp=int(rng.integers(1, 3)))
    nf, na = int(rng.choice([0, 2, 3])), int(rng.integers(1, 5))
    cat = w.cat(rng, nf + na)
    fixed, active = cut(cat, (nf, na))
    for b in w.bands:
        active[b] *= rng.choice([-1, 1], na)
    p = w.patch(None)
    d0 = p.data.copy()
    prop, scene = p.subtract_fixed(fixed if nf else None, active=active, maxactive=2)
    Xes, ys = p.design_matrix(active=active, proposer=prop if rng.random() < .5 else None)
    tot, pm = (np.zeros(p.npix), np.zeros(p.npix)) if not nf else model_of(w, fixed)
    y = d0.astype(float) - tot
    k = np.cumsum(p.band_N_pix)[:-1]
    yb, tb = np.split(y, k), np.split(tol_of(pm, d0) * 1.5, k)
    expect(len(Xes) == len(ys) == p.n_bands, "one matrix per band")
    for j in range(p.n_bands):
        compare(ys[j], yb[j], tb[j], f"target of band {j}")
        expect(Xes[j].shape == (na, p.band_N_pix[j]), "design matrix shape")
    for i in range(na):
        m, q = model_of(w, active[i:i + 1])
        mb, qb, db = np.split(m, k), np.split(tol_of(q, y), k), np.split(y, k)
        for j, b in enumerate(p.bandlist):
            fl = float(active[b][i])
            compare(Xes[j][i], mb[j] / fl, (qb[j] + 2e-5 * np.abs(db[j])) / abs(fl), f"column of source {i} in band {b}")
    # data is still the target
    compare(p.retrieve_array("data"), y, tol_of(pm, d0) * 1.5, "data after design matrix")


@R.prop(n=15, tmax=15)
def rendering(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 3)))
    cat = w.cat(rng, int(rng.integers(1, 6)))
    p = w.patch(None, return_residual=bool(rng.random() < .5))
    orig, d0 = p.return_residual, p.data.copy()
    if rng.random() < 0.5:   # rendering after something else was rendered
        p.render(w.cat(rng, 2))
    ims = p.render(cat)
    m, pm = model_of(w, cat)
    expect(len(ims) == p.n_exp, "one image per exposure")
    for j, im in enumerate(ims):
        s = slice(p.exposure_start[j], p.exposure_start[j] + p.exposure_N[j])
        compare(im, m[s], tol_of(pm, d0)[s], f"rendered exposure {j}")
    same(p.data, d0, "data after rendering")
    expect(p.return_residual == orig, "residual flag restored")


@R.prop(n=15, tmax=15)
def prepared_model(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 3)), nexp=1)
    nf, na = int(rng.choice([0, 3])), int(rng.integers(1, 4))
    cat = w.cat(rng, nf + na)
    fixed, active = cut(cat, (nf, na))
    p = w.patch(None)
    d0 = p.data.copy()
    bounds = None
    if rng.random() < .5:
        from forcepho.superscene import make_bounds
        bounds = make_bounds(active, p.bandlist)
        for c in ("q", "sersic", "rhalf", "pa"):   # the starting point has to lie inside
            for i in range(na):
                lo, hi = bounds[c][i]
                active[c][i] = lo + (hi - lo) * rng.uniform(.2, .8)
    d0 = p.data.copy()
    model, q = p.prepare_model(active=active, fixed=fixed if nf else None, bounds=bounds, maxactive=2)
    z = np.asarray(p.patch_reference_coordinates)
    exp = []
    for s in active:
        exp += [s[b] for b in p.bandlist] + [s["ra"] - z[0], s["dec"] - z[1]] + [s[c] for c in ("q", "pa", "sersic", "rhalf")]
    close(q, exp, 1e-9, 1e-9, "starting vector")
    zq = model.transform.inverse_transform(q)
    val = model.lnprob(zq) - (model.transform.lndetjac(zq) if bounds is not None else 0)
    c, g, res, mag, gm = fix.ref_evaluate(p, model.scene.get_proposal(), deriv=False)
    expect(abs(val + 0.5 * c.sum()) <= 1e-3 * mag.sum() + 1e-2, f"lnlike {val} expected {-0.5 * c.sum()}")
    if nf:
        tot, pm = model_of(w, fixed)
        compare(p.data, d0 - tot, tol_of(pm, d0) * 1.5, "data of the prepared model")
    if bounds is not None:
        lo, hi = np.asarray(model.transform.lower, float), np.asarray(model.transform.upper, float)
        expect(np.all(lo < q) and np.all(q < hi), "starting vector inside of the bounds")
        close(model.transform.transform(model.transform.inverse_transform(q)), q, 1e-5, 1e-9, "bounded transform at the start")


R.main()
