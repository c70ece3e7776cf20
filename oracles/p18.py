"""P18 runtime contracts: conditional linear flux optimisation."""
import numpy as np
from oracles.common import *
setup(kernel=True)
from oracles import fix
from forcepho.fitting import optimize_one_band, optimize_fluxes
R = Run()


@R.prop(n=150, tmax=8)
def one_band(rng):
    ns, npix = int(rng.integers(1, 6)), int(rng.integers(8, 60))
    X = rng.normal(0, 1, (ns, npix)) * rng.choice([1e-3, 1, 1e3])
    w = rng.uniform(0.1, 2, npix) * (rng.random(npix) > 0.15)
    y = rng.normal(0, 3, npix)
    if (w > 0).sum() < ns + 2:
        raise Skip
    kw = {}
    fx = 0.
    if rng.random() < 0.5:
        fx = rng.normal(0, 1, npix) if rng.random() < .7 else float(rng.normal())
        kw["fixedX"] = fx
    X0, w0, y0 = X.copy(), w.copy(), y.copy()
    f, P = optimize_one_band(X, w, y, **kw)
    same(X, X0, "design unchanged"); same(w, w0, "weights unchanged"); same(y, y0, "data unchanged")
    f = np.asarray(f, float).reshape(-1)
    expect(f.size == ns and np.shape(P) == (ns, ns), "shapes")
    A = (X * w ** 2) @ X.T
    b = (X * w ** 2) @ (y - fx)
    close(P, A, 1e-9, 1e-9 * np.abs(A).max(), "precision matrix")
    scale = (np.abs(X) * w ** 2) @ (np.abs(y - fx) + np.abs(f) @ np.abs(X))
    expect(np.all(np.abs(A @ f - b) <= 1e-8 * scale), f"normal equations {A @ f - b}")
    chi = lambda g: float((((y - fx) - g @ X) ** 2 * w ** 2).sum())
    for _ in range(5):
        d = rng.normal(0, 1, ns) * (np.abs(f) + np.abs(f).max() + 1e-6) * 0.1
        expect(chi(f + d) >= chi(f) * (1 - 1e-9), "fluxes do not minimise chi-square")


@R.prop(n=5, tmax=3)
def degenerate_band(rng):
    """a singular band is reported by the exception, never by arbitrary fluxes"""
    npix = 20
    X = np.zeros((2, npix))
    X[0] = rng.integers(1, 5, npix)
    w, y = np.ones(npix), rng.normal(0, 1, npix)
    try:
        f, P = optimize_one_band(X, w, y)
    except np.linalg.LinAlgError:
        return
    raise_fail(f"singular normal equations gave fluxes {f}")


@R.prop(n=12, tmax=3)
def singular_patch(rng):
    """a band without a solution is never silently left out of the fluxes: the bands of the result stay those of the patch"""
    import types
    nb, ns = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    npx = [int(k) for k in rng.integers(8, 20, nb)]
    bad = int(rng.integers(nb))
    X = [rng.integers(1, 9, (ns, k)).astype(float) + np.eye(ns, k) * 30 for k in npx]
    X[bad][-1] = 0
    y = [rng.normal(0, 1, k) for k in npx]
    w = [np.ones(k) for k in npx]
    p = types.SimpleNamespace(design_matrix=lambda a, **k: ([x.copy() for x in X], [d.copy() for d in y]), split_band=lambda a: [x.copy() for x in w],
                              bandlist=[f"B{k}" for k in range(nb)])
    try:
        r = optimize_fluxes(p, None)
    except np.linalg.LinAlgError:
        return
    expect(not (len(r) == 2 and isinstance(r[0], list) and len(r[0]) != nb), f"fluxes of {len(r[0]) if len(r) == 2 else 0} of {nb} bands")


def ref_design(w, p, active):
    """(n_source, npix) unit-flux models from the independent reference"""
    X = np.zeros((len(active), p.npix))
    for i in range(len(active)):
        q = w.patch(active[i:i + 1])
        c, g, res, mag, gm = fix.ref_evaluate(q, q.scene.get_proposal(), deriv=False, data=np.zeros(q.npix))
        k = 0
        for j, b in enumerate(p.bandlist):
            n = int(p.band_N_pix[j])
            X[i, k:k + n] = -res[k:k + n] / active[i][b]
            k += n
    return X


@R.prop(n=24, tmax=40)
def patch_fluxes(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 4)), nexp=int(rng.integers(1, 3)))
    na, nf = int(rng.integers(1, 4)), int(rng.choice([0, 0, 1, 2]))
    cat = w.cat(rng, na + nf)
    active, fixed = cat[:na].copy(), cat[na:].copy()
    p = w.patch(None)
    p.subtract_fixed(fixed if nf else None, active=active, maxactive=4)
    y = np.array(p.retrieve_array("data"), dtype=float)
    ie = np.array(p.ierr, dtype=float)
    a0 = active.copy()
    ret = bool(rng.random() < .5)
    out = optimize_fluxes(p, active, return_all=ret)
    expect(active.tobytes() == a0.tobytes(), "catalog modified")
    if isinstance(out[0], (int, np.integer)):
        raise Skip   # singular band
    fluxes, precs = out[:2]
    expect(len(fluxes) == len(precs) == p.n_bands, "one solution per band")
    X = ref_design(w, p, active)
    k = 0
    for j, b in enumerate(p.bandlist):
        s = slice(k, k + int(p.band_N_pix[j]))
        k = s.stop
        f = np.asarray(fluxes[j], float)
        expect(f.shape == (na,), f"fluxes of band {b} have shape {f.shape}")
        Xb, yb, wb = X[:, s], y[s], ie[s] ** 2
        A = (Xb * wb) @ Xb.T
        absA = (np.abs(Xb) * wb) @ np.abs(Xb).T
        expect(np.all(np.abs(precs[j] - A) <= 6e-3 * absA + 1e-4 * absA.max()), f"precision of band {b}: {precs[j]} expected {A}")
        m = f @ Xb
        scale = (np.abs(Xb) * wb) @ (np.abs(yb) + np.abs(f) @ np.abs(Xb))
        g = A @ f - (Xb * wb) @ yb
        expect(np.all(np.abs(g) <= 1e-2 * scale + 1e-4 * scale.max()), f"normal equations of band {b}: {g} scale {scale}")


@R.prop(n=10, tmax=25)
def recovery(rng):
    """noise-free data: the fluxes that made it are recovered, whatever the guesses"""
    w = fix.World(rng, nbands=int(rng.integers(1, 3)), nexp=2)
    na = int(rng.integers(1, 3))
    cat = w.cat(rng, na)
    cat["rhalf"] = rng.uniform(.03, .08, na)
    if na == 2:   # well separated
        cat["ra"][1] = cat["ra"][0] + 0.3 / 3600
        cat["dec"][1] = cat["dec"][0]
    p = w.patch(None)
    X = ref_design(w, p, cat)
    true = rng.uniform(-5, 30, (p.n_bands, na))
    k, data = 0, np.zeros(p.npix)
    for j in range(p.n_bands):
        s = slice(k, k + int(p.band_N_pix[j])); k = s.stop
        data[s] = true[j] @ X[:, s]
    k = 0
    for b in p.bandlist:
        for e in [x for x in w.exposures if x.band == b]:
            n = e.flux.size
            e.flux = data[k:k + n].copy(); e.ierr = np.where(e.xpix < 0, 0, rng.uniform(.5, 2, n)); k += n
    guess = cat.copy()
    for b in p.bandlist:
        guess[b] = rng.uniform(.5, 40, na)
    p = w.patch(None)
    p.subtract_fixed(None, active=guess, maxactive=4)
    out = optimize_fluxes(p, guess)
    if isinstance(out[0], (int, np.integer)):
        raise Skip
    for j in range(p.n_bands):
        c = np.linalg.cond(out[1][j])
        if c > 1e4:
            continue
        expect(np.all(np.abs(out[0][j] - true[j]) <= 1e-3 * np.sqrt(c) * (np.abs(true[j]).max() + 1)), f"band {j}: {out[0][j]} expected {true[j]} (cond {c})")


@R.prop(n=6, tmax=20)
def task(rng):
    """the optimisation task: fluxes of the returned catalog are the linear solution at the optimised shapes (in the units and
    order of the catalog), their bounds follow the precisions"""
    import types
    import forcepho.tasks as ft
    from forcepho.superscene import make_bounds, flux_bounds
    w = fix.World(rng, nbands=int(rng.integers(1, 4)), nexp=int(rng.integers(1, 3)))
    na = int(rng.integers(1, 4))
    cat = w.cat(rng, na)
    cat["q"] = np.clip(cat["q"], .5, .95)
    cat["rhalf"] = np.clip(cat["rhalf"], .05, .25)
    cat["sersic"] = np.clip(cat["sersic"], 1.2, 4.5)
    cat["pa"] = np.clip(cat["pa"], -1.5, 1.5)
    bands = [b for b in w.allbands if b in w.bands]
    p = w.patch(None, build=False)
    p.build_patch(None, None, allbands=w.allbands)
    bands = list(p.bandlist)
    bounds = make_bounds(cat, bands)
    a0, b0 = cat.copy(), bounds.copy()
    cfg = types.SimpleNamespace(bands=w.allbands, add_barriers=bool(rng.random() < .3), gtol=1e-3, linear_optimize=bool(rng.random() < .8),
                                flux_prior_expansion=float(rng.uniform(2, 6)))
    seen = {}

    def fake(model, q, **k):
        x = np.random.default_rng(3).uniform(model.transform.lower, model.transform.upper)
        seen["x"], seen["sampling"], seen["prior"] = x, model.sampling, model._lnpriorfn
        seen["ref"] = np.array(p.patch_reference_coordinates, dtype=float)
        return types.SimpleNamespace(chain=np.atleast_2d(x)), "scires"
    old, ft.run_opt = ft.run_opt, fake
    sp = types.SimpleNamespace()
    try:
        (out, step, stats), (region, act, fixed, bnd), model = ft.optimize(p, ("region", cat.copy(), None, bounds.copy()), cfg,
                                                                           types.SimpleNamespace(info=lambda *a: None), scratchpad=sp)
    except ValueError as e:
        if "unpack" in str(e) or "not enough" in str(e):
            raise Skip        # singular band
        raise
    finally:
        ft.run_opt = old
    expect(stats == "scires" and region == "region", "results handed on")
    expect(not seen["sampling"] and model.sampling, "optimised without the volume term, sampled with it")
    expect((seen["prior"] is not None) == cfg.add_barriers and model._lnpriorfn is None, "barriers only while optimising")
    ref = seen["ref"]
    nb = len(bands)
    x = seen["x"].reshape(na, -1)
    shp = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
    for i in range(na):
        for j, c in enumerate(shp):
            off = ref[j] if j < 2 else 0
            close(float(act[c][i]), x[i, nb + j] + off, 1e-12, 1e-10, f"{c} of source {i} after optimising")
        for j, b in enumerate(bands):
            close(float(sp.active_postop[b][i]), x[i, j], 1e-6, 1e-9, f"flux of source {i} in {b} after optimising")
    if not cfg.linear_optimize:
        for b in bands:
            close(act[b], sp.active_postop[b], 0, 0, "fluxes")
            close(bnd[b], b0[b], 0, 0, "bounds")
        return
    y, ie = np.array(p.retrieve_array("data"), dtype=float), np.array(p.ierr, dtype=float)
    p2 = w.patch(None)
    ref_act = act.copy()
    for b in bands:
        ref_act[b] = 1.
    X = ref_design(w, p2, ref_act)
    k = 0
    for j, b in enumerate(bands):
        s = slice(k, k + int(p2.band_N_pix[j])); k = s.stop
        Xb, yb, wb = X[:, s], y[s], ie[s] ** 2
        A = (Xb * wb) @ Xb.T
        f = np.asarray(act[b], float)
        scale = (np.abs(Xb) * wb) @ (np.abs(yb) + np.abs(f) @ np.abs(Xb))
        g = A @ f - (Xb * wb) @ yb
        expect(np.all(np.abs(g) <= 1e-2 * scale + 1e-3 * scale.max()), f"fluxes of band {b} are not the linear solution: {g} scale {scale}")
        lo, hi = flux_bounds(f, cfg.flux_prior_expansion, precisions=sp.precision_matrices[j])
        close(bnd[b], np.array([lo, hi]).T, 1e-6, 1e-9, f"flux bounds of {b}")
    for c in shp:
        close(bnd[c], b0[c], 0, 0, f"bounds of {c}")


R.main()
