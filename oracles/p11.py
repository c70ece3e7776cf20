"""P11 runtime contracts: prior bounds and catalog rectification."""
import numpy as np
import numpy.lib.recfunctions as rf
from oracles.common import *
setup()
from oracles import fix, scenes
from forcepho.superscene import (SuperScene, make_bounds, bounds_vectors, check_bounds, flux_bounds, adjust_bounds,
                                 rectify_catalog, convert_pa, sourcecat_dtype)
R = Run()


def fluxes(rng, n):
    f = rng.normal(size=n) * 10 ** rng.uniform(-3, 3, n)
    f[rng.random(n) < .15] = 0.
    return f


def cat_of(rng, n=None):
    bands = fix.bandnames(rng, int(rng.integers(1, 5)))
    n = int(rng.integers(1, 8)) if n is None else n
    c = scenes.catalog(rng, n, bands)
    for b in bands:
        c[b] = fluxes(rng, n)
    return c, bands


def ref_flux_bounds(f, u):
    w = u * np.sqrt(np.abs(f))
    fm = (u / 2.) ** 2
    lo, hi = f - w, np.maximum(f + w, fm)
    return np.where(f <= fm, np.minimum(lo, -fm), lo), hi


@R.prop(n=200)
def make(rng):
    c, bands = cat_of(rng)
    n = len(c)
    kw, dpos = {}, np.array([.06, .06])
    if rng.random() < .4:
        dpos = rng.uniform(.01, .5, 2)
        kw["dpos"] = dpos
    elif rng.random() < .3:
        dpos = rng.uniform(.01, .5, (2, n))
        kw["dpos"] = dpos
    elif rng.random() < .5:
        kw.update(n_pix=float(rng.uniform(.5, 4)), pixscale=float(rng.uniform(.01, .1)))
        dpos = np.ones(2) * kw["n_pix"] * kw["pixscale"]
    rng_ = dict(sqrtq_range=(.4, 1.), pa_range=(-.6 * np.pi, .6 * np.pi), rhalf_range=(.03, .3), sersic_range=(1., 5.))
    for k in list(rng_):
        if rng.random() < .4:
            rng_[k] = (float(rng.uniform(0, 1)), float(rng.uniform(1.1, 3)))
            kw[k] = rng_[k]
    ns = 5.
    if rng.random() < .5:
        ns = float(rng.uniform(1, 10))
        kw["n_sig_flux"] = ns
    unc = None
    if rng.random() < .5:
        unc = np.zeros(n, dtype=[(b, "f8") for b in bands])
        for b in bands:
            unc[b] = 10 ** rng.uniform(-3, 2, n)
        kw["unccat"] = unc
    c0 = c.copy()
    B = make_bounds(c, list(bands), **kw)
    expect(c.tobytes() == c0.tobytes(), "catalog modified")
    expect(len(B) == n and set(bands + scenes.SHAPE) <= set(B.dtype.names), "columns")
    dra = np.broadcast_to(dpos[0] / 3600. / np.cos(np.deg2rad(c["dec"])), (n,))
    dde = np.broadcast_to(dpos[1] / 3600., (n,))
    exp = {"ra": (c["ra"] - dra, c["ra"] + dra), "dec": (c["dec"] - dde, c["dec"] + dde)}
    for k, p in (("q", "sqrtq_range"), ("pa", "pa_range"), ("rhalf", "rhalf_range"), ("sersic", "sersic_range")):
        exp[k] = (np.full(n, rng_[p][0]), np.full(n, rng_[p][1]))
    for b in bands:
        if unc is None:
            exp[b] = ref_flux_bounds(c[b], ns)
        else:
            s = np.maximum(unc[b], .05 * np.abs(c[b]))
            exp[b] = (c[b] - ns * s, c[b] + ns * s)
        expect(np.all(B[b][:, 0] < c[b]) and np.all(c[b] < B[b][:, 1]), f"flux outside its bounds: {c[b]} {B[b]}")
    for k, (lo, hi) in exp.items():
        close(B[k][:, 0], lo, rtol=1e-12, atol=1e-13, what=f"lower {k}")
        close(B[k][:, 1], hi, rtol=1e-12, atol=1e-13, what=f"upper {k}")
        expect(np.all(B[k][:, 0] < B[k][:, 1]), f"empty bounds {k}")


@R.prop(n=200)
def vectors(rng):
    """bound vectors follow the order of the scene parameter vector"""
    c, bands = cat_of(rng)
    n = len(c)
    B = make_bounds(c, list(bands))
    for k in bands + scenes.SHAPE:
        B[k] = rng.normal(size=(n, 2))
    use = [bands[i] for i in rng.permutation(len(bands))]
    ref = rng.normal(size=2).tolist() if rng.random() < .6 else None
    B0 = B.copy()
    lo, hi = bounds_vectors(B, use, reference_coordinates=ref) if ref is not None else bounds_vectors(B, use)
    expect(B.tobytes() == B0.tobytes(), "bounds catalog modified")
    r = dict(zip(("ra", "dec"), ref or [0., 0.]))
    for j, v in ((0, lo), (1, hi)):
        w = np.array([[B[k][i, j] - r.get(k, 0.) for k in use + scenes.SHAPE] for i in range(n)]).reshape(-1)
        close(v, w, rtol=1e-12, atol=1e-12, what="bound vector")


@R.prop(n=300)
def fluxb(rng):
    n = int(rng.integers(1, 8))
    f = fluxes(rng, n)
    u = float(rng.uniform(.5, 10))
    f0 = f.copy()
    if rng.random() < .5:
        lo, hi = flux_bounds(f, u)
        e = ref_flux_bounds(f0, u)
        expect(np.all(lo < f0) and np.all(f0 < hi), f"flux not inside its bounds {lo} {f0} {hi}")
    else:
        A = rng.normal(size=(n, n))
        P = A @ A.T + np.eye(n) * .1
        sm = float(rng.uniform(2, 30))
        lo, hi = flux_bounds(f, u, snr_max=sm, precisions=P) if rng.random() < .7 else flux_bounds(f, u, precisions=P)
        sm = sm if True else 10
        s1 = [np.maximum(np.sqrt(np.diag(np.linalg.inv(P))), f0 / x) for x in (sm, 10.)]
        es = [(f0 - u * s, np.maximum(f0 + u * s, u * s)) for s in s1]
        e = min(es, key=lambda t: np.abs(t[0] - lo).max())
        expect(np.all(lo < f0) and np.all(f0 < hi), "flux not inside its bounds")
        expect(np.all(hi > 0), "upper bounds allow positive fluxes")
    same(f, f0, "fluxes modified")
    close(lo, e[0], rtol=1e-6, atol=1e-9, what="lower")
    close(hi, e[1], rtol=1e-6, atol=1e-9, what="upper")


@R.prop(n=200)
def checks(rng):
    c, bands = cat_of(rng)
    n = len(c)
    for b in bands:
        c[b] = rng.uniform(1, 100, n)
    B = make_bounds(c, list(bands))
    check_bounds(c, B)
    k = (bands + scenes.SHAPE)[int(rng.integers(len(bands) + 6))]
    i = int(rng.integers(n))
    lo, hi = B[k][i]
    v = [lo, hi, lo - 1e-3 * (hi - lo), hi + 1e-3 * (hi - lo)][int(rng.integers(4))]
    c[k][i] = v
    try:
        check_bounds(c, B)
    except AssertionError:
        return
    raise_fail(f"value {v} of {k} accepted in bounds {lo} {hi}")


class Cfg:
    pass


@R.prop(n=200)
def adjust(rng):
    c, bands = cat_of(rng)
    n = len(c)
    for b in bands:
        c[b] = rng.uniform(-5, 100, n)
    B = make_bounds(c, list(bands))
    for b in bands:
        B[b][:, 0] = rng.uniform(-10, 50, n)
        B[b][:, 1] = B[b][:, 0] + rng.uniform(1, 50, n)
    B0, c0 = B.copy(), c.copy()
    mf = None if rng.random() < .3 else float(rng.uniform(-10, 10))
    mx = 0. if rng.random() < .3 else float(rng.uniform(.5, 5))
    cfg = Cfg()
    cfg.minflux, cfg.maxfluxfactor = mf, mx
    sub = [b for b in bands if rng.random() < .8] or bands[:1]
    k = rng.random()
    if k < .4:
        r = adjust_bounds(B, sub, config=cfg, active=c)
        expect(r is B, "returns the bounds catalog")
    elif k < .7:
        r = adjust_bounds(B, sub, config=cfg if mf is None else None, active=c, minflux=mf, maxfluxfactor=mx)
    else:
        db = SuperScene.__new__(SuperScene)
        db.sourcecat, db.bounds_catalog = c, B
        ok = True
        try:
            r = adjust_bounds(db, sub, config=cfg, active=c if rng.random() < .5 else None)
            expect(r is db, "returns the superscene")
        except AssertionError:
            ok = False
        inside = all(np.all(c[q] > B[q][:, 0]) and np.all(c[q] < B[q][:, 1]) for q in bands + scenes.SHAPE)
        expect(ok == inside, "values outside bounds must be reported")
    for b in bands:
        lo, hi = B0[b][:, 0], B0[b][:, 1]
        if b in sub:
            if mf is not None:
                lo = np.minimum(lo, mf)
            if mx > 0:
                hi = np.maximum(hi, c0[b] * mx)
        close(B[b][:, 0], lo, what=f"lower {b}")
        close(B[b][:, 1], hi, what=f"upper {b}")
        if b in sub and k < .7:
            close(c[b], np.clip(c0[b], lo + .001, hi - .001), what="fluxes clipped into the bounds")
            expect(np.all(c[b] > lo) and np.all(c[b] < hi), "flux outside bounds")
        elif b not in sub:
            same(c[b], c0[b], "flux of another band changed")
    for q in scenes.SHAPE:
        same(B[q], B0[q], "bounds of " + q)


@R.prop(n=150)
def rectify(rng):
    bands = fix.bandnames(rng, int(rng.integers(1, 4)))
    n = int(rng.integers(1, 8))
    cols = ["id"] + bands + scenes.SHAPE + ["junk"]
    raw = np.zeros(n, dtype=[(str(c), "f8") for c in rng.permutation(cols)])
    for c in cols:
        raw[c] = rng.normal(size=n) * 2 + 1
    raw["id"] = rng.integers(0, 1000, n)
    raw0 = raw.copy()
    hdr = {"FILTERS": (", " if rng.random() < .5 else ",").join(bands)}
    kw, rg = {}, dict(rhalf_range=(.051, .29), sqrtq_range=(.2, .99), sersic_range=(1.01, 4.99), pa_range=(-2., 2.))
    if rng.random() < .5:
        for k in list(rg):
            rg[k] = (float(rng.uniform(-1, 0)), float(rng.uniform(.5, 1.5)))
            kw[k] = rg[k]
    kw["rotate"], kw["reverse"] = bool(rng.random() < .3), bool(rng.random() < .3)
    cat, b, h = rectify_catalog((raw, hdr), **kw)
    expect(list(b) == bands, f"bands {b}")
    same(cat["source_index"], np.arange(n), "source_index")
    for c in ["id"] + bands + ["ra", "dec"]:
        close(cat[c], raw0[c], what=c)
    for c, k in (("rhalf", "rhalf_range"), ("q", "sqrtq_range"), ("sersic", "sersic_range")):
        close(cat[c], np.clip(raw0[c], *rg[k]), what=c)
    pa = np.clip(raw0["pa"], *rg["pa_range"])
    if kw["rotate"]:
        pa = pa + np.pi / 2 - np.pi * (pa > 0)
    if kw["reverse"]:
        pa = -pa
    close(cat["pa"], pa, what="pa")
    bad = raw0.copy()
    col = (bands + scenes.SHAPE)[int(rng.integers(len(bands) + 6))]
    bad[col][int(rng.integers(n))] = rng.choice([np.nan, np.inf, -np.inf])
    for r, hh in ((bad, hdr), (raw0, {"FILTERS": hdr["FILTERS"] + ",NOPE"}), (rf.drop_fields(raw0, "q"), hdr)):
        try:
            rectify_catalog((r.copy(), hh))
        except AssertionError:
            continue
        raise_fail("defective catalog accepted")


@R.prop(n=200)
def angles(rng):
    n = int(rng.integers(1, 8))
    t = rng.uniform(-4.4, 4.4, n) * np.pi
    if rng.random() < .4:
        t = rng.uniform(-1.6, 1.6, n)
    deg = bool(rng.random() < .5)
    ro, rv = bool(rng.random() < .4), bool(rng.random() < .4)
    x = np.rad2deg(t) if deg else t.copy()
    x0 = x.copy()
    y = convert_pa(x, from_deg=deg, rotate=ro, reverse=rv)
    same(x, x0, "input modified")
    expect(np.all(np.abs(y) <= np.pi / 2 + 1e-12), f"{y} outside +-pi/2 for {t}")
    w = t + (np.pi / 2 if ro else 0)
    w = -w if rv else w
    expect(np.allclose(np.exp(2j * y), np.exp(2j * w), atol=1e-9), f"angle {y} is not {w} modulo pi")


@R.prop(n=20)
def dtype(rng):
    bands = fix.bandnames(rng, 3)
    d = sourcecat_dtype(bands=bands)
    for c in ["id", "source_index", "is_active", "is_valid", "n_iter", "n_patch"]:
        expect(d[c].kind == "i", f"{c} is an integer column")
    for c in scenes.SHAPE + bands:
        expect(d[c] == np.dtype("f8"), f"{c} is double precision")


R.main()
