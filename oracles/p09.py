"""P09 runtime contracts: check-out / check-in of regions, random histories."""
import json
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix, scenes
from forcepho.superscene import SuperScene, LinkedSuperScene
R = Run()


def make(rng, linked, n=None, **kw):
    bands = fix.bandnames(rng, int(rng.integers(1, 4)))
    n = int(rng.integers(3, 60)) if n is None else n
    cat = scenes.catalog(rng, n, bands, size=float(rng.choice([3, 8, 20, 40])))
    a = dict(maxactive_per_patch=int(rng.integers(1, 12)), boundary_radius=float(rng.uniform(2, 9)),
             maxradius=float(rng.uniform(1.5, 6)), minradius=float(rng.uniform(.3, 1)), target_niter=int(rng.integers(20, 300)))
    a.update(kw)
    if linked:
        db = LinkedSuperScene(cat.copy(), bands, roi=cat["roi"].astype(float), buffer=float(rng.uniform(0, .5)),
                              strict=bool(rng.random() < .5), **a)
    else:
        db = SuperScene(cat.copy(), bands, nscale=float(rng.uniform(1, 4)), **a)
    return db, bands, cat


STATE = ("sourcecat", "bounds_catalog", "covariance_matrices")


def snap(db):
    return {k: getattr(db, k).copy() for k in STATE}, db.n_active, db.n_fixed


def unchanged(db, s, what):
    for k in STATE:
        expect(getattr(db, k).tobytes() == s[0][k].tobytes(), f"{what}: {k} changed")
    expect((db.n_active, db.n_fixed) == (s[1], s[2]), f"{what}: counts changed")


def step_checkout(db, out, rng, seed=None):
    before = snap(db)
    k = int(rng.integers(db.n_sources)) if seed is None else seed
    np.random.seed(int(rng.integers(2 ** 31)))
    region, active, fixed = db.checkout_region(seed_index=k) if rng.random() < .6 else db.checkout_region()
    if active is None:
        expect(fixed is None, "invalid region returns no fixed sources")
        unchanged(db, before, "invalid checkout")
        return None
    ai = active["source_index"].astype(int)
    fi = np.array([], int) if fixed is None else fixed["source_index"].astype(int)
    expect(len(ai) >= 1, "a region has at least one active source")
    expect(len(set(ai.tolist())) == len(ai), f"a source is twice in the active set {ai}")
    expect(not set(ai.tolist()) & set(fi.tolist()), "a source is both active and fixed")
    for o in out:
        both = set(ai.tolist()) & set(o[0].tolist())
        expect(not both, f"sources {both} active in two checked-out regions", "double_active")
    old = before[0]["sourcecat"]
    for c in old.dtype.names:
        if c in ("is_active", "is_valid"):
            continue
        expect(db.sourcecat[c].tobytes() == old[c].tobytes(), f"checkout changed column {c}")
        same(active[c], old[c][ai], f"active rows, {c}")
        if fixed is not None:
            same(fixed[c], old[c][fi], f"fixed rows, {c}")
    ia = old["is_active"] != 0
    ia[ai] = True
    same(db.sourcecat["is_active"] != 0, ia, "is_active after checkout")
    iv = old["is_valid"] != 0
    iv[ai] = False
    iv[fi] = False
    same(db.sourcecat["is_valid"] != 0, iv, "is_valid after checkout")
    expect(db.n_active == before[1] + len(ai) and db.n_fixed == before[2] + len(fi), "counts after checkout")
    for k in STATE[1:]:
        expect(getattr(db, k).tobytes() == before[0][k].tobytes(), f"checkout changed {k}")
    return ai, fi, active, fixed, region


def step_checkin(db, item, rng, bands, hist, flush=False):
    ai, fi, active, fixed, region = item
    before = snap(db)
    old = before[0]["sourcecat"]
    # results come back with rows possibly reordered, and only parameters count
    p = rng.permutation(len(ai))
    act = active[p].copy()
    for c in bands + scenes.SHAPE:
        # positions move little, everything else at will
        act[c] = act[c] + rng.normal(size=len(ai)) / 3600 / 10 if c in ("ra", "dec") else rng.normal(size=len(ai))
        if c == "rhalf":
            act[c] = rng.uniform(.05, .25, len(ai))
    act["n_iter"] = 77
    act["is_active"] = 1
    expect(db.sourcecat.tobytes() == old.tobytes(), "catalog aliases the rows handed out")
    niter = int(rng.choice([0, 1, 10, 100, -5]))
    npar = len(bands) + 6
    kw = {}
    covs = nb = None
    if rng.random() < .5:
        covs = rng.normal(size=(len(ai), npar, npar))
        kw["block_covs"] = covs
    if rng.random() < .5:
        nb = db.bounds_catalog[ai[p]].copy()
        for c in bands + scenes.SHAPE:
            nb[c] = rng.normal(size=nb[c].shape)
        kw["new_bounds"] = nb
    task = None
    if rng.random() < .6:
        task = int(rng.integers(100))
        kw["taskID"] = task
    fx = fixed
    if fx is not None and rng.random() < .5:
        fx = fx[rng.permutation(len(fx))]
    db.checkin_region(act, fx, niter=niter, **kw)
    new = db.sourcecat
    rows = ai[p]
    for c in old.dtype.names:
        e = old[c].copy()
        if c in bands + scenes.SHAPE:
            e[rows] = act[c]
        elif c == "n_iter":
            e[rows] += niter
        elif c == "n_patch":
            e[rows] += int(niter > 0)
        elif c == "is_active":
            e[rows] = 0
        elif c == "is_valid":
            e[rows] = 1
            if fixed is not None:
                e[fi] = 1
            same(new[c] != 0, e != 0, "is_valid after checkin")
            continue
        same(new[c], e, f"column {c} after checkin")
    expect(db.n_active == before[1] - len(ai), "n_active after checkin")
    expect(db.n_fixed == before[2] - len(fi), "n_fixed after checkin")
    eb = before[0]["bounds_catalog"].copy()
    if nb is not None:
        eb[rows] = nb
    expect(db.bounds_catalog.tobytes() == eb.tobytes(), "bounds after checkin")
    ec = before[0]["covariance_matrices"].copy()
    if covs is not None:
        ec[rows] = covs
    same(db.covariance_matrices, ec, "covariances after checkin")
    b, cov = db.bounds_and_covs(rows)
    expect(b.tobytes() == eb[rows].tobytes(), "bounds of the sources")
    m = np.zeros((npar * len(rows),) * 2)
    for k, r in enumerate(rows):
        m[k * npar:(k + 1) * npar, k * npar:(k + 1) * npar] = ec[r]
    same(cov, m, "block covariance")
    if task is not None:
        for r in rows:
            hist.setdefault(int(r), []).append(str(task))
        hist.setdefault("patches", []).append(str(task))
    for r, l in hist.items():
        got = db.patchlog if r == "patches" else db.sourcelog.get(r)
        expect([str(x) for x in got] == l, f"log of {r}: {got} expected {l}")


def history(rng, linked):
    db, bands, cat = make(rng, linked)
    out, hist = [], {}
    tot = 0
    for k in range(25):
        if not out or rng.random() < .6:
            if np.all(db.sourcecat["is_active"] != 0):
                continue
            it = step_checkout(db, out, rng)
            if it is not None:
                out.append(it)
                tot += 1
        else:
            it = out.pop(int(rng.integers(len(out))))
            step_checkin(db, it, rng, bands, hist)
        act = sorted(i for o in out for i in o[0].tolist())
        same(np.flatnonzero(db.sourcecat["is_active"] != 0), act, "active sources are those of the checked-out regions")
        expect(db.n_active == len(act), "number of active sources")
        expect(db.n_fixed == sum(len(o[1]) for o in out), "number of fixed sources")
        expect(bool(db.sparse) == (db.n_active / db.n_sources < db.maxactive_fraction), "sparse")
        expect(bool(db.undone) == bool(np.any(np.abs(db.sourcecat["n_iter"]) < db.target_niter)), "undone")
        same(db.sourcecat["source_index"], np.arange(len(cat)), "source_index")
        same(db.sourcecat["id"], cat["id"], "id")
    while out:
        step_checkin(db, out.pop(), rng, bands, hist)
    expect(db.n_active == 0 and db.n_fixed == 0 and not np.any(db.sourcecat["is_active"]), "everything checked in")
    expect(bool(np.all(db.sourcecat["is_valid"] != 0)), "everything valid again")
    if tot == 0:
        raise Skip


@R.prop(n=60, tmax=25)
def circular_history(rng):
    history(rng, False)


@R.prop(n=60, tmax=25)
def linked_history(rng):
    history(rng, True)


@R.prop(n=30, tmax=15)
def far_friends(rng):
    """chains of overlapping sources much longer than the boundary radius"""
    bands = ["A"]
    n = int(rng.integers(10, 40))
    cat = scenes.catalog(rng, n, bands, ra0=30., dec0=0.)
    cat["ra"] = 30. + (np.arange(n) - n / 2) * 1.0 / 3600
    cat["dec"] = rng.normal(0, .05, n) / 3600
    roi = rng.uniform(.55, .9, n)
    db = LinkedSuperScene(cat, bands, roi=roi, buffer=.1, strict=bool(rng.random() < .5),
                          maxactive_per_patch=int(rng.integers(3, 20)), boundary_radius=float(rng.uniform(1, 3)))
    out, hist = [], {}
    for k in range(15):
        if rng.random() < .7 and not np.all(db.sourcecat["is_active"]):
            it = step_checkout(db, out, rng, seed=int(rng.integers(n)))
            if it is not None:
                out.append(it)
        elif out:
            step_checkin(db, out.pop(int(rng.integers(len(out)))), rng, bands, hist)


@R.prop(n=40)
def seeds(rng):
    """random seeds are sources that are not active, the least iterated preferred"""
    db, bands, cat = make(rng, bool(rng.random() < .5))
    n = db.n_sources
    a = rng.random(n) < .4
    if a.all():
        a[0] = False
    db.sourcecat["is_active"] = a
    db.sourcecat["n_iter"] = rng.integers(-60, 60, n)
    for w in (db.seed_weight(), db.exp_weight(), db.sigmoid_weight()):
        expect(np.all(w >= 0) and abs(w.sum() - 1) < 1e-9, "weights are probabilities")
        expect(np.all(w[a] == 0), "an active source has nonzero seed weight", "seed_active")
        expect(np.all(w[~a] > 0), "an inactive source can never be drawn")
    w = db.seed_weight()[~a]
    it = np.abs(db.sourcecat["n_iter"][~a])
    o = np.argsort(it)
    expect(np.all(np.diff(w[o]) <= 1e-12), "weight decreases with iterations done")
    # weights are exp(-n/20)
    e = np.exp(-it / 20.)
    close(w, e / e.sum(), rtol=1e-9, what="exp weight")


@R.prop(n=15)
def ingest_reset(rng):
    db, bands, cat = make(rng, bool(rng.random() < .5))
    expect(db.parameter_columns == bands + scenes.SHAPE, "parameter columns")
    n, npar = len(cat), len(bands) + 6
    same(db.covariance_matrices, np.tile(np.eye(npar), (n, 1, 1)), "initial covariances")
    for c in cat.dtype.names:
        if c not in ("source_index", "is_active", "is_valid"):
            same(db.sourcecat[c], cat[c], c)
            same(db.original[c], cat[c], "original " + c)
    same(db.sourcecat["source_index"], np.arange(n), "source_index")
    expect(np.all(db.sourcecat["is_valid"] != 0) and not np.any(db.sourcecat["is_active"]), "flags")
    out, hist = [], {}
    for k in range(5):
        it = step_checkout(db, out, rng)
        if it is not None and rng.random() < .6:
            step_checkin(db, it, rng, bands, hist)
        elif it is not None:
            out.append(it)
    db.sourcecat["n_iter"] += 3
    now = db.sourcecat.copy()
    db.reset()
    expect(db.n_active == 0 and db.n_fixed == 0 and not np.any(db.sourcecat["is_active"]) and
           np.all(db.sourcecat["is_valid"] != 0) and not np.any(db.sourcecat["n_iter"]) and not np.any(db.sourcecat["n_patch"]), "reset")
    for c in scenes.SHAPE + bands:
        same(db.sourcecat[c], now[c], "reset changed " + c)
    for miss in ("rhalf", "n_iter", bands[0]):
        c2 = np.lib.recfunctions.drop_fields(cat, miss) if hasattr(np.lib, "recfunctions") else None
        import numpy.lib.recfunctions as rf
        c2 = rf.drop_fields(cat, miss)
        try:
            SuperScene(c2, bands)
        except (AssertionError, ValueError, KeyError):
            continue
        raise_fail(f"catalog without {miss} accepted")


@R.prop(n=8)
def writeout(rng):
    from astropy.io import fits
    d = scratch("p09")
    f = os.path.join(d, "ss.fits")
    db, bands, cat = make(rng, False, statefile=f)
    out, hist = [], {}
    with db as s:
        for k in range(6):
            it = step_checkout(db, out, rng)
            if it is not None:
                step_checkin(db, it, rng, bands, hist)
    t = fits.getdata(f)
    for c in db.sourcecat.dtype.names:
        same(t[c], db.sourcecat[c], f"saved column {c}")
    log = json.load(open(f.replace(".fits", "_log.json")))
    expect([str(x) for x in log["patchlog"]] == hist.get("patches", []), "patch log on disk")
    expect({int(k): [str(x) for x in v] for k, v in log["sourcelog"].items()} ==
           {k: v for k, v in hist.items() if k != "patches"}, "source log on disk")


R.main()
