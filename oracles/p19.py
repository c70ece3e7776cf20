"""P19 runtime contracts: chains, samples and result files keep source/parameter/sample together."""
import json
import os
import types
import numpy as np
from oracles.common import *
setup(kernel=False)
from forcepho.utils import make_chaincat, get_sample_cat, make_statscat, extract_block_diag
from forcepho.utils.catalog import pctile_cat, combine_chains
from forcepho.fitting import Result, run_opt, run_lmc
from forcepho.region import CircularRegion
R = Run()
SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
POOL = ["F090W", "F115W", "F200W", "F444W", "CLEAR", "B1"]


def setting(rng):
    nb = int(rng.integers(1, 4))
    bands = [str(b) for b in rng.permutation(POOL)[:nb]]
    shapes = list(SH) if rng.random() < .6 else ["ra", "dec"]
    n, it = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    dt = np.dtype([("id", np.int32), ("source_index", np.int32), ("n_iter", np.int32), ("roi", float)] +
                  [(c, float) for c in rng.permutation(bands + SH)])
    active = np.zeros(n, dtype=dt)
    for c in dt.names:
        active[c] = rng.permutation(900)[:n] if c in ("id", "source_index", "n_iter") else rng.normal(0, 1, n)
    ref = np.array([rng.uniform(1, 359), rng.uniform(-80, 80)])
    chain = rng.normal(0, 1, (it, n * (nb + len(shapes))))
    return bands, shapes, n, it, active, ref, chain


def expected(chain, s, cols, c, ref):
    v = chain[:, s * len(cols) + cols.index(c)]
    return v + (ref[0] if c == "ra" else ref[1] if c == "dec" else 0.)


@R.prop(n=150, tmax=8)
def chain_catalog(rng):
    bands, shapes, n, it, active, ref, chain = setting(rng)
    cols = bands + shapes
    b, s = bands, shapes
    if rng.random() < .5:
        b = np.array(bands, dtype="S")
    if rng.random() < .5:
        s = np.array(shapes, dtype="S")
    c0, a0 = chain.copy(), active.copy()
    cat = make_chaincat(chain, b, active, ref, shapes=s)
    same(chain, c0, "chain unchanged")
    expect(active.tobytes() == a0.tobytes(), "active unchanged")
    expect(len(cat) == n, "one row per source")
    same(cat["source_index"], active["source_index"], "source index")
    expect(set(cols) <= set(cat.dtype.names), f"columns {cat.dtype.names}")
    for k in range(n):
        for c in cols:
            close(cat[c][k], expected(chain, k, cols, c, ref), 1e-12, 1e-12, f"source {k} column {c}")
    for j in list(range(it)) + [-1]:
        smp = get_sample_cat(cat, j, active)
        expect(active.tobytes() == a0.tobytes(), "active modified by get_sample_cat")
        expect(smp.dtype == active.dtype and len(smp) == n, "sample layout")
        for c in smp.dtype.names:
            if c in cols:
                close(smp[c], [expected(chain, k, cols, c, ref)[j] for k in range(n)], 1e-12, 1e-12, f"sample {j} column {c}")
            else:
                same(smp[c], a0[c], f"sample {j} column {c}")


@R.prop(n=40, tmax=3)
def wrong_length(rng):
    bands, shapes, n, it, active, ref, chain = setting(rng)
    bad = [chain[:, :-1], np.hstack([chain, chain])]
    for c in bad:
        if c.shape[1] == 0 or c.shape[1] == n * (len(bands) + len(shapes)):
            continue
        try:
            make_chaincat(c, bands, active, ref, shapes=shapes)
        except Exception:
            continue
        raise_fail("a chain of the wrong width was accepted")


def fake_model(rng, bands, shapes, ref):
    m = types.SimpleNamespace()
    m.ncall = int(rng.integers(1, 99))
    m.patch = types.SimpleNamespace(bandlist=bands, patch_reference_coordinates=ref, npix=17,
                                    epaths=["%s/exp%d" % (b, i) for b in bands for i in range(2)])
    m.scene = types.SimpleNamespace(sources=[types.SimpleNamespace(SHAPE_COLS=shapes)])
    return m


@R.prop(n=50, tmax=10)
def result_file(rng):
    bands, shapes, n, it, active, ref, chain = setting(rng)
    cols = bands + shapes
    a0 = active.copy()
    fixed = None if rng.random() < .4 else active[: max(1, n // 2)].copy()
    reg = CircularRegion(float(ref[0]), float(ref[1]), float(rng.uniform(1e-4, 1e-2)))
    r = Result()
    r.chain = chain.copy()
    npar = chain.shape[1]
    step = stats = None
    kind = rng.integers(0, 3)
    lnp = rng.permutation(it).astype(float) * 1.5 - 3
    if kind:
        L = rng.normal(0, 1, (npar, npar))
        cov = L @ L.T
        pot = types.SimpleNamespace(_cov=cov) if kind == 1 else types.SimpleNamespace(_var=np.diag(cov).copy())
        step = types.SimpleNamespace(potential=pot, stats_dtypes=[{"tune": np.bool_, "model_logp": np.float64, "depth": np.int64}])
        tune = rng.random(it) < .3
        stats = [dict(tune=tune[i], model_logp=lnp[i], depth=i + 2) for i in range(it)]
    bounds = None if rng.random() < .5 else np.array(rng.normal(0, 1, (n, 2)))
    pid = int(rng.integers(0, 50))
    m = fake_model(rng, bands, shapes, ref)
    q, bc = r.fill(reg, active, fixed, m, bounds=bounds, patchID=pid, step=step, stats=stats)
    expect(active.tobytes() == a0.tobytes(), "active modified")
    same(r.chain, chain, "chain unchanged")
    for w, v in (("active", active), ("fixed", fixed)):
        expect(hasattr(r, w) and (getattr(r, w) is None if v is None else np.asarray(getattr(r, w)).tobytes() == v.tobytes()),
               f"{w} sources of the result")
    for c in active.dtype.names:
        if c in cols:
            close(q[c], [expected(chain, k, cols, c, ref)[-1] for k in range(n)], 1e-12, 1e-12, f"final {c}")
        else:
            same(q[c], active[c], f"final {c}")
    if kind:
        C = cov if kind == 1 else np.diag(np.diag(cov))
        expect(bc.shape == (n, len(cols), len(cols)), "block shape")
        for k in range(n):
            s = slice(k * len(cols), (k + 1) * len(cols))
            same(bc[k], C[s, s], f"block of source {k}")
        same(r.stats["model_logp"], lnp, "stats")
        same(r.stats["depth"], np.arange(it) + 2, "stats")
        expect(int(r.n_tune) == int(tune.sum()) and int(r.n_sample) == it - int(tune.sum()), "number of tuning samples")
        best = int(np.argmax(lnp))
        close(np.ravel(r.get_map()), chain[best], 0, 0, "best sample")
        sm = r.get_map(structured=True)
        for c in cols:
            close(sm[c], [expected(chain, k, cols, c, ref)[best] for k in range(n)], 1e-12, 1e-12, f"best {c}")
    expect(r.patchID == pid and r.npix == 17 and r.nexp == len(m.patch.epaths), "header")
    # to disk and back
    f = os.path.join(scratch("res"), "sub", "x_samples.h5")
    r.dump_to_h5(f)
    from forcepho.postprocess import Samples
    s = Samples(f)
    same(s.chain, chain, "chain from file")
    expect(list(s.bands) == bands and list(s.shape_cols) == list(shapes), f"names {s.bands} {s.shape_cols}")
    expect(s.active.dtype == active.dtype and s.active.tobytes() == a0.tobytes(), "active from file")
    if fixed is not None:
        expect(s.fixed.tobytes() == fixed.tobytes(), "fixed from file")
    if bounds is not None:
        same(s.bounds, bounds, "bounds from file")
    close(s.reference_coordinates, ref, 0, 0, "reference from file")
    close([s.ra, s.dec, s.radius], [reg.ra, reg.dec, reg.radius], 0, 0, "region from file")
    close([s.region.ra, s.region.dec, s.region.radius], [reg.ra, reg.dec, reg.radius], 0, 0, "region rebuilt")
    expect(s.patchID == pid, "patch id from file")
    for k in range(n):
        for c in cols:
            close(s.chaincat[c][k], expected(chain, k, cols, c, ref), 1e-12, 1e-12, f"file source {k} column {c}")
    same(s.chaincat["source_index"], active["source_index"], "source index from file")
    j = int(rng.integers(0, it))
    smp = s.get_sample_cat(j)
    for c in cols:
        close(smp[c], [expected(chain, k, cols, c, ref)[j] for k in range(n)], 1e-12, 1e-12, f"file sample {j} column {c}")
    # a file without the structured chain is reconstructed from the raw one
    import h5py
    with h5py.File(f, "a") as h:
        if "chaincat" in h:
            del h["chaincat"]
    s = Result(f)
    for c in cols:
        close(s.chaincat[c][n - 1], expected(chain, n - 1, cols, c, ref), 1e-12, 1e-12, f"reconstructed column {c}")


@R.prop(n=60, tmax=4)
def blocks(rng):
    n, nb = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    a = rng.normal(0, 1, (n * nb, n * nb))
    if rng.random() < .3:
        a = np.asfortranarray(a)
    b = extract_block_diag(a, n)
    expect(b.shape == (nb, n, n), "shape")
    for k in range(nb):
        same(b[k], a[k * n:(k + 1) * n, k * n:(k + 1) * n], f"block {k}")
    o = int(rng.integers(-nb + 1, nb)) if nb > 1 else 0       # blocks o places off the diagonal: of sources k and k + o
    b = extract_block_diag(a, n, o)
    expect(b.shape == (nb - abs(o), n, n), "shape (off the diagonal)")
    for k in range(nb - abs(o)):
        i, j = k - min(o, 0), k + max(o, 0)
        same(b[k], a[i * n:(i + 1) * n, j * n:(j + 1) * n], f"block {i},{j}")


# ---- fitting
class Logistic:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def transform(self, z):
        return self.lo + (self.hi - self.lo) / (1 + np.exp(-z))

    def inverse_transform(self, q):
        x = (q - self.lo) / (self.hi - self.lo)
        return np.log(x / (1 - x))


class Gaussian:
    """an independent model with the interface the fitters document"""
    def __init__(self, rng, ndim, bounded):
        self.mu, self.sg = rng.uniform(-.5, .5, ndim), rng.uniform(.3, 1.2, ndim)
        self.lo, self.hi = self.mu - rng.uniform(.8, 2, ndim), self.mu + rng.uniform(.8, 2, ndim)
        self.transform = Logistic(self.lo, self.hi) if bounded else None
        self.ncall, self.ndof, self.peak = 0, float(rng.choice([1., 7., 250.])), float(rng.uniform(-9, 9))

    def lnp(self, z):
        self.ncall += 1
        z = np.asarray(z, float)
        q = self.transform.transform(z) if self.transform else z
        d = (q - self.mu) / self.sg
        v, g = self.peak - 0.5 * np.dot(d, d), -d / self.sg
        if self.transform:
            x = 1 / (1 + np.exp(-z))
            w = self.hi - self.lo
            return v, g * w * x * (1 - x), v + np.sum(np.log(w * x * (1 - x))), g * w * x * (1 - x) + 1 - 2 * x
        return v, g, v, g

    def nll(self, z):
        v = self.lnp(z)
        return -v[0] / self.ndof, -v[1] / self.ndof

    def nll_nograd(self, z):
        return self.nll(z)[0]

    def lnprob_and_grad(self, z):
        return self.lnp(z)[2:]


def gauss_model(rng, ndim, bounded):
    m = Gaussian(rng, ndim, bounded)
    return m, m.mu, m.sg, m.lo, m.hi


@R.prop(n=12, tmax=12)
def optimum(rng):
    ndim, bounded = int(rng.integers(1, 6)), bool(rng.random() < .6)
    m, mu, sg, lo, hi = gauss_model(rng, ndim, bounded)
    q = mu + rng.uniform(-.5, .5, ndim)
    q0 = q.copy()
    jac = bool(rng.random() < .7)
    if rng.random() < .3 and jac:
        from forcepho.fitting import run_opt_bounded
        res, sci = run_opt_bounded(m, q, jac=True, ftol=1e-14, gtol=1e-9 / m.ndof, disp=False, iprint=-1,
                                   **({} if bounded else {"bounds": [(None, None)] * ndim}))
    else:
        res, sci = run_opt(m, q, jac=jac, gtol=1e-7 / m.ndof)
    same(q, q0, "start unchanged")
    same(res.starting_position, q0, "starting position")
    expect(res.chain.shape == (1, ndim), f"chain shape {res.chain.shape}")
    close(res.chain[0], mu, 1e-3, 2e-3, "optimum in the constrained space")
    d = (res.chain[0] - mu) / sg
    close(getattr(res, "lnp", np.nan), m.peak - 0.5 * np.dot(d, d), 1e-5, 1e-6, "reported log-probability")


@R.prop(n=4, tmax=25)
def sampling(rng):
    ndim, bounded = int(rng.integers(1, 4)), bool(rng.random() < .7)
    m, mu, sg, lo, hi = gauss_model(rng, ndim, bounded)
    q = mu + rng.uniform(-.5, .5, ndim)
    nd, nw = int(rng.integers(5, 20)), int(rng.integers(5, 20))
    disc = bool(rng.random() < .5)
    res, step, stats = run_lmc(m, q, n_draws=nd, warmup=[nw], full=bool(rng.random() < .5), discard_tuned_samples=disc,
                               random_seed=int(rng.integers(1, 1000)))
    expect(res.chain.shape == (nd if disc else nd + nw, ndim), f"chain shape {res.chain.shape}")
    if bounded:
        expect(np.all(res.chain >= lo) and np.all(res.chain <= hi), "samples inside of the bounds")
    t = len(res.chain)
    sc = make_statscat(stats, step)
    expect(len(sc) == len(stats), "one statistics row per sample")
    for c in sc.dtype.names:
        same(sc[c], np.array([s[c] for s in stats]).astype(sc[c].dtype), f"statistic {c}")
    for k in range(t):
        z = m.transform.inverse_transform(res.chain[k]) if bounded else res.chain[k]
        if not np.all(np.isfinite(z)) or np.max(np.abs(z)) > 12:
            continue
        d = (res.chain[k] - mu) / sg
        exp = m.peak - 0.5 * np.dot(d, d)
        if bounded:
            x = (res.chain[k] - lo) / (hi - lo)
            exp += np.sum(np.log((hi - lo) * x * (1 - x)))
        got = float(np.ravel(stats[k - t]["model_logp"])[0])
        expect(abs(got - exp) <= 1e-4 * (1 + abs(exp)), f"log-probability of sample {k}: {got} expected {exp}")


@R.prop(n=8, tmax=5)
def nested(rng):
    """a stand-in for dynesty that evaluates the functions it is given at random points of the unit cube"""
    import types
    from forcepho.fitting import run_dynesty
    ndim = int(rng.integers(1, 5))
    lo = rng.normal(0, 3, ndim)
    hi = lo + rng.uniform(.1, 4, ndim)
    w = rng.normal(0, 1, ndim)
    model = types.SimpleNamespace(lnprob=lambda z: float(-np.sum((w * np.asarray(z)) ** 2)), ncall=3, transform=None)
    sub = np.random.default_rng(int(rng.integers(1 << 30)))

    class Sampler:
        def __init__(self, loglike, prior_transform, ndim, **kw):
            self.f, self.t, self.n = loglike, prior_transform, ndim

        def run_nested(self, **kw):
            u = sub.uniform(0, 1, (11, self.n))
            x = np.array([self.t(a) for a in u])
            l = np.array([self.f(a) for a in x])
            self.u = u
            self.results = {"samples": x, "logl": l, "logwt": l, "logz": l}
            got.append(self)
    got = []
    old = sys.modules.get("dynesty")
    sys.modules["dynesty"] = types.SimpleNamespace(DynamicNestedSampler=Sampler, NestedSampler=Sampler)
    try:
        res = run_dynesty(model, .5 * (lo + hi), lower=lo.copy(), upper=hi.copy(), nlive=10)[0]
    finally:
        if old is None:
            del sys.modules["dynesty"]
        else:
            sys.modules["dynesty"] = old
    s = got[0]
    expect(np.shape(res.chain) == (11, ndim), f"chain shape {np.shape(res.chain)}")
    close(res.chain, lo + (hi - lo) * s.u, 1e-12, 1e-12, "samples between the limits")
    close(res.lnp, [model.lnprob(x) for x in res.chain], 1e-12, 1e-12, "log-probability of each sample")


# ---- catalogs over a run
@R.prop(n=12, tmax=10)
def run_catalog(rng):
    from forcepho import postprocess as pp
    from astropy.io import fits
    root = scratch("root")
    os.makedirs(os.path.join(root, "patches"))
    nb = int(rng.integers(1, 3))
    bands = [str(b) for b in rng.permutation(POOL)[:nb]]
    cols = bands + SH
    ntot = int(rng.integers(3, 9))
    dt = np.dtype([("id", np.int32), ("source_index", np.int32), ("n_iter", np.int32)] + [(c, float) for c in cols])
    full = np.zeros(ntot, dtype=dt)
    full["id"] = rng.permutation(500)[:ntot]
    full["source_index"] = np.arange(ntot)
    for c in cols:
        full[c] = rng.uniform(1, 5, ntot)
    ref = np.array([150.1, 2.2])
    order = rng.permutation(ntot)
    npatch = int(rng.integers(1, 3))
    parts = np.array_split(order, npatch)
    ns = int(rng.integers(3, 6))
    truth, prec, walls = {}, {}, {}
    pids = [int(x) for x in rng.permutation(20)[:npatch]]
    nt = int(rng.integers(0, 3))
    lnps = {}
    for p, idx in zip(pids, parts):
        r = Result()
        act = full[idx].copy()
        r.chain = rng.normal(0, 1, (ns + nt, len(idx) * len(cols)))
        lnp = rng.normal(0, 1, ns + nt)
        step = types.SimpleNamespace(potential=types.SimpleNamespace(_cov=np.eye(len(idx) * len(cols))),
                                     stats_dtypes=[{"tune": np.bool_, "model_logp": np.float64}])
        stats = [dict(tune=i < nt, model_logp=lnp[i]) for i in range(ns + nt)]
        L = rng.normal(0, 1, (nb, len(idx), len(idx)))
        r.precisions = np.array([a @ a.T + np.eye(len(idx)) for a in L])
        r.wall_time = float(rng.uniform(1, 9))
        r.fill(CircularRegion(150.1, 2.2, 0.01), act, None, fake_model(rng, bands, SH, ref), step=step, stats=stats, patchID=p)
        r.dump_to_h5(os.path.join(root, "patches", f"patch{p}_samples.h5"))
        for k, s in enumerate(idx):
            truth[s] = (p, {c: expected(r.chain, k, cols, c, ref)[-ns:] for c in cols}, lnp[-ns:], float(np.float32(r.wall_time)))
            for j, b in enumerate(bands):
                v = np.sqrt(np.linalg.inv(r.precisions[j])[k, k])
                prec[s, b] = max(v, truth[s][1][b][-1] / 1000)
    json.dump({"scene_catalog": "superscene.fits", "bandlist": bands}, open(os.path.join(root, "config.json"), "w"))
    json.dump({"sourcelog": {}, "patchlog": pids}, open(os.path.join(root, "superscene_log.json"), "w"))
    fits.BinTableHDU(full).writeto(os.path.join(root, "superscene.fits"))
    cfg, plog, slog, final = pp.run_metadata(root)
    expect(plog == pids and cfg["bandlist"] == bands, "run metadata")
    for c in full.dtype.names:
        same(np.asarray(final[c]), full[c], f"final catalog {c}")
    cat = pp.postsample_catalog(root, catname=None)
    expect(len(cat) == ntot, "one row per source")
    for s in range(ntot):
        p, cc, lp, wall = truth[s]
        expect(int(cat["patch_id"][s]) == p and int(cat["source_index"][s]) == s and int(cat["id"][s]) == full["id"][s], f"identity of source {s}")
        close(cat["wall"][s], wall, 1e-6, 0, "wall time")
        close(cat["lnp"][s], lp, 1e-12, 1e-12, f"log-probability of source {s}")
        for c in cols:
            close(cat[c][s], cc[c], 1e-12, 1e-12, f"source {s} column {c}")
    unc = pp.flux_unc_linear(root)
    for s in range(ntot):
        for b in bands:
            close(unc[b][s], prec[s, b], 1e-6, 1e-9, f"flux uncertainty of source {s} band {b}")
    same(np.asarray(unc["id"]), full["id"], "ids of the uncertainties")


@R.prop(n=10, tmax=8)
def repeated_sources(rng):
    """sources that were in several patches: the chains collected for a source are its own, in any order of the patches; the
    catalog made after optimising holds the final parameters and their uncertainties"""
    from forcepho import postprocess as pp
    from astropy.io import fits
    root = scratch("root")
    os.makedirs(os.path.join(root, "patches"))
    nb = int(rng.integers(1, 3))
    bands = [str(b) for b in rng.permutation(POOL)[:nb]]
    cols = bands + SH
    ntot, npatch, ns = int(rng.integers(3, 7)), int(rng.integers(2, 5)), int(rng.integers(2, 5))
    dt = np.dtype([("id", np.int32), ("source_index", np.int32), ("n_iter", np.int32), ("n_patch", np.int32)] + [(c, float) for c in cols])
    full = np.zeros(ntot, dtype=dt)
    full["id"] = rng.permutation(500)[:ntot]
    full["source_index"] = np.arange(ntot)
    full["n_iter"], full["n_patch"] = rng.integers(1, 9, ntot), rng.integers(1, 9, ntot)
    for c in cols:
        full[c] = rng.uniform(1, 5, ntot)
    ref = np.array([150.1, 2.2])
    plog = [int(x) for x in rng.permutation(npatch)]
    slog, truth, sig = {}, {}, {}
    for p in plog:
        idx = rng.permutation(ntot)[: int(rng.integers(1, ntot + 1))]
        r = Result()
        r.chain = rng.normal(0, 1, (ns, len(idx) * len(cols)))
        step = types.SimpleNamespace(potential=types.SimpleNamespace(_cov=np.eye(len(idx) * len(cols))),
                                     stats_dtypes=[{"tune": np.bool_, "model_logp": np.float64}])
        stats = [dict(tune=False, model_logp=0.) for i in range(ns)]
        r.precisions = np.array([np.diag(rng.uniform(1, 4, len(idx))) for b in bands])
        r.wall_time = 1.
        r.config = json.dumps({"raw_catalog": os.path.join(root, "in.fits")})
        r.fill(CircularRegion(150.1, 2.2, 0.01), full[idx].copy(), None, fake_model(rng, bands, SH, ref), step=step, stats=stats, patchID=p)
        r.dump_to_h5(os.path.join(root, "patches", f"patch{p}_samples.h5"))
        for k, i in enumerate(idx):
            slog.setdefault(int(i), []).append(p)
            truth[int(i), p] = {c: expected(r.chain, k, cols, c, ref) for c in cols}
            for j, b in enumerate(bands):
                sig[int(i), b] = max(1 / np.sqrt(r.precisions[j][k, k]), truth[int(i), p][b][-1] / 1000)
    json.dump({"scene_catalog": "superscene.fits", "bandlist": bands}, open(os.path.join(root, "config.json"), "w"))
    json.dump({"sourcelog": slog, "patchlog": plog}, open(os.path.join(root, "superscene_log.json"), "w"))
    fits.BinTableHDU(full).writeto(os.path.join(root, "superscene.fits"))
    try:
        sources, patches, chains = pp.find_multipatch(root)
    except (ValueError, IndexError, KeyError) as e:
        raise_fail(f"find_multipatch: {type(e).__name__}: {e} for patches {plog}, sources {slog}", "find_multipatch")
    expect([int(x) for x in sources] == [i for i in slog if len(slog[i]) > 1], f"sources in several patches {sources}")
    for i, pp_, ch in zip(sources, patches, chains):
        i = int(i)
        expect([int(x) for x in pp_] == slog[i], f"patches of source {i}")
        expect(len(ch) == len(slog[i]), f"one chain per patch for source {i}")
        for k, p in enumerate(slog[i]):
            expect(int(ch["source_index"][k]) == i, f"chain {k} of source {i} is that of source {ch['source_index'][k]}")
            for c in cols:
                close(ch[c][k], truth[i, p][c], 1e-12, 1e-12, f"chain of source {i} from patch {p}, {c}")
    out = os.path.join(scratch("out"), "post.fits")
    pp.postop_catalog(root, bands=bands, catname=out)
    h = fits.open(out)
    for c in full.dtype.names:
        same(np.asarray(h[1].data[c]), full[c] * 0 if c in ("n_iter", "n_patch") else full[c], f"catalog after optimising: {c}")
    expect(h[0].header["FILTERS"] == ",".join(bands), "bands in the header")
    expect(len(h) == 3, "uncertainties extension")
    for i in slog:
        for b in bands:
            close(h[2].data[b][i], sig[i, b], 1e-6, 1e-9, f"uncertainty of source {i} in {b}")
    same(np.asarray(h[2].data["id"]), full["id"], "ids of the uncertainties")
    h.close()
    post = os.path.join(scratch("o2"), "s.fits")
    cat = pp.postsample_catalog(root, catname=post)
    back = fits.getdata(post)
    for c in cat.dtype.names:
        same(np.asarray(back[c]).reshape(cat[c].shape), cat[c], f"written sample catalog: {c}")
    expect(fits.getheader(post)["FILTERS"] == ",".join(bands), "bands of the sample catalog")


@R.prop(n=60, tmax=5)
def summaries(rng):
    n, it = int(rng.integers(1, 6)), int(rng.integers(4, 12))
    bands = [str(b) for b in rng.permutation(POOL)[:2]]
    dt = np.dtype([("id", "U30"), ("source_index", np.int32)] + [(c, float, (it,)) for c in bands + ["ra", "dec", "q"]])
    cat = np.zeros(n, dtype=dt)
    cat["id"] = [str(x) for x in rng.permutation(90)[:n]]
    cat["source_index"] = rng.permutation(90)[:n]
    for c in bands + ["ra", "dec", "q"]:
        cat[c] = rng.normal(0, 1, (n, it))
    c0 = cat.copy()
    pct = [float(x) for x in rng.permutation([5, 16, 50, 84, 97])[: int(rng.integers(2, 5))]]
    e, hdr = pctile_cat(cat, percentiles=pct)
    expect(cat.tobytes() == c0.tobytes(), "samples unchanged")
    same(e["id"], cat["id"], "ids"); same(e["source_index"], cat["source_index"], "indices")
    for c in bands + ["ra", "dec", "q"]:
        for k in range(n):
            close(e[c][k], [np.percentile(cat[c][k], p) for p in pct], 1e-10, 1e-12, f"percentiles of {c}")
    # the same from a file, and files appended to each other
    from astropy.io import fits
    from forcepho.utils.catalog import append_catalogs, write_table
    d = scratch("cat")
    f = os.path.join(d, "s.fits")
    tab = fits.BinTableHDU(cat)
    tab.header["FILTERS"] = ",".join(bands)
    tab.writeto(f)
    fits.setval(f, "FILTERS", value=",".join(bands), ext=0)
    e2, hdr = pctile_cat(f, percentiles=pct)
    for c in bands + ["ra", "dec", "q"]:
        close(e2[c], e[c], 1e-10, 1e-12, f"percentiles of {c} from a file")
    expect([x.decode() if isinstance(x, bytes) else str(x) for x in e2["id"]] == [str(x) for x in cat["id"]], "ids from a file")
    ext = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]
    best = np.zeros(n, dtype=[("id", "U30"), ("q", float)])
    best["id"], best["q"] = cat["id"], cat["q"][:, 0]
    cut = sorted(int(x) for x in rng.integers(1, n + 1, 1)) if n > 1 else [n]
    pieces = [slice(0, cut[0])] + ([slice(cut[0], n)] if cut[0] < n else [])
    named, files = bool(rng.random() < .7), []
    for k, w in enumerate(pieces):
        files.append(os.path.join(d, f"in{k}.fits"))
        write_table(files[-1], [best[w], cat[w], best[w], e[w]], extnames=ext if named else [], FILTERS=",".join(bands))
    out = os.path.join(d, "all.fits")
    append_catalogs(files, out)
    with fits.open(out) as h:
        for x, ref in zip(ext, (best, cat, best, e)):
            t = h[x].data
            expect(t is not None and len(t) == n, f"rows of the {x} table")
            expect([str(y) for y in t["id"]] == [str(y) for y in ref["id"]], f"ids of the {x} table")
            for c in ref.dtype.names:
                if c != "id":
                    close(np.asarray(t[c], float), ref[c], 1e-12, 1e-12, f"{c} of the {x} table")
        expect(h["SAMPLES"].header["FILTERS"] == ",".join(bands), "header")
    # combinations of members
    groups = {}
    for g in range(int(rng.integers(1, 3))):
        m = int(rng.integers(1, n + 1))
        groups[g + 1] = [str(x) for x in rng.permutation(cat["id"])[:m]]
    o, h = combine_chains(cat, bands, groups)
    ids = cat["id"].tolist()
    for i, (g, sub) in enumerate(groups.items()):
        ii = [ids.index(s) for s in sub]
        for b in bands:
            close(o[b][i], sum(cat[b][j] for j in ii), 1e-10, 1e-10, f"combined flux {b}")
        for c in ("ra", "dec"):
            close(o[c][i], sum(cat[c][j] for j in ii) / len(ii), 1e-10, 1e-10, f"combined {c}")


R.main()
