"""P08 runtime contracts: parameter vectors, proposals and catalogs of a scene."""
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from forcepho.sources import Galaxy, SimpleGalaxy, Star, ConformalShearGalaxy, Scene
R = Run()
_d = scratch("p08")
SPL = os.path.join(_d, "spl.h5")


class W:
    pass


WORLD = W()
WORLD.spl = fix.make_spline(SPL, np.random.default_rng(7), 4)
COLS = {"star": ["ra", "dec"], "simple": ["ra", "dec", "q", "pa"], "galaxy": ["ra", "dec", "q", "pa", "sersic", "rhalf"],
        "fixed_sersic": ["ra", "dec", "q", "pa"], "shear": ["ra", "dec", "ep", "ec", "sersic", "rhalf"]}
CLS = {"star": Star, "simple": SimpleGalaxy, "galaxy": Galaxy, "fixed_sersic": Galaxy, "shear": ConformalShearGalaxy}


def kw(kind):
    k = {}
    if kind in ("galaxy", "fixed_sersic", "shear"):
        k["splinedata"] = SPL
    if kind == "fixed_sersic":
        k["free_sersic"] = False
    return k


def make(kind, bands):
    return CLS[kind](filternames=list(bands), **kw(kind))


def vec(rng, kind, nb):
    d = dict(ra=rng.uniform(0, 360), dec=rng.uniform(-89, 89), q=rng.uniform(.2, 1), pa=rng.uniform(-2, 2),
             sersic=rng.uniform(.6, 5.4), rhalf=rng.uniform(.03, .5), ep=rng.normal(), ec=rng.normal())
    return np.concatenate([rng.normal(size=nb) * 10, [d[c] for c in COLS[kind]]])


@R.prop(n=200)
def single(rng):
    """set then get; one filter touches only its own flux"""
    kind = list(COLS)[int(rng.integers(5))]
    bands = fix.bandnames(rng, int(rng.integers(1, 6)))
    s = make(kind, bands)
    nb = len(bands)
    expect(s.n_bands == nb and s.n_params == nb + len(COLS[kind]), "number of parameters")
    v = vec(rng, kind, nb)
    v0 = v.copy()
    s.set_params(v)
    same(v, v0, "argument modified")
    same(s.get_param_vector(), v0, f"{kind} get after set")
    v[:] = 0
    same(s.get_param_vector(), v0, "source aliases the caller's array")
    same(s.flux, v0[:nb], "fluxes")
    for c, x in zip(COLS[kind], v0[nb:]):
        expect(getattr(s, c) == x, f"{kind}.{c} = {getattr(s, c)} expected {x}")
    j = int(rng.integers(nb))
    w = vec(rng, kind, 1)
    s.set_params(w, filtername=bands[j])
    e = np.concatenate([v0[:nb], w[1:]])
    e[j] = w[0]
    same(s.get_param_vector(), e, "set_params of one filter")
    same(s.get_param_vector(filtername=bands[j]), w, "get_param_vector of one filter")
    k = int(rng.integers(nb))
    same(s.get_param_vector(bands[k]), np.concatenate([[e[k]], w[1:]]), "another filter")
    for bad in (v0[:-1], np.append(v0, 0.)):
        try:
            s.set_params(bad)
        except AssertionError:
            pass
        else:
            raise_fail("vector of wrong length accepted")
        same(s.get_param_vector(), e, "rejected vector changed the source")
    out = s.get_param_vector()
    out[:] = -1
    same(s.get_param_vector(), e, "returned vector aliases the source")


def names_unique(s):
    return len(set(s)) == len(s)


@R.prop(n=150, tmax=20)
def scene(rng):
    """the scene vector is the concatenation of the active sources in order"""
    bands = fix.bandnames(rng, int(rng.integers(1, 5)))
    nb = len(bands)
    kinds = [list(COLS)[int(rng.integers(5))] for _ in range(int(rng.integers(1, 6)))]
    srcs = [make(k, bands) for k in kinds]
    fixed = rng.random(len(srcs)) < .3
    if fixed.all():
        fixed[int(rng.integers(len(srcs)))] = False
    for s, f in zip(srcs, fixed):
        if f:
            s.fixed = True
    vs = [vec(rng, k, nb) for k in kinds]
    for s, v in zip(srcs, vs):
        s.set_params(v)
    sc = Scene(srcs)
    expect(len(sc) == len(srcs), "length")
    same([s.id for s in sc.sources], np.arange(len(srcs)), "ids")
    expect(sc.n_active == int((~fixed).sum()) and sc.n_fixed == int(fixed.sum()), "counts")
    act = [i for i in range(len(srcs)) if not fixed[i]]
    same(sc.get_all_source_params(), np.concatenate([vs[i] for i in act]), "active parameters")
    same(sc.get_all_source_params(active=False), np.concatenate(vs), "all parameters")
    ns = [vec(rng, kinds[i], nb) for i in act]
    th = np.concatenate(ns)
    th0 = th.copy()
    sc.set_all_source_params(th)
    same(th, th0, "Theta modified")
    same(sc.get_all_source_params(), th0, "get after set")
    for i in range(len(srcs)):
        same(srcs[i].get_param_vector(), ns[act.index(i)] if i in act else vs[i], f"source {i} ({'fixed' if fixed[i] else 'active'})")
    # where each parameter lives in the vector
    for i in act:
        j = int(rng.integers(nb))
        inds = list(sc.param_indices(i, bands[j]))
        same(th0[inds], srcs[i].get_param_vector(bands[j]), "param_indices of one band")
        same(th0[list(sc.param_indices(i))], srcs[i].get_param_vector(), "param_indices of all bands")
    nm = list(sc.parameter_names)
    expect(len(nm) == sum(s.n_params for s in srcs) and names_unique(nm), f"parameter names {nm}")
    o = 0
    for i, s in enumerate(srcs):
        for k, b in enumerate(bands):
            expect(str(nm[o + k]) == f"{b}_{i}", f"name of flux {k} of source {i}: {nm[o + k]}")
        o += s.n_params


@R.prop(n=60, tmax=20)
def proposal(rng):
    """what is sent to the device is what the sources hold, amplitudes included"""
    bands = fix.bandnames(rng, int(rng.integers(1, 6)))
    nb = len(bands)
    n = int(rng.integers(1, 5))
    srcs = [make("galaxy", bands) for _ in range(n)]
    fixed = rng.random(n) < .3
    if fixed.all():
        fixed[0] = False
    vs = [vec(rng, "galaxy", nb) for _ in range(n)]
    if rng.random() < .15:
        vs[0][nb + 4] = .3      # below the range of the splines
    for s, v, f in zip(srcs, vs, fixed):
        s.set_params(v)
        s.fixed = bool(f)
    sc = Scene(srcs)
    p = sc.get_proposal()
    act = [i for i in range(n) if not fixed[i]]
    expect(len(p) == len(act), "one row per active source")

    def chk(row, v):
        f = lambda a: np.asarray(a, dtype=float)
        close(row["fluxes"][:nb], v[:nb], rtol=2e-7, what="fluxes")
        for k, c in enumerate(["ra", "dec", "q", "pa", "nsersic", "rh"]):
            tol = 1e-12 if row[c].dtype.itemsize == 8 else 2e-7
            close([row[c]], [v[nb + k]], rtol=tol, what=c)
        if v[nb + 4] >= WORLD.spl[0].min():
            a, dn, dr = (fix.amplitudes(WORLD, v[nb + 4], v[nb + 5], d) for d in (None, "n", "r"))
        else:
            a = np.zeros(4)
            a[np.argmin(np.abs(v[nb + 5] - WORLD.spl[3]))] = 1
            dn = dr = np.zeros(4)
        close(row["mixture_amplitudes"][:4], a, rtol=1e-5, atol=1e-6, what="amplitudes")
        close(row["damplitude_dnsersic"][:4], dn, rtol=1e-5, atol=1e-5, what="d amplitude / d sersic")
        close(row["damplitude_drh"][:4], dr, rtol=1e-5, atol=1e-5, what="d amplitude / d rhalf")
    for row, i in zip(p, act):
        chk(row, vs[i])
    if fixed.any():
        pf = sc.get_proposal(active=False)
        fx = [i for i in range(n) if fixed[i]]
        expect(len(pf) == len(fx), "one row per fixed source")
        for row, i in zip(pf, fx):
            chk(row, vs[i])
    # a proposal already made does not change when the scene moves on
    keep = p.tobytes()
    sc.set_all_source_params(np.concatenate([vec(rng, "galaxy", nb) for _ in act]))
    sc.get_proposal()
    expect(p.tobytes() == keep, "an earlier proposal changed with the scene")


@R.prop(n=100, tmax=20)
def catalogs(rng):
    """scene -> catalog -> scene keeps every parameter; columns are matched by name"""
    kind = ["star", "simple", "galaxy", "shear"][int(rng.integers(4))]
    bands = fix.bandnames(rng, int(rng.integers(1, 5)))
    nb, n = len(bands), int(rng.integers(1, 6))
    vs = np.array([vec(rng, kind, nb) for _ in range(n)])
    srcs = [make(kind, bands) for _ in range(n)]
    for s, v in zip(srcs, vs):
        s.set_params(v)
    cat = Scene(srcs).to_catalog()
    expect(len(cat) == n, "one row per source")
    same(cat["id"], np.arange(n), "id column")
    for k, c in enumerate(list(bands) + COLS[kind]):
        close(cat[c], vs[:, k], rtol=1e-12, what=f"column {c}")
    order = list(rng.permutation(cat.dtype.names))
    cat2 = np.zeros(n, dtype=[(str(c), "f8") for c in order] + [("extra", "f8")])
    for c in cat.dtype.names:
        cat2[c] = cat[c]
    cat2["extra"] = rng.normal(size=n)
    perm = list(rng.permutation(nb))
    nbands = [bands[i] for i in perm]
    sc = Scene(catalog=cat2, source_type=CLS[kind], filternames=nbands, **kw(kind))
    want = np.concatenate([vs[:, :nb][:, perm], vs[:, nb:]], axis=1)
    close(sc.get_all_source_params(), want.reshape(-1), rtol=1e-12, what="scene from catalog")
    if kind == "shear":
        return
    sc2 = Scene(catalog=cat2, source_type=CLS[kind], filternames=nbands, extra_parameters=["extra"], **kw(kind))
    same([s.extra for s in sc2.sources], cat2["extra"], "extra parameters")
    same(sc2.to_catalog(extra_cols=["extra"])["extra"], cat2["extra"], "extra columns")


@R.prop(n=100)
def shear(rng):
    """axis ratio and angle of a sheared galaxy, and the Jacobian between the two descriptions"""
    s = make("shear", ["A"])
    v = vec(rng, "shear", 1)
    s.set_params(v)
    ep, ec = v[3], v[4]
    q = lambda a, b: np.exp(-np.hypot(a, b) / 2)
    pa = lambda a, b: np.arctan2(b, a) / 2
    close([s.q, s.pa], [q(ep, ec), pa(ep, ec)], rtol=1e-10, what="q, pa")
    close(s.etas_from_qphi(s.q, s.pa), [ep, ec], rtol=1e-8, atol=1e-9, what="inverse")
    h = 1e-4 * np.hypot(ep, ec)
    if abs(abs(pa(ep, ec)) - np.pi / 2) < 1e-2 or np.hypot(ep, ec) < 1e-2:
        raise Skip
    J = np.array([[(q(ep + h, ec) - q(ep - h, ec)) / 2 / h, (pa(ep + h, ec) - pa(ep - h, ec)) / 2 / h],
                  [(q(ep, ec + h) - q(ep, ec - h)) / 2 / h, (pa(ep, ec + h) - pa(ep, ec - h)) / 2 / h]])
    close(s.ds_deta, J, rtol=1e-5, atol=1e-6, what="d(q, pa)/d(eta)")


@R.prop(n=40)
def mixture(rng):
    """amplitudes are the tabulated splines of (sersic, half-light radius); sizes are the tabulated radii"""
    s = make("galaxy", ["A"])
    s.sersic = rng.uniform(.6, 5.4)
    # inside the tabulated radii, between zero and the smallest of them, the end points themselves, beyond the largest
    lo, hi = s.rh_range
    s.rhalf = [rng.uniform(.03, .5), rng.uniform(0, lo), lo, hi, rng.uniform(hi, 1.5 * hi), 0.][rng.integers(6)]
    close(s.amplitudes, fix.amplitudes(WORLD, s.sersic, s.rhalf), rtol=1e-9, atol=1e-10, what="amplitudes")
    close(s.damplitude_dsersic, fix.amplitudes(WORLD, s.sersic, s.rhalf, "n"), rtol=1e-9, atol=1e-10, what="d/dn")
    close(s.damplitude_drh, fix.amplitudes(WORLD, s.sersic, s.rhalf, "r"), rtol=1e-9, atol=1e-10, what="d/dr")
    close(s.covariances, WORLD.spl[3][:, None, None] ** 2 * np.eye(2), what="covariances")
    expect(s.n_gauss == 4, "components")
    r = rng.uniform(0, 1, 5)
    sig = np.hypot(WORLD.spl[3], 2.5e-3)
    prof = (s.amplitudes * np.exp(-.5 * (r[:, None] / sig) ** 2) / (2 * np.pi * sig ** 2)).sum(1)
    s.flux[0] = 3.
    close(s.profile(r), prof, rtol=1e-8, what="profile")
    close(s.profile(r, band="A"), 3 * prof, rtol=1e-8, what="profile in band")


R.main()
