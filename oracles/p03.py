"""P03 runtime contracts: the slow python model image, its Jacobian and likelihood."""
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from forcepho.sources import Galaxy, SimpleGalaxy, Star, ConformalShearGalaxy, Scene
from forcepho.slow.stamp import PostageStamp
from forcepho.slow.psf import PointSpreadFunction, get_psf, make_psf
from forcepho.slow.likelihood import WorkPlan, FastWorkPlan, lnlike_multi, negative_lnlike_multi, make_image
R = Run()
_d = scratch("p03")


class W:
    pass


WORLD = W()
WORLD.spl = fix.make_spline(os.path.join(_d, "spl.h5"), np.random.default_rng(5), 4)
SPL = os.path.join(_d, "spl.h5")


def psf_of(rng, units="pixels"):
    n = int(rng.integers(1, 5))
    p = PointSpreadFunction()
    p.n_gauss = n
    L = np.tril(rng.uniform(0.3, 1.0, (n, 2, 2)))
    L[:, 1, 0] *= rng.choice([-1, 1], n)
    L[:, 0, 0] += 0.5
    L[:, 1, 1] += 0.5
    p.covariances = L @ L.transpose(0, 2, 1)
    p.means = rng.normal(0, 0.5, (n, 2))
    p.amplitudes = rng.uniform(0.1, 1, n)
    if units == "arcsec":
        p.covariances *= 0.06 ** 2
        p.means *= 0.06
    p.units = units
    return p


def stamp_of(rng, band, units="pixels"):
    s = PostageStamp(int(rng.integers(3, 12)), int(rng.integers(3, 12)), filtername=band)
    th = rng.uniform(-np.pi, np.pi)
    dec = rng.uniform(-70, 70)
    sc = rng.uniform(10, 30)
    s.scale = fix.rot(th) @ np.diag([rng.choice([-1, 1]) * sc, sc * rng.uniform(.9, 1.1)])
    s.dpix_dsky = s.scale @ np.diag([np.cos(np.deg2rad(dec)), 1.]) * 3600
    s.crval = np.array([rng.uniform(0, 360), dec])
    s.crpix = np.array([s.nx / 2, s.ny / 2]) + rng.normal(0, 1, 2)
    s.photocounts = float(rng.uniform(0.2, 5))
    s.psf = psf_of(rng, units)
    s.pixel_values = rng.normal(0, 1, (s.nx, s.ny))
    s.ierr = rng.uniform(0, 2, s.nx * s.ny)
    s.ierr[rng.random(s.ierr.size) < 0.1] = 0
    return s


def source_of(rng, kind, bands, stamp):
    sky = stamp.crval + np.linalg.solve(stamp.dpix_dsky, rng.uniform(-3, 3, 2))
    fl = rng.uniform(1, 10, len(bands)) * rng.choice([1, 1, 1, -1], len(bands))
    if kind == "star":
        s, shp = Star(filternames=list(bands)), []
    elif kind == "simple":
        s, shp = SimpleGalaxy(filternames=list(bands), radii=rng.uniform(0.02, 0.2, int(rng.integers(1, 4)))), \
            [rng.uniform(.3, 1), rng.uniform(-3, 3)]
    elif kind == "galaxy":
        s, shp = Galaxy(filternames=list(bands), splinedata=SPL), \
            [rng.uniform(.3, 1), rng.uniform(-3, 3), rng.uniform(.8, 5), rng.uniform(.03, .4)]
    elif kind == "fixed_sersic":
        s = Galaxy(filternames=list(bands), splinedata=SPL, free_sersic=False)
        s.sersic, s.rhalf = rng.uniform(.8, 5), rng.uniform(.03, .4)
        shp = [rng.uniform(.3, 1), rng.uniform(-3, 3)]
    else:
        s, shp = ConformalShearGalaxy(filternames=list(bands), splinedata=SPL), \
            [rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(.8, 5), rng.uniform(.03, .4)]
    s.set_params(np.concatenate([fl, sky, shp]))
    return s


def ref_image(kind, vec, stamp, src, radii, iband, second_order=True):
    """vec = flux, ra, dec, shape... of one band; written from the documentation"""
    flux, sky, shp = vec[0], vec[1:3], vec[3:]
    if kind == "star":
        amps, rad, q, pa = np.ones(1), np.zeros(1), 1., 0.
    elif kind == "simple":
        amps, rad, (q, pa) = np.ones(len(radii)) / len(radii), radii, shp
    else:
        if kind == "shear":
            q, pa = np.exp(-np.hypot(shp[0], shp[1]) / 2), np.arctan2(shp[1], shp[0]) / 2
        else:
            q, pa = shp[:2]
        n, r = shp[2:] if len(shp) > 2 else (src.sersic, src.rhalf)
        amps, rad = fix.amplitudes(WORLD, n, r), WORLD.spl[3]
    T = stamp.scale @ fix.rot(pa) @ np.diag([1 / q, q])
    p = stamp.psf
    pc, pm = p.covariances, p.means
    if p.units == "arcsec":
        pc = np.array([stamp.scale @ c @ stamp.scale.T for c in pc])
        pm = np.array([stamp.scale @ m for m in pm])
    cen = stamp.dpix_dsky @ (sky - stamp.crval) + stamp.crpix
    x, y = np.arange(stamp.nx)[:, None] * np.ones(stamp.ny), np.arange(stamp.ny)[None, :] * np.ones((stamp.nx, 1))
    im = np.zeros((stamp.nx, stamp.ny))
    for a, s in zip(amps, rad):
        for b in range(p.n_gauss):
            F = np.linalg.inv(s ** 2 * T @ T.T + pc[b])
            dx, dy = x - cen[0] - pm[b][0], y - cen[1] - pm[b][1]
            vx, vy = F[0, 0] * dx + F[0, 1] * dy, F[0, 1] * dx + F[1, 1] * dy
            H = 1 + (vx ** 2 + vy ** 2 - F[0, 0] - F[1, 1]) / 24. if second_order else 1.
            im += flux * stamp.photocounts * a * p.amplitudes[b] * np.sqrt(np.linalg.det(F)) / 2 / np.pi * \
                np.exp(-.5 * (dx * vx + dy * vy)) * H
    return im.reshape(-1)


def ref_grad(f, vec, stamp):
    out = []
    deg = 1e-2 / np.sqrt(abs(np.linalg.det(stamp.dpix_dsky)))
    for k in range(len(vec)):
        h = [1e-2, deg, deg, 1e-3, 1e-3, 1e-4, 1e-4][k]
        g = lambda t: f(np.array([v + (t * h if i == k else 0) for i, v in enumerate(vec)]))
        out.append((45 * (g(1) - g(-1)) - 9 * (g(2) - g(-2)) + (g(3) - g(-3))) / (60 * h))
    return np.array(out)


KINDS = ["star", "simple", "galaxy", "fixed_sersic", "shear"]


def radii_of(s):
    return np.array(s.radii)


def gradtol(g):
    return 2e-5 * np.abs(g).max(axis=-1, keepdims=True) + 1e-12


@R.prop(n=120, tmax=25)
def render(rng):
    """image of one source and its derivatives with respect to its parameters"""
    kind = KINDS[int(rng.integers(5))]
    bands = fix.bandnames(rng, int(rng.integers(1, 4)))
    b = bands[int(rng.integers(len(bands)))]
    st = stamp_of(rng, b, "arcsec" if rng.random() < .3 else "pixels")
    s = source_of(rng, kind, bands, st)
    so = bool(rng.random() < .8)
    vec = s.get_param_vector(b)
    f = lambda v: ref_image(kind, v, st, s, radii_of(s), bands.index(b), so)
    p0 = s.get_param_vector().copy()
    use = s if rng.random() < .5 else None
    im, g = s.render(st, second_order=so) if use is not None else st.render(s, second_order=so)
    ref = f(vec)
    close(im, ref, rtol=1e-8, atol=1e-11 * np.abs(ref).max(), what=f"{kind} image")
    rg = ref_grad(f, vec, st)
    expect(g.shape == rg.shape, f"gradient shape {g.shape} expected {rg.shape}")
    bad = np.abs(g - rg) > gradtol(rg)
    expect(not bad.any(), f"{kind} d image / d parameter {np.argwhere(bad)[:3]}: {g[bad][:3]} expected {rg[bad][:3]}")
    im2, g2 = s.render(st, compute_deriv=False, second_order=so)
    same(im, im2, "image without derivatives")
    expect(g2 is None, "no gradients requested")
    same(s.get_param_vector(), p0, "source modified")


@R.prop(n=20, tmax=10)
def zero_amplitudes(rng):
    """sources of zero flux and mixtures with vanishing components have finite, exact gradients"""
    st = stamp_of(rng, "A")
    s = source_of(rng, "galaxy", ["A"], st)
    if rng.random() < .5:
        s.flux[0] = 0.
    else:
        s.sersic = 0.1           # below the spline range: one single component
    im, g = s.render(st)
    expect(np.all(np.isfinite(im)) and np.all(np.isfinite(g)), "gradient not finite")
    t = s.flux[0]
    s.flux[0] = t + 1.
    im2, _ = s.render(st)
    close(g[0], im2 - im, rtol=1e-6, atol=1e-9 * np.abs(im2).max(), what="d image / d flux")


@R.prop(n=60, tmax=20)
def likelihood(rng):
    """ln-likelihood of several stamps and gradient with respect to the whole parameter vector"""
    bands = fix.bandnames(rng, int(rng.integers(1, 3)))
    st0 = stamp_of(rng, bands[0])
    stamps = [st0]
    for k in range(int(rng.integers(0, 3))):
        t = stamp_of(rng, bands[int(rng.integers(len(bands)))])
        t.crval = st0.crval + rng.normal(0, 0.05 / 3600, 2)
        stamps.append(t)
    kinds = [["star", "simple", "galaxy", "fixed_sersic"][int(rng.integers(4))] for _ in range(int(rng.integers(1, 4)))]
    srcs = [source_of(rng, k, bands, st0) for k in kinds]
    fixed = rng.random(len(srcs)) < .3
    if fixed.all():
        fixed[0] = False
    for s, fx in zip(srcs, fixed):
        s.fixed = bool(fx)
    for s in srcs:
        s.flux = np.abs(s.flux) * .2
    sc = Scene(srcs)
    th = sc.get_all_source_params()
    plan_t = WorkPlan if rng.random() < .5 else FastWorkPlan
    plans = [plan_t(t) for t in stamps]

    def lnl(theta):
        o = 0
        out = 0.0
        vecs = []
        for s, k in zip(srcs, kinds):
            if s.fixed:
                vecs.append(s.get_param_vector())
            else:
                vecs.append(theta[o:o + s.n_params])
                o += s.n_params
        for t in stamps:
            ib = bands.index(t.filtername)
            m = sum(ref_image(k, np.concatenate([[v[ib]], v[len(bands):]]), t, s, radii_of(s), ib)
                    for s, k, v in zip(srcs, kinds, vecs))
            out += -.5 * np.sum(((t.pixel_values.reshape(-1) - m) * t.ierr.reshape(-1)) ** 2)
        return out
    lnp, g = lnlike_multi(th.copy(), sc, plans)
    ref = lnl(th)
    expect(abs(lnp - ref) <= 1e-8 * (abs(ref) + 1), f"lnlike {lnp} expected {ref}")
    rg = np.zeros(len(th))
    o = 0
    deg = 1e-2 / np.sqrt(abs(np.linalg.det(st0.dpix_dsky)))
    hs = []
    for s in srcs:
        if not s.fixed:
            hs += [1e-2] * len(bands) + [deg] * 2 + [1e-3, 1e-3, 1e-4, 1e-4][:s.n_params - len(bands) - 2]
    for k, h in enumerate(hs):
        f = lambda t: lnl(th + t * h * np.eye(len(th))[k])
        rg[k] = (45 * (f(1) - f(-1)) - 9 * (f(2) - f(-2)) + (f(3) - f(-3))) / (60 * h)
    tol = 1e-5 * np.abs(rg) + 1e-9 * (abs(ref) + 1) / np.array(hs)
    bad = np.abs(g - rg) > tol
    expect(not bad.any(), f"d lnlike / d theta {np.flatnonzero(bad)[:4]}: {g[bad][:4]} expected {rg[bad][:4]}; kinds {kinds} fixed {fixed}")
    nl, ng = negative_lnlike_multi(th.copy(), sc, plans)
    close([nl], [-lnp], what="negative lnlike")
    close(ng, -g, what="negative gradient")
    close(negative_lnlike_multi(th.copy(), sc, plans, grad=False), -lnp, what="negative lnlike without gradient")
    expect(abs(lnlike_multi(th.copy(), sc, plans, grad=False) - lnp) < 1e-9 * (abs(lnp) + 1), "lnlike without gradient")
    im, gim = make_image(sc, stamps[0], Theta=th)
    ib = bands.index(stamps[0].filtername)
    m = sum(ref_image(k, s.get_param_vector(stamps[0].filtername), stamps[0], s, radii_of(s), ib) for s, k in zip(srcs, kinds))
    close(im.reshape(-1), m, rtol=1e-8, atol=1e-10 * np.abs(m).max(), what="make_image")
    rows = [np.array(x) for s, k in zip(srcs, kinds) if not s.fixed
            for x in s.render(stamps[0])[1]]
    close(gim, np.array(rows), rtol=1e-8, atol=1e-12, what="make_image gradients")


@R.prop(n=10)
def fixed_plan(rng):
    """stamps can declare sources fixed: they contribute light and no gradient; the two work plans agree
    whatever was evaluated before"""
    st = stamp_of(rng, "A")
    srcs = [source_of(rng, "galaxy", ["A"], st) for _ in range(3)]
    cov = rng.integers(0, 3, 3)
    ids = {id(s): int(c) for s, c in zip(srcs, cov)}
    st.coverage = lambda s: ids[id(s)]
    sc = Scene(srcs)
    th = sc.get_all_source_params()
    outs = [lnlike_multi(th.copy(), sc, [P(st)]) for P in (FastWorkPlan, WorkPlan, FastWorkPlan)]
    for o in outs[1:]:
        expect(abs(o[0] - outs[0][0]) < 1e-9 * (1 + abs(o[0])), "work plans disagree on lnlike")
        close(o[1], outs[0][1], rtol=1e-8, atol=1e-9, what="work plans gradient")
    m = sum((ref_image("galaxy", s.get_param_vector("A"), st, s, None, 0) for s, c in zip(srcs, cov) if c > 0),
            np.zeros(st.npix))
    ref = -.5 * np.sum(((st.pixel_values.reshape(-1) - m) * st.ierr) ** 2)
    expect(abs(outs[0][0] - ref) < 1e-8 * (1 + abs(ref)), f"lnlike {outs[0][0]} expected {ref} coverage {cov}")
    g = outs[0][1].reshape(3, -1)
    for k, c in enumerate(cov):
        expect((c > 1) == bool(np.any(g[k] != 0)), f"gradient of source with coverage {c}")


@R.prop(n=15)
def psf_parameters(rng):
    """a mixture built from a table of components, and the default of given width"""
    n = int(rng.integers(1, 5))
    xy = ("xcen", "ycen") if rng.random() < .5 else ("xcr", "ycr")
    t = np.zeros(n, dtype=[(k, "f8") for k in ("amp",) + xy + ("Cxx", "Cyy", "Cxy")])
    for k in t.dtype.names:
        t[k] = rng.uniform(.1, 2, n)
    p = PointSpreadFunction(t)
    expect(p.n_gauss == n and p.units == "pixels", "components")
    close(p.amplitudes, t["amp"], what="amp")
    close(p.means, np.array([t[xy[0]], t[xy[1]]]).T, what="means")
    close(p.covariances, np.array([[t["Cxx"], t["Cxy"]], [t["Cxy"], t["Cyy"]]]).transpose(2, 0, 1), what="covariances")
    for row, k in zip(p.as_tuplelist(), range(n)):
        close(row, [t[c][k] for c in ("amp",) + xy + ("Cxx", "Cyy", "Cxy")], what="tuple")
    w = float(rng.uniform(.5, 4))
    c = get_psf(fwhm=w).covariances[0]
    close(np.sqrt(np.diag(c)) * 2.355, [w, w], rtol=1e-3, what="FWHM")


@R.prop(n=10)
def psf_fits(rng):
    """fitted parameters of an oversampled image, as detector-pixel Gaussians"""
    n, ov, c = int(rng.integers(1, 4)), int(rng.integers(1, 9)), float(rng.uniform(5, 500))
    f = rng.uniform(.1, 3, (n, 6))
    f[:, 1:3] += c
    f[:, 5] = rng.uniform(-.8, .8, n)
    p = make_psf({"fitted_params": f.flatten()}, oversample=ov, center=c)
    expect(p.n_gauss == n, "components")
    close(p.amplitudes, f[:, 0], what="amp")
    close(p.means, (f[:, [2, 1]] - c) / ov, what="means", atol=1e-9)
    s = f[:, [4, 3]] / ov
    r = f[:, 5] * s[:, 0] * s[:, 1]
    close(p.covariances, np.array([[s[:, 0]**2, r], [r, s[:, 1]**2]]).transpose(2, 0, 1), what="covariances")


@R.prop(n=20)
def per_source_metadata(rng):
    """metadata carried by the sources instead of the stamp gives the same image and gradient"""
    bands = fix.bandnames(rng, 2)
    stamps = [stamp_of(rng, bands[int(rng.integers(2))]) for _ in range(2)]
    stamps[1].crval = stamps[0].crval
    srcs = [source_of(rng, "galaxy", bands, stamps[0]) for _ in range(2)]
    for s in srcs:
        s.stamp_scales = [t.scale for t in stamps]
        s.stamp_psfs = [[t.psf] * 4 for t in stamps]
        s.stamp_cds = [t.dpix_dsky for t in stamps]
        s.stamp_crpixs = [t.crpix for t in stamps]
        s.stamp_crvals = [t.crval for t in stamps]
        s.stamp_zps = [t.photocounts for t in stamps]
        s.stamp_filterindex = [bands.index(t.filtername) for t in stamps]
    sc = Scene(srcs)
    th = sc.get_all_source_params()
    a = lnlike_multi(th.copy(), sc, [WorkPlan(t) for t in stamps])
    b = lnlike_multi(th.copy(), sc, [WorkPlan(t) for t in stamps], source_meta=True)
    close([b[0]], [a[0]], rtol=1e-10, what="lnlike with source metadata")
    close(b[1], a[1], rtol=1e-9, atol=1e-9, what="gradient with source metadata")


R.main()
