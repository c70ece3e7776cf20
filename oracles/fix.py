"""Shared fixtures: random exposures / PSFs / splines / catalogs, an in-memory patch
on top of the real PixelPatch + CPUPatchMixin, and an independent float64 reference
of the image model (written from the documentation, not from the code)."""
import os
import numpy as np
import h5py
from oracles.common import scratch

ARC = 3600.0


# ------------------------------------------------------------------ inputs
def bandnames(rng, n):
    pool = ["F090W", "F115W", "F150W", "F200W", "F277W", "F335M", "F356W", "F410M", "F444W", "CLEAR", "B2", "A1"]
    return [str(x) for x in rng.permutation(pool)[:n]]


def make_wcs(rng, ra0, dec0, nx=24, ny=24, sip=False, scale=None):
    from astropy.wcs import WCS
    from astropy.wcs import Sip
    w = WCS(naxis=2)
    s = (scale or rng.uniform(0.03, 0.08)) / ARC
    th = rng.uniform(-np.pi, np.pi)
    par = -1.0 if rng.random() < 0.7 else 1.0
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    w.wcs.ctype = ["RA---TAN-SIP", "DEC--TAN-SIP"] if sip else ["RA---TAN", "DEC--TAN"]
    w.wcs.crval = [ra0 + rng.uniform(-0.2, 0.2) / ARC, dec0 + rng.uniform(-0.2, 0.2) / ARC]
    w.wcs.crpix = [nx / 2 + rng.uniform(-2, 2), ny / 2 + rng.uniform(-2, 2)]
    w.wcs.cd = R @ np.diag([par * s, s * rng.uniform(0.9, 1.1)])
    if sip:
        a = np.zeros((3, 3)); b = np.zeros((3, 3))
        a[2, 0], a[1, 1], a[0, 2] = rng.normal(0, 2e-5, 3)
        b[2, 0], b[1, 1], b[0, 2] = rng.normal(0, 2e-5, 3)
        ap = -a; bp = -b
        w.sip = Sip(a, b, ap, bp, w.wcs.crpix)
    w.wcs.set()
    return w


def make_psf(path, bands, rng, nrad, nloc=1):
    from forcepho.patches.storage import PSF_DTYPE
    out = {}
    with h5py.File(path, "w") as h:
        for b in bands:
            ng = int(rng.integers(1, 4))
            npsf = nrad * ng
            p = np.zeros((nloc, npsf), dtype=PSF_DTYPE)
            for l in range(nloc):
                k = 0
                for r in range(nrad):
                    for g in range(ng):
                        L = np.tril(rng.uniform(0.2, 0.6, (2, 2)))
                        L[0, 0] += 0.8 + 0.5 * g
                        L[1, 1] += 0.8 + 0.5 * g
                        L[1, 0] *= rng.choice([-1, 1])
                        C = L @ L.T
                        p[l][k] = (rng.uniform(0.2, 1) / ng, rng.normal(0, 0.3), rng.normal(0, 0.3),
                                   C[0, 0], C[1, 1], C[0, 1], r)
                        k += 1
            grp = h.create_group(b)
            grp.attrs["n_psf_per_source"] = npsf
            grp.create_dataset("parameters", data=p)
            grp.create_dataset("detector_locations", data=np.zeros((2, nloc)))
            out[b] = p
    return out


def make_spline(path, rng, ngauss=4):
    ns = np.linspace(0.5, 5.5, 7)
    rh = np.geomspace(0.02, 0.6, 8)
    radii = np.concatenate([[0.0], np.geomspace(0.03, 0.6, ngauss - 1)])
    N, R = np.meshgrid(ns, rh, indexing="ij")
    n, r = N.ravel(), R.ravel()
    c = rng.normal(0, 1, (4, ngauss))
    A = np.array([0.3 + 0.1 * np.sin(c[0, i] * n + c[1, i] * r * 5) + 0.05 * c[2, i] * n * r for i in range(ngauss)]).T
    A = np.abs(A)
    with h5py.File(path, "w") as h:
        h.create_dataset("nsersic", data=n)
        h.create_dataset("rh", data=r)
        h.create_dataset("amplitudes", data=A)
        h.create_dataset("radii", data=radii)
    return ns, rh, A, radii


def cat_dtype(bands):
    return np.dtype([("id", np.int32), ("source_index", np.int32)] + [(b, np.float64) for b in bands] +
                    [(c, np.float64) for c in ("ra", "dec", "q", "pa", "sersic", "rhalf")])


def make_cat(rng, bands, n, ra0, dec0, size=0.5):
    c = np.zeros(n, dtype=cat_dtype(bands))
    c["source_index"] = np.arange(n)
    for b in bands:
        c[b] = rng.uniform(1, 20, n)
    c["ra"] = ra0 + rng.uniform(-size, size, n) / ARC / np.cos(np.deg2rad(dec0))
    c["dec"] = dec0 + rng.uniform(-size, size, n) / ARC
    c["q"] = rng.uniform(0.45, 0.98, n)
    c["pa"] = rng.uniform(-1.5, 1.5, n)
    c["sersic"] = rng.uniform(0.8, 5, n)
    c["rhalf"] = rng.uniform(0.03, 0.4, n)
    return c


class Exposure:
    pass


def patch_class():
    from forcepho.patches.pixel_patch import PixelPatch
    from forcepho.patches.device_patch import CPUPatchMixin

    class MemPatch(PixelPatch, CPUPatchMixin):
        """exposures handed over in memory; everything else is the real code"""
        def find_exposures(self, region, bandlist):
            es = [e for b in bandlist for e in self.exposures if e.band == b]
            return [e.hdr for e in es], [e.wcs for e in es], [e.name for e in es], [e.band for e in es]

        def find_pixels(self, epath, wcs, region):
            e = [x for x in self.exposures if x.name == epath][0]
            return e.flux.copy(), e.ierr.copy(), e.xpix.copy(), e.ypix.copy()
    return MemPatch


class World:
    """everything random about one patch"""
    def __init__(self, rng, nbands=None, nexp=None, npix=None, sip=False, dec=None, pad=True, allbands_extra=1):
        self.dir = scratch("world")
        self.nb = nbands or int(rng.integers(1, 4))
        allb = bandnames(rng, self.nb + allbands_extra)
        self.allbands = allb
        drop = set(rng.permutation(len(allb))[:allbands_extra].tolist())
        self.bands = [b for i, b in enumerate(allb) if i not in drop]
        self.ra0 = float(rng.uniform(5, 350))
        self.dec0 = float(rng.uniform(-60, 60)) if dec is None else dec
        self.psf = make_psf(os.path.join(self.dir, "psf.h5"), allb, rng, 4)
        self.spl = make_spline(os.path.join(self.dir, "spl.h5"), rng, 4)
        self.exposures = []
        for b in self.bands:
            for k in range(int(nexp or rng.integers(1, 4))):
                e = Exposure()
                e.band, e.name = b, f"{b}_{k}"
                e.nx, e.ny = int(rng.integers(5, 13)), int(rng.integers(5, 13))
                e.wcs = make_wcs(rng, self.ra0, self.dec0, e.nx, e.ny, sip=sip)
                e.hdr = {"FILTER": b, "BKG": float(rng.normal())}
                y, x = np.meshgrid(np.arange(e.ny), np.arange(e.nx))
                e.xpix, e.ypix = x.reshape(-1), y.reshape(-1)
                e.flux = rng.normal(0, 1, e.xpix.size)
                e.ierr = rng.uniform(0.2, 2, e.xpix.size)
                e.ierr[rng.random(e.ierr.size) < 0.1] = 0
                e.nreal = e.xpix.size
                if pad and rng.random() < 0.5:
                    p = int(rng.integers(1, 9))
                    e.flux = np.append(e.flux, np.zeros(p)); e.ierr = np.append(e.ierr, np.zeros(p))
                    e.xpix = np.append(e.xpix, -np.ones(p, int)); e.ypix = np.append(e.ypix, -np.ones(p, int))
                self.exposures.append(e)

    def patch(self, cat=None, return_residual=True, build=True, order=None, **kw):
        P = patch_class()
        p = P(psfstore=os.path.join(self.dir, "psf.h5"), splinedata=os.path.join(self.dir, "spl.h5"),
              return_residual=return_residual, **kw)
        p.exposures = self.exposures if order is None else [self.exposures[i] for i in order]
        if build:
            p.build_patch(None, cat, allbands=self.allbands)
        return p

    def cat(self, rng, n, **k):
        return make_cat(rng, self.bands, n, self.ra0, self.dec0, **k)


def amplitudes(world, n, r, d=None):
    from scipy.interpolate import RectBivariateSpline
    ns, rh, A, radii = world.spl
    kw = {} if d is None else ({"dx": 1} if d == "n" else {"dy": 1})
    return np.array([RectBivariateSpline(ns, rh, A[:, i].reshape(len(ns), len(rh)))(n, r, **kw)[0, 0]
                     for i in range(A.shape[1])])


# ------------------------------------------------------------------ reference
def rot(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def gauss_params(flux, ra, dec, q, pa, amps, D, CW, crpix, crval, G, psf, rad2):
    """image-plane gaussian (amp, centre, precision) of every PSF component (arrays)"""
    T = D @ rot(pa) @ np.diag([1 / q, q])
    cen = CW @ np.array([ra - crval[0], dec - crval[1]]) + crpix
    b = psf["sersic_bin"]
    C = np.array(rad2)[b][:, None, None] * (T @ T.T)[None] + \
        np.array([[psf["Cxx"], psf["Cxy"]], [psf["Cxy"], psf["Cyy"]]], dtype=float).transpose(2, 0, 1)
    F = np.linalg.inv(C)
    amp = G * flux * np.array(amps)[b] * psf["amp"].astype(float) * np.sqrt(np.linalg.det(F)) / (2 * np.pi)
    return amp, cen[0] + psf["xcen"].astype(float), cen[1] + psf["ycen"].astype(float), F


def eval_gauss(g, x, y, mask=None, cut=36.0):
    """(npsf, npix) counts: second-order pixel-integrated gaussian"""
    amp, xc, yc, F = g
    dx = x[None, :] - xc[:, None]
    dy = y[None, :] - yc[:, None]
    fxx, fyy, fxy = F[:, 0, 0][:, None], F[:, 1, 1][:, None], F[:, 0, 1][:, None]
    vx, vy = fxx * dx + fxy * dy, fxy * dx + fyy * dy
    arg = dx * vx + dy * vy
    if mask is None:
        mask = arg <= cut
    H = 1 + (vx ** 2 + vy ** 2 - fxx - fyy) / 24.0
    return np.where(mask, amp[:, None] * np.exp(-0.5 * np.where(mask, arg, 0)) * H, 0.0), mask


PNAMES = ("flux", "ra", "dec", "q", "pa", "sersic", "rhalf")


def src_from_proposal(prop, s, iband):
    p = prop[s]
    return dict(flux=float(p["fluxes"][iband]), ra=float(p["ra"]), dec=float(p["dec"]), q=float(p["q"]),
                pa=float(p["pa"]), amps=p["mixture_amplitudes"].astype(float),
                da_dn=p["damplitude_dnsersic"].astype(float), da_dr=p["damplitude_drh"].astype(float))


def ref_source(src, D, CW, crpix, crval, G, psf, rad2, x, y, deriv=True):
    """model counts of a source in the pixels and (7, npix) derivatives"""
    def model(s, mask=None):
        g = gauss_params(s["flux"], s["ra"], s["dec"], s["q"], s["pa"], s["amps"], D, CW, crpix, crval, G, psf, rad2)
        return eval_gauss(g, x, y, mask)
    m, mask = model(src)
    if not deriv:
        return m.sum(0), None
    out = []
    unit = 1.0 / np.sqrt(abs(np.linalg.det(CW)))   # degrees per pixel
    for k, h in (("flux", 1e-3 * (abs(src["flux"]) + 1)), ("ra", 1e-3 * unit), ("dec", 1e-3 * unit), ("q", 1e-4), ("pa", 1e-4)):
        a, b = dict(src), dict(src)
        a[k] += h
        b[k] -= h
        a2, b2 = dict(src), dict(src)
        a2[k] += 2 * h
        b2[k] -= 2 * h
        f = lambda z: model(z, mask)[0].sum(0)
        out.append((8 * (f(a) - f(b)) - (f(a2) - f(b2))) / (12 * h))
    for da in ("da_dn", "da_dr"):
        a = dict(src, amps=src[da])
        out.append(model(a, mask)[0].sum(0))
    return m.sum(0), np.array(out)


def ref_evaluate(patch, prop, nsrc=None, deriv=True, data=None, pixmag=False):
    """chi2[nb], dchi2[nb, ns, 7], residual[npix] from the packed arrays of the patch,
    plus magnitudes for tolerances"""
    ns = nsrc or len(prop)
    nb = len(patch.band_N)
    data = np.array(patch.data if data is None else data, dtype=float)
    ierr = np.array(patch.ierr, dtype=float)
    res = data.copy()
    pm = np.zeros_like(res)
    chi2, g = np.zeros(nb), np.zeros((nb, ns, 7))
    mag, gm = np.zeros(nb), np.zeros((nb, ns, 7))
    e0 = 0
    psf = np.array(patch.psfgauss)
    names = psf.dtype.names
    for b in range(nb):
        npsf = int(patch.n_psf_per_source[b])
        for e in range(int(patch.band_start[b]), int(patch.band_start[b]) + int(patch.band_N[b])):
            sl = slice(int(patch.exposure_start[e]), int(patch.exposure_start[e]) + int(patch.exposure_N[e]))
            x, y = patch.xpix[sl].astype(float), patch.ypix[sl].astype(float)
            ps = int(patch.psfgauss_start[e])
            ders = []
            absm = np.abs(data[sl]).copy()
            for s in range(ns):
                pg = psf[ps:ps + npsf]
                m, d = ref_source(src_from_proposal(prop, s, b), patch.D[e, s].astype(float), patch.CW[e, s].astype(float),
                                  patch.crpix[e, s].astype(float), patch.crval[e, s].astype(float), float(patch.G[e]),
                                  pg, np.array(patch.rad2, dtype=float), x, y, deriv)
                res[sl] -= m
                absm += np.abs(m)
                pm[sl] += np.abs(m)
                ders.append(d)
            r, w = res[sl], ierr[sl]
            chi2[b] += np.sum((r * w) ** 2 - (data[sl] * w) ** 2)
            mag[b] += np.sum((absm * w) ** 2)
            if deriv:
                for s in range(ns):
                    g[b, s] += (ders[s] * (-2 * r * w * w)[None]).sum(1)
                    gm[b, s] += np.abs(ders[s] * (2 * absm * w * w)[None]).sum(1)
    if pixmag:
        return chi2, g, res, mag, gm, pm
    return chi2, g, res, mag, gm


def static_setup(rng):
    """a StaticPatch of random stamps and sources; returns the patch and what it was made of"""
    from forcepho.patches.static_patch import StaticPatch
    from forcepho.slow.stamp import PostageStamp
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.sources import Source
    import types
    ne, ns, nr = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    bid = np.sort(rng.integers(0, 4, ne)) * 3 + 1
    stamps = []
    for e in range(ne):
        st = PostageStamp(int(rng.integers(1, 9)), int(rng.integers(1, 9)))
        st.band = int(bid[e])
        st.pixel_values = rng.normal(0, 3, (st.nx, st.ny))
        st.ierr = rng.uniform(.1, 2, (st.nx, st.ny))
        st.xpix, st.ypix = st.xpix + float(rng.integers(0, 99)), st.ypix + float(rng.integers(0, 99))
        stamps.append(st)
    ub = [int(b) for b in dict.fromkeys(bid)]
    nper = {b: int(rng.integers(1, 4)) for b in ub}

    class S(Source):
        def __init__(self):
            pass
    sources = []
    radii = rng.uniform(.1, 2, nr)
    crpix, crval, zps = rng.normal(0, 9, (ne, 2)), rng.normal(0, 9, (ne, 2)), rng.uniform(1, 5, ne)
    for k in range(ns):
        s = S()
        s.radii = radii
        s.stamp_psfs = []
        for e in range(ne):
            row = []
            for r in range(nr):
                p = PointSpreadFunction.__new__(PointSpreadFunction)
                p.n_gauss = nper[int(bid[e])]
                A = rng.normal(0, 1, (p.n_gauss, 2, 2))
                p.covariances = A @ A.transpose(0, 2, 1) + np.eye(2)
                p.means = rng.normal(0, 1, (p.n_gauss, 2))
                p.amplitudes = rng.normal(0, 1, p.n_gauss)
                row.append(p)
            s.stamp_psfs.append(row)
        s.stamp_crpixs, s.stamp_crvals, s.stamp_zps = crpix, crval, zps
        s.stamp_scales, s.stamp_cds = rng.normal(0, 1, (ne, 2, 2)), rng.normal(0, 1, (ne, 2, 2))
        sources.append(s)
    scene = types.SimpleNamespace(sources=sources, n_active=ns, npsf_per_source=np.array([nper[b] * nr for b in ub]))
    dt = [np.float32, np.float64][rng.integers(2)]
    p = StaticPatch(stamps, scene, pix_dtype=dt, meta_dtype=dt)
    return p, stamps, scene, ub, nper, nr, dt
