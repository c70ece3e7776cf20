"""P12 runtime contracts: pixel packing."""
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from astropy.io import fits
from forcepho.patches.pixel_patch import FITSPatch, StorePatch, DirectPatch
from forcepho.patches.storage import PixelStore, MetaStore, ImageSet
from forcepho.region import CircularRegion, RectangularRegion
R = Run()


def check_index(p, exps):
    """exps: list of (band, flux, ierr, x, y) in the expected order"""
    f32 = lambda a: np.asarray(a, dtype=float).reshape(-1).astype(p.pix_dtype)
    n = [np.asarray(e[1]).size for e in exps]
    expect(p.n_exp == len(exps), f"{p.n_exp} exposures, expected {len(exps)}")
    expect(list(p.bands) == [e[0] for e in exps], f"bands {p.bands}")
    same(p.exposure_N, n, "exposure_N")
    same(p.exposure_start, np.concatenate([[0], np.cumsum(n)[:-1]]), "exposure_start")
    expect(p.npix == sum(n), "npix")
    ub = list(dict.fromkeys(e[0] for e in exps))
    expect(list(p.bandlist) == ub, f"bandlist {p.bandlist} expected {ub}")
    expect(p.n_bands == len(ub), "n_bands")
    bn = [sum(e[0] == b for e in exps) for b in ub]
    same(p.band_N, bn, "band_N")
    same(p.band_start, np.concatenate([[0], np.cumsum(bn)[:-1]]), "band_start")
    same(p.band_N_pix, [sum(k for e, k in zip(exps, n) if e[0] == b) for b in ub], "band_N_pix")
    for attr, c in (("data", 1), ("ierr", 2), ("xpix", 3), ("ypix", 4)):
        arr = getattr(p, attr)
        expect(arr.shape == (sum(n),) and arr.dtype == p.pix_dtype, f"{attr} {arr.shape} {arr.dtype}")
        sp = p.split_pix(attr)
        expect(len(sp) == len(exps), "split_pix length")
        for j, e in enumerate(exps):
            same(sp[j], f32(e[c]), f"{attr} of exposure {j}")
            s = p.exposure_start[j]
            same(arr[s:s + p.exposure_N[j]], f32(e[c]), f"{attr} range of exposure {j}")
        sb = p.split_band(attr)
        expect(len(sb) == len(ub), "split_band length")
        for j, b in enumerate(ub):
            same(sb[j], np.concatenate([f32(e[c]) for e in exps if e[0] == b]), f"{attr} of band {b}")


@R.prop(n=60, tmax=15)
def packing(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 5)))
    kw = {}
    if rng.random() < 0.3:
        kw["pix_dtype"] = np.float64
    p = w.patch(build=False, order=rng.permutation(len(w.exposures)), **kw)
    tw = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        for e in w.exposures:
            if rng.random() < 0.5:
                e.hdr.pop("BKG")
    p.build_patch(None, None, allbands=w.allbands, tweak_background="BKG" if tw else rng.choice([False, ""]).item() or False)
    es = [e for b in w.allbands for e in p.exposures if e.band == b]
    check_index(p, [(e.band, e.flux - (e.hdr.get("BKG", 0.0) if tw else 0.0), e.ierr, e.xpix, e.ypix) for e in es])
    expect([x for x in p.epaths] == [e.name for e in es], "epaths")
    expect(all(a is b.wcs for a, b in zip(p.wcses, es)), "wcses in exposure order")
    expect(all(a is b.hdr for a, b in zip(p.hdrs, es)), "hdrs in exposure order")
    # a second build on the same object describes the new exposures only
    sub = [e for e in w.exposures if rng.random() < 0.7] or w.exposures[:1]
    p.exposures = sub
    p.build_patch(None, None, allbands=w.allbands)
    es = [e for b in w.allbands for e in sub if e.band == b]
    check_index(p, [(e.band, e.flux, e.ierr, e.xpix, e.ypix) for e in es])


@R.prop(n=40, tmax=6)
def snr_cap(rng):
    w = fix.World(rng)
    for e in w.exposures:
        e.flux *= 30
        e.flux[rng.random(e.flux.size) < 0.1] = 0
    p = w.patch(build=False)
    cap = float(rng.uniform(1, 20))
    p.max_snr = cap
    p.build_patch(None, None, allbands=w.allbands)
    es = [e for b in w.allbands for e in w.exposures if e.band == b]
    f = np.concatenate([e.flux for e in es]).astype(np.float32)
    i = np.concatenate([e.ierr for e in es]).astype(np.float32)
    same(p.data, f, "data is not changed by the cap")
    exp = i.copy().astype(float)
    hi = f.astype(float) * i > cap
    exp[hi] = cap / f[hi].astype(float)
    close(p.ierr, exp, rtol=1e-5, atol=0, what="capped inverse errors")
    expect(np.all((p.ierr == 0) == (i == 0)), "masked pixels stay masked and no other becomes masked")
    expect(np.all(p.ierr >= 0), "inverse errors stay non-negative")


@R.prop(n=15, tmax=6)
def no_exposure(rng):
    w = fix.World(rng)
    p = w.patch(build=False)
    p.exposures = []
    try:
        p.build_patch(None, None, allbands=w.allbands)
    except (ValueError, AssertionError):
        return
    raise_fail("no exposure overlaps and no error was raised")


def make_fits(rng, d, band, k, ra0, dec0, sci, unc):
    nx, ny = int(rng.integers(4, 22)), int(rng.integers(4, 22))
    w = fix.make_wcs(rng, ra0, dec0, nx, ny)
    hdr = w.to_header(relax=True)
    hdr["FILTER"] = band
    hdr["BKG"] = float(rng.normal())
    f = rng.normal(0, 1, (ny, nx)).astype(np.float32)
    u = rng.uniform(0.3, 3, (ny, nx)).astype(np.float32)
    m = rng.random((ny, nx))
    f[m < 0.05] = np.nan
    f[(m > .05) & (m < .07)] = np.inf
    u[(m > .1) & (m < .13)] = np.nan
    u[(m > .13) & (m < .16)] = 0
    u[(m > .16) & (m < .19)] = -1
    u[(m > .19) & (m < .21)] = np.inf
    name = os.path.join(d, f"im{k}.fits")
    fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(f, header=hdr, name=sci), fits.ImageHDU(u, name=unc)]).writeto(name)
    return name, band, f, u, w, float(hdr["BKG"])


@R.prop(n=25, tmax=15)
def fits_pixels(rng):
    d = scratch("fits")
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-60, 60))
    bands = fix.bandnames(rng, 3)
    sci, unc = ("SCI", "ERR") if rng.random() < 0.6 else ("DATA", "UNC")
    ims = [make_fits(rng, d, str(rng.choice(bands)), k, ra0, dec0, sci, unc) for k in range(int(rng.integers(1, 5)))]
    p = FITSPatch(fitsfiles=[i[0] for i in ims], sci_ext=sci, unc_ext=unc)
    mode = rng.choice(["err", "snr", "unc"], p=[.6, .2, .2])
    if mode == "snr":
        p.snr = float(rng.uniform(3, 30))
    if mode == "unc":
        p.unc = float(rng.uniform(.3, 3))
    region = None
    if rng.random() < 0.5:
        region = CircularRegion(ra0, dec0, float(rng.uniform(0.15, 0.6)) / 3600)
    req = [b for b in bands if rng.random() < 0.8] or bands
    if not any(i[1] in req for i in ims):
        raise Skip
    tw = rng.random() < 0.4
    p.build_patch(region, None, allbands=req, tweak_background="BKG" if tw else False)
    es = [i for b in req for i in ims if i[1] == b]
    if region is None:
        expect([str(x) for x in p.epaths] == [e[0] for e in es], "every requested exposure is used, in band order")
    sp = {a: p.split_pix(a) for a in ("data", "ierr", "xpix", "ypix")}
    byname = {e[0]: e for e in ims}
    for j, ep in enumerate(p.epaths):
        name, band, f, u, w, bkg = byname[str(ep)]
        expect(p.bands[j] == band, "band of exposure")
        dat, ie, x, y = (np.array(sp[a][j], dtype=float) for a in ("data", "ierr", "xpix", "ypix"))
        expect(len(dat) % 64 == 0, "padded to multiples of the warp size")
        padm = (x == -1) & (y == -1)
        expect(np.all(ie[padm] == 0), "padding has no weight")
        expect(padm.sum() < 64, "no more padding than needed")
        x, y, dat, ie = x[~padm].astype(int), y[~padm].astype(int), dat[~padm], ie[~padm]
        got = set(zip(x.tolist(), y.tolist()))
        expect(len(got) == len(x), "a pixel is packed twice")
        ny, nx = f.shape
        expect(all(0 <= a < nx and 0 <= b < ny for a, b in got), "pixel outside of the image")
        if region is None:
            expect(len(got) == nx * ny, "every pixel of the image is packed")
        else:
            xg, yg = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
            xc, yc = w.world_to_pixel_values(region.ra, region.dec)
            xr, yr = w.world_to_pixel_values(region.ra, region.dec + region.radius)
            rr = np.hypot(xr - xc, yr - yc)
            inn = np.zeros((nx, ny), bool)
            edge = np.zeros((nx, ny), bool)
            for ox, oy in ((0, 0), (1, 0), (1, 1), (0, 1)):
                dd = np.hypot(xg + ox - xc, yg + oy - yc)
                inn |= dd < rr
                edge |= np.abs(dd - rr) < 1e-6
            expc = set(zip(*[a.tolist() for a in np.where(inn & ~edge)]))
            opt = set(zip(*[a.tolist() for a in np.where(edge)]))
            expect(expc - opt <= got and got <= expc | opt, f"pixels in region {len(got)} expected {len(expc)}")
        ff, uu = f[y, x].astype(float), u[y, x].astype(float)
        with np.errstate(all="ignore"):
            ii = {"err": 1 / uu, "snr": (p.snr or 1) / ff, "unc": np.zeros_like(ff) + 1 / (p.unc or 1)}[mode]
        bad = ~np.isfinite(ff) | ~np.isfinite(ii) | (ii < 0)
        exf, exi = np.where(bad, 0, ff) - (bkg if tw else 0), np.where(bad, 0, ii)
        close(dat, exf, 1e-5, 1e-6, "flux at its own coordinates")
        close(ie, exi, 1e-5, 1e-7, "inverse error at its own coordinates")
    expect(np.all(np.isfinite(p.data)) and np.all(np.isfinite(p.ierr)) and np.all(p.ierr >= 0), "packed values finite, weights >= 0")


@R.prop(n=25, tmax=10)
def direct(rng):
    w = fix.World(rng, nbands=3)
    pix, hdr = {}, {}
    for j in rng.permutation(len(w.exposures)):
        e = w.exposures[j]
        h = e.wcs.to_header(relax=True)
        h["FILTER"] = e.band
        h["BKG"] = e.hdr["BKG"]
        hdr[e.name] = h
        pix[e.name] = dict(flux=e.flux, ierr=e.ierr, xpix=e.xpix, ypix=e.ypix)
    p = DirectPatch(pixel_dict=pix, header_dict=hdr)
    req = [b for b in w.allbands if rng.random() < 0.7]
    names = {e.name: e for e in w.exposures}
    es = [names[n] for b in req for n in hdr if names[n].band == b]
    if not es:
        raise Skip
    tw = rng.random() < 0.5
    p.build_patch(None, None, allbands=req, tweak_background="BKG" if tw else False)
    check_index(p, [(e.band, e.flux - (e.hdr["BKG"] if tw else 0), e.ierr, e.xpix, e.ypix) for e in es])


@R.prop(n=12, tmax=15)
def store(rng):
    d = scratch("store")
    s = int(rng.choice([2, 4]))
    nside = s * int(rng.integers(12 // s, 28 // s))
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-60, 60))
    bands = fix.bandnames(rng, 3)
    hf, mf = os.path.join(d, "pix.h5"), os.path.join(d, "meta.json")
    ps, ms = PixelStore(hf, nside_full=nside, super_pixel_size=s), MetaStore()
    src = {}
    shared = rng.random() < .4       # the same exposure name in several bands
    for k in range(int(rng.integers(1, 5))):
        b = str(rng.choice(bands))
        if shared:
            b, k = bands[k % 3], k // 3
        w = fix.make_wcs(rng, ra0, dec0, nside, nside)
        h = w.to_header(relax=True)
        h["NAXIS1"], h["NAXIS2"] = nside, nside
        h["FILTER"] = b
        im, ie = rng.normal(0, 1, (nside, nside)), rng.uniform(.2, 2, (nside, nside))
        iset = ImageSet(im=im.copy(), ierr=ie.copy(), mask=None, bkg=None, hdr=h, band=b, expID=f"e{k}", names=None)
        ps.add_exposure(iset)
        ms.add_exposure(iset)
        src[f"{b}/e{k}"] = (im, ie, w, b)
    ms.write_to_file(mf)
    p = StorePatch(pixelstore=hf, metastore=mf)
    region = CircularRegion(ra0, dec0, float(rng.uniform(0.1, 0.35)) / 3600)
    # exposures that hold a corner of the circumscribed box and a superpixel corner of the circle
    must = []
    dra = region.radius / np.cos(np.deg2rad(dec0))
    for k, (im, ie, w, b) in src.items():
        bx, by = w.world_to_pixel_values(ra0 + dra * np.array([-1, 1, 1, -1]), dec0 + region.radius * np.array([-1, -1, 1, 1]))
        xc, yc = w.world_to_pixel_values(ra0, dec0)
        xr, yr = w.world_to_pixel_values(ra0, dec0 + region.radius)
        c = np.concatenate([np.arange(0, nside, s), np.arange(s - 1, nside, s)])
        near = np.min(np.hypot(c[:, None] - xc, c[None] - yc)) < np.hypot(xr - xc, yr - yc) - 1e-6
        if near and np.any((bx > 1e-6) & (bx < nside - 1e-6) & (by > 1e-6) & (by < nside - 1e-6)):
            must.append(k)
    if not must:
        raise Skip
    p.build_patch(region, None, allbands=bands)
    got = [str(x) for x in p.epaths]
    expect(set(must) <= set(got) <= set(src) and len(set(got)) == len(got), f"exposures covering the region {got} expected {must}")
    expect([allb(bands, b) for b in p.bands] == sorted(allb(bands, b) for b in p.bands), "band order")
    for j, ep in enumerate(p.epaths):
        im, ie, w, b = src[str(ep)]
        dat, e, x, y = (np.array(p.split_pix(a)[j], dtype=float) for a in ("data", "ierr", "xpix", "ypix"))
        x, y = x.astype(int), y.astype(int)
        expect(len(set(zip(x.tolist(), y.tolist()))) == len(x), "a pixel is packed twice")
        close(dat, im[x, y], 1e-6, 1e-6, "flux at its coordinates")
        close(e, ie[x, y], 1e-6, 1e-6, "inverse error at its coordinates")
        # whole superpixels: every one with a corner pixel inside the circle and no other
        xc, yc = w.world_to_pixel_values(region.ra, region.dec)
        xr, yr = w.world_to_pixel_values(region.ra, region.dec + region.radius)
        rr = np.hypot(xr - xc, yr - yc)
        got = set(zip((x // s).tolist(), (y // s).tolist()))
        expect(len(x) == len(got) * s * s, "whole superpixels are packed")
        for a in range(nside // s):
            for c in range(nside // s):
                dd = np.array([np.hypot(a * s + ox * (s - 1) - xc, c * s + oy * (s - 1) - yc) for ox in (0, 1) for oy in (0, 1)])
                if np.any(np.abs(dd - rr) < 1e-6):
                    continue
                expect(((a, c) in got) == bool(np.any(dd < rr)), f"superpixel {(a, c)}")
        # superpixel order: s*s consecutive pixels belong to one superpixel
        g = x.reshape(-1, s * s) // s
        expect(np.all(g == g[:, :1]), "superpixel order")


@R.prop(n=30, tmax=5)
def static_patch(rng):
    """the patch made of postage stamps: every pixel once, in order, unchanged; padding has no weight"""
    import types
    p, stamps, scene, ub, nper, nr, dt = fix.static_setup(rng)
    if rng.random() < .5:
        p.build_patch(stamps, scene)
    bid = [s.band for s in stamps]
    bn = [bid.count(b) for b in ub]
    expect(p.n_bands == len(ub) and p.n_exp == len(stamps), "numbers of bands and exposures")
    same(p.band_N, bn, "exposures per band")
    same(p.band_start, np.concatenate([[0], np.cumsum(bn)[:-1]]), "first exposure of the bands")
    end = 0
    for e, s in enumerate(stamps):
        a, n = int(p.exposure_start[e]), int(p.exposure_N[e])
        expect(a == end and n >= s.npix, f"range of exposure {e}: {a}, {n} after {end} for {s.npix} pixels")
        end = a + n
        for at, v in (("data", s.pixel_values), ("ierr", s.ierr), ("xpix", s.xpix), ("ypix", s.ypix)):
            arr = getattr(p, at)
            same(arr[a:a + s.npix], np.asarray(v, float).ravel().astype(dt), f"{at} of exposure {e}")
        same(p.ierr[a + s.npix:a + n], np.zeros(n - s.npix), f"weight of the padding of exposure {e}")
    expect(p.data.size == p.ierr.size == p.xpix.size == p.ypix.size == end, "the exposures partition the pixels")
    # residuals return in the shape of the stamps
    from forcepho.proposal import ProposerBase
    flat = rng.normal(0, 1, end)
    u = ProposerBase().unpack_residuals(flat, p)
    w = ProposerBase().unpack_residuals(flat, p, reshape=True)
    expect(len(u) == len(w) == len(stamps), "one residual image per exposure")
    for e, s in enumerate(stamps):
        a, n = int(p.exposure_start[e]), int(p.exposure_N[e])
        same(u[e], flat[a:a + n], f"residual of exposure {e}")
        same(w[e], flat[a:a + s.npix].reshape(s.nx, s.ny), f"residual image of exposure {e}")


def allb(bands, b):
    return bands.index(b)


R.main()
