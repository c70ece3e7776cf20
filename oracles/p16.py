"""P16 runtime contracts: pixel, metadata and PSF stores."""
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from astropy.wcs import WCS
from forcepho.patches.storage import PixelStore, MetaStore, PSFStore, ImageSet, ImageNameSet
R = Run()


def mkset(rng, nx, ny, band, eid, hdr, mask=None, bkg=None):
    im = rng.normal(0, 1, (nx, ny))
    ie = rng.uniform(.2, 2, (nx, ny))
    m = rng.random((nx, ny))
    im[m < .03] = np.nan
    im[(m > .03) & (m < .05)] = np.inf
    ie[(m > .06) & (m < .09)] = np.nan
    ie[(m > .09) & (m < .12)] = np.inf
    ie[(m > .12) & (m < .15)] = -.3
    ie[(m > .15) & (m < .18)] = 0
    return ImageSet(im=im, ierr=ie, mask=mask, bkg=bkg, hdr=hdr, band=band, expID=eid, names=None)


@R.prop(n=40, tmax=12)
def superpixels(rng):
    d = scratch("px")
    s = int(rng.integers(1, 5))
    nx, ny = s * int(rng.integers(1, 6)), s * int(rng.integers(1, 6))
    sq = rng.random() < .5
    if sq:
        ny = nx
    st = PixelStore(os.path.join(d, "p.h5"), nside_full=nx if sq and rng.random() < .5 else [nx, ny], super_pixel_size=s)
    im, ie = rng.normal(0, 1, (nx, ny)), rng.normal(0, 1, (nx, ny))
    sp = st.superpixelize(im, ie)
    expect(sp.shape == (nx // s, ny // s, 2 * s * s), f"shape {sp.shape}")
    x, y = np.asarray(st.xpix, int), np.asarray(st.ypix, int)
    expect(x.shape == y.shape == (nx // s, ny // s, s * s), "coordinate shape")
    # coordinates enumerate every pixel exactly once, superpixel (i, j) holds the s x s block at (i s, j s)
    expect(sorted(zip(x.ravel().tolist(), y.ravel().tolist())) == [(a, b) for a in range(nx) for b in range(ny)], "every pixel once")
    ii, jj = np.meshgrid(np.arange(nx // s), np.arange(ny // s), indexing="ij")
    expect(np.all(x // s == ii[..., None]) and np.all(y // s == jj[..., None]), "compact superpixels")
    same(sp[..., :s * s], im[x, y].astype(sp.dtype), "flux half follows the coordinates")
    same(sp[..., s * s:], ie[x, y].astype(sp.dtype), "ierr half follows the coordinates")
    c = st.superpixel_corners()
    expect(c.shape == (nx // s, ny // s, 4, 2), "corner shape")
    for i in range(nx // s):
        for j in range(ny // s):
            got = set(map(tuple, np.asarray(c[i, j], int).tolist()))
            exp = {(i * s + a * (s - 1), j * s + b * (s - 1)) for a in (0, 1) for b in (0, 1)}
            expect(got == exp, f"corners of superpixel {(i, j)}: {got} expected {exp}")


@R.prop(n=40, tmax=15)
def exposures(rng):
    d = scratch("px")
    s = int(rng.choice([2, 4]))
    nx = s * int(rng.integers(1, 5))
    ny = s * int(rng.integers(1, 5)) if rng.random() < .4 else nx
    f = os.path.join(d, "p.h5")
    st = PixelStore(f, nside_full=[nx, ny], super_pixel_size=s)
    truth = {}
    for k in range(int(rng.integers(1, 4))):
        band, eid = str(rng.choice(["F090W", "F200W"])), str(rng.choice(["a", "b", "sub/c"]))
        hdr = {"ABMAG": float(rng.uniform(20, 30))} if rng.random() < .7 else {}
        mask, bm = None, None
        if rng.random() < .5:
            if rng.random() < .5:
                mask, bm = rng.integers(0, 8, (nx, ny)), int(rng.integers(1, 8))
            else:
                mask = rng.random((nx, ny)) < .2
        bkg = rng.normal(0, 1, (nx, ny)) if rng.random() < .5 else None
        if bkg is not None and rng.random() < .3:
            bkg[0, 0] = np.nan
        S = mkset(rng, nx, ny, band, eid, hdr, mask, bkg)
        im, ie = S.im.copy(), S.ierr.copy()
        fc = bool(rng.random() < .5)
        st.add_exposure(S, bitmask=bm, do_fluxcal=fc)
        sub = im - (bkg if bkg is not None else 0)
        bad = ~(np.isfinite(ie) & np.isfinite(sub) & (ie >= 0))
        if mask is not None:
            bad |= ((mask & bm) != 0) if bm else mask.astype(bool)
        conv = 1e9 * 10 ** (.4 * (8.9 - hdr["ABMAG"])) if fc and "ABMAG" in hdr else 1.0
        truth[band, eid] = (sub * conv, np.where(bad, 0, ie) / conv, bad)
        # exposures added before are unchanged
        import h5py
        with h5py.File(f, "r") as h:
            for (b, e), (im2, ie2, bad2) in truth.items():
                a = h[f"{b}/{e}/data"][:].astype(float)
                x, y = np.asarray(st.xpix, int), np.asarray(st.ypix, int)
                expect(np.all(np.isfinite(a)), "stored values finite")
                w = a[..., s * s:]
                close(w, ie2[x, y], 2e-6, 1e-30, f"weights of {b}/{e}")
                expect(np.all(w[bad2[x, y]] == 0), "bad pixels have zero weight")
                good = ~bad2[x, y]
                close(a[..., :s * s][good], im2[x, y][good], 2e-6, 2e-6 * np.max(np.abs(im2[~bad2])) if (~bad2).any() else 0, f"flux of {b}/{e}")
    st.close()
    # a reopened store uses the stored geometry, whatever the arguments
    st2 = PixelStore(f, nside_full=64, super_pixel_size=8)
    same(np.zeros(2) + st2.nside_full, [nx, ny], "stored size")
    expect(int(st2.super_pixel_size) == s, "stored superpixel size")
    same(st2.xpix, st.xpix, "coordinates of the reopened store")
    st2.close()


@R.prop(n=15, tmax=6)
def wrong_size(rng):
    d = scratch("px")
    st = PixelStore(os.path.join(d, "p.h5"), nside_full=8, super_pixel_size=2)
    nx, ny = [(8, 6), (10, 10), (7, 8), (4, 8)][int(rng.integers(4))]
    try:
        st.add_exposure(mkset(rng, nx, ny, "F", "e", {}))
    except (ValueError, AssertionError):
        return
    raise_fail("an image of the wrong size was accepted")


@R.prop(n=20, tmax=8)
def metadata_roundtrip(rng):
    d = scratch("meta")
    ms, ws = MetaStore(), {}
    shared = rng.random() < .4       # the same exposure name in several bands
    for k in range(int(rng.integers(1, 6))):
        band, eid = str(rng.choice(["F090W", "F200W", "B"])), f"dir/e{k}"
        if shared:
            band, eid = ["F090W", "F200W", "B"][k % 3], f"dir/e{k // 3}"
        w = fix.make_wcs(rng, 50., -20., sip=bool(rng.random() < .5))
        h = w.to_header(relax=True)
        h["NAXIS1"], h["NAXIS2"] = int(rng.integers(5, 50)), int(rng.integers(5, 50))
        h["FILTER"] = band
        h["ABMAG"] = float(rng.uniform(20, 30))
        if rng.random() < .5:            # a long header, with text and negative values
            for j in range(int(rng.integers(20, 150))):
                h[f"KEY{j}"] = [round(float(rng.normal()), 6), int(rng.integers(-9, 9)), f"text {j}", bool(j % 2)][j % 4]
        ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=band, expID=eid, names=None))
        ws[band, eid] = (w, h)
    f = os.path.join(d, "m.json")
    ms.write_to_file(f)
    m2 = MetaStore(f, load_all=True)
    got = {(b, e) for b in m2.headers for e in m2.headers[b]}
    expect(got == set(ws), f"exposures {got} expected {set(ws)}")
    expect(m2.nexp == len(ws), "nexp")
    for (b, e), (w, h) in ws.items():
        for key in ["NAXIS1", "NAXIS2", "FILTER", "ABMAG"] + [x for x in h if x.startswith("KEY")]:
            expect(m2.headers[b][e][key] == h[key], f"{key} after the round trip")
        x = rng.uniform(0, 20, (2, 5))
        close(np.array(m2.wcs[b][e].pixel_to_world_values(*x)), np.array(w.pixel_to_world_values(*x)), 0, 1e-9, "WCS after the round trip")


@R.prop(n=25, tmax=6)
def psf_lookup(rng):
    d = scratch("psf")
    f = os.path.join(d, "psf.h5")
    import h5py
    from forcepho.patches.storage import PSF_DTYPE
    nloc, npsf = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    T = {}
    with h5py.File(f, "w") as h:
        for b in ("F090W", "F200W"):
            p = np.zeros((nloc, npsf), PSF_DTYPE)
            for c in PSF_DTYPE.names:
                p[c] = rng.integers(0, 9, p.shape) if c == "sersic_bin" else rng.normal(0, 1, p.shape)
            loc = rng.uniform(0, 100, (2, nloc))
            g = h.create_group(b)
            g.create_dataset("parameters", data=p)
            g.create_dataset("detector_locations", data=loc)
            T[b] = (p, loc)
    st = PSFStore(f)
    for b, (p, loc) in T.items():
        expect(st.lookup(b).tobytes() == p[0].tobytes(), "default location")
        expect(np.asarray(st.get_local_psf(band=b, source=None)).tobytes() == p[0].tobytes(), "psf of a source")
        xy = rng.uniform(0, 100, 2)
        dist = np.hypot(loc[0] - xy[0], loc[1] - xy[1])
        expect(st.lookup(b, xy=xy).tobytes() == p[np.argmin(dist)].tobytes(), "nearest location")


R.main()
