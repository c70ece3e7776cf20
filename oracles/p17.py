"""P17 runtime contracts: sky regions and exposure selection."""
import os
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from astropy.io import fits
from forcepho.region import CircularRegion, RectangularRegion, polygons_overlap, polygon_contains
from forcepho.patches.storage import MetaStore, ImageSet
from forcepho.patches.pixel_patch import FITSPatch
R = Run()


def world(rng, **k):
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-70, 70))
    return ra0, dec0, fix.make_wcs(rng, ra0, dec0, 24, 20, **k)


def corners(n, m, size):
    x, y = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    off = np.array([(0, 0), (1, 0), (1, 1), (0, 1)]) * size
    return x[..., None] * 1.0 + off[:, 0], y[..., None] * 1.0 + off[:, 1]


@R.prop(n=60, tmax=8)
def circle(rng):
    ra0, dec0, w = world(rng)
    rad = float(rng.uniform(.1, .6)) / 3600
    r = CircularRegion(ra0, dec0, rad)
    xc, yc = corners(24, 20, float(rng.choice([1, .9])))
    sx, sy = r.contains(xc, yc, w)
    got = np.zeros(xc.shape[:2], bool)
    got[sx, sy] = True
    expect(got.sum() == len(sx), "an index is returned twice")
    ra, dec = w.pixel_to_world_values(xc, yc)
    dist = np.hypot((ra - ra0) * np.cos(np.deg2rad(dec0)), dec - dec0) / rad
    # pixels are up to 10% rectangular here: distances are decided up to that
    must = np.any(dist < .88, axis=-1)
    mustnot = np.all(dist > 1.13, axis=-1)
    expect(np.all(got[must]), "a pixel with a corner inside of the circle is missing")
    expect(not np.any(got[mustnot]), "a pixel far outside of the circle is selected")
    # exact in the pixel metric
    cx, cy = w.world_to_pixel_values(ra0, dec0)
    px, py = w.world_to_pixel_values(ra0, dec0 + rad)
    dd, rr = np.hypot(xc - cx, yc - cy), np.hypot(px - cx, py - cy)
    edge = np.any(np.abs(dd - rr) < 1e-6, axis=-1)
    expect(np.all((got == np.any(dd < rr, axis=-1)) | edge), "selection by the radius in pixels")


@R.prop(n=60, tmax=8)
def rectangle(rng):
    ra0, dec0, w = world(rng, sip=bool(rng.random() < .3))
    c = 1 / np.cos(np.deg2rad(dec0))
    a = np.sort(rng.uniform(-.6, .6, 2)) / 3600 * c + ra0
    b = np.sort(rng.uniform(-.6, .6, 2)) / 3600 + dec0
    r = RectangularRegion(a[0], a[1], b[0], b[1])
    xc, yc = corners(24, 20, 1)
    sx, sy = r.contains(xc, yc, w)
    got = np.zeros(xc.shape[:2], bool)
    got[sx, sy] = True
    ra, dec = w.pixel_to_world_values(xc, yc)
    ins = (ra > a[0]) & (ra < a[1]) & (dec > b[0]) & (dec < b[1])
    expect(np.all(got == ins.any(-1)), "pixels with a corner inside of the rectangle")
    bb = r.bounding_box
    expect(set(map(tuple, np.asarray(bb).T.tolist())) == {(x, y) for x in a for y in b}, "bounding box corners")
    p = np.asarray(bb).T
    d = np.abs(np.roll(p, -1, 0) - p)
    expect(np.all((d[:, 0] == 0) | (d[:, 1] == 0)), "bounding box is a simple polygon")


@R.prop(n=60, tmax=5)
def circle_box(rng):
    ra0, dec0, rad = float(rng.uniform(5, 350)), float(rng.uniform(-80, 80)), float(rng.uniform(1e-5, 1e-2))
    bx, by = np.asarray(CircularRegion(ra0, dec0, rad).bounding_box)
    t = rng.uniform(0, 2 * np.pi, 50)
    ra, dec = ra0 + .999 * rad * np.cos(t) / np.cos(np.deg2rad(dec0)), dec0 + .999 * rad * np.sin(t)
    expect(np.all((ra > bx.min()) & (ra < bx.max()) & (dec > by.min()) & (dec < by.max())), "the box circumscribes the circle")
    close([bx.max() - bx.min(), by.max() - by.min()], [2 * rad / np.cos(np.deg2rad(dec0)), 2 * rad], 1e-6, 1e-12, "size of the box")
    close([bx.mean(), by.mean()], [ra0, dec0], 0, 1e-9, "centre of the box")


def convex(rng, n):
    t = np.sort(rng.uniform(0, 2 * np.pi, n))
    if np.max(np.diff(np.append(t, t[0] + 2 * np.pi))) > 2.8 or np.min(np.diff(t)) < .1:
        raise Skip
    return np.array([np.cos(t), np.sin(t)]).T


@R.prop(n=150, tmax=8)
def polygons(rng):
    n = int(rng.integers(3, 8))
    P = convex(rng, n)
    A = rng.normal(0, 1, (2, 2))
    if abs(np.linalg.det(A)) < .2:
        raise Skip
    off = rng.normal(0, 5, 2)
    Q = P @ A.T + off
    if rng.random() < .5:
        Q = Q[::-1]
    Q = np.roll(Q, int(rng.integers(n)), 0)
    pts = rng.uniform(-2, 2, (40, 2))
    # independent test in the frame of the circle polygon
    nxt = np.roll(P, -1, 0)
    k = (nxt[:, 0] - P[:, 0])[None] * (pts[:, None, 1] - P[None, :, 1]) - (nxt[:, 1] - P[:, 1])[None] * (pts[:, None, 0] - P[None, :, 0])
    keep = np.min(np.abs(k), 1) > 1e-6
    inside = np.all(k > 0, 1)
    got = np.asarray(polygon_contains(Q, pts @ A.T + off))
    expect(got.shape == (40,), "one flag per point")
    expect(np.all(got[keep] == inside[keep]), "points inside of a convex polygon")


@R.prop(n=80, tmax=6)
def polygon_lines(rng):
    """integer convex polygons and points, exact arithmetic: points in line with an edge but
    beyond its ends are outside"""
    pts = rng.integers(-4, 5, (8, 2))
    from scipy.spatial import ConvexHull, QhullError
    try:
        h = ConvexHull(pts)
    except QhullError:
        raise Skip
    Q = pts[h.vertices].astype(float)        # counterclockwise, strictly convex
    X, Y = np.meshgrid(np.arange(-7, 8), np.arange(-7, 8))
    P = np.array([X.ravel(), Y.ravel()]).T.astype(float)
    N = np.roll(Q, -1, 0)
    k = (N[:, 0] - Q[:, 0])[None] * (P[:, None, 1] - Q[None, :, 1]) - (N[:, 1] - Q[:, 1])[None] * (P[:, None, 0] - Q[None, :, 0])
    outside, inside = np.any(k < 0, 1), np.all(k > 0, 1)
    Q = np.roll(Q, int(rng.integers(len(Q))), 0)
    for V in (Q, Q[::-1]):
        got = np.asarray(polygon_contains(V, P)).astype(bool)
        expect(np.all(got[inside]), f"inner point called outside of {V.tolist()}")
        expect(not np.any(got[outside]), f"point {P[got & outside][:1].tolist()} called inside of {V.tolist()}")


@R.prop(n=200, tmax=6)
def overlap(rng):
    def rect():
        a, b = np.sort(rng.uniform(0, 10, 2)), np.sort(rng.uniform(0, 10, 2))
        return a, b
    (a, b), (c, d) = rect(), rect()
    if rng.random() < .3:     # nested
        c = a + (a[1] - a[0]) * np.array([.2, -.2])
        d = b + (b[1] - b[0]) * np.array([.1, -.3])
    R1, R2 = RectangularRegion(*a, *b), RectangularRegion(*c, *d)
    exp = (a[0] < c[1]) and (c[0] < a[1]) and (b[0] < d[1]) and (d[0] < b[1])
    expect(bool(polygons_overlap(R1, R2)) == exp and bool(polygons_overlap(R2, R1)) == exp, f"overlap of {a, b} and {c, d}")


@R.prop(n=150, tmax=5)
def polygon_overlap(rng):
    """bounding polygons that are convex, not only boxes: overlap iff no line separates them"""
    import types
    from scipy.optimize import linprog
    P = []
    while len(P) < 2:
        try:
            P.append(np.array(convex(rng, int(rng.integers(3, 6)))))
        except Skip:
            pass
    P = [(p - p.mean(0)) * rng.uniform(.2, 1.5) + rng.uniform(-1.2, 1.2, 2) * np.ptp(P[0], axis=0) for p in P]
    A, B = P
    # strict separation margin t of the best separating line:  n.a <= c - t, n.b >= c + t, |n|_inf <= 1
    na, nb = len(A), len(B)
    G = np.vstack([np.c_[A, -np.ones(na), np.ones(na)], np.c_[-B, np.ones(nb), np.ones(nb)]])
    r = linprog([0, 0, 0, -1], A_ub=G, b_ub=np.zeros(na + nb), bounds=[(-1, 1), (-1, 1), (None, None), (None, 1)])
    sc = np.ptp(np.vstack(P))
    if not r.success:
        raise Skip
    apart = r.x[3] > 1e-6 * sc
    # shared area: a point of one well inside of the other, or properly crossing edges
    if not apart:
        big = linprog([0, 0, -1], A_ub=np.vstack([halfplanes(A), halfplanes(B)])[:, :3], b_ub=np.vstack([halfplanes(A), halfplanes(B)])[:, 3],
                      bounds=[(None, None), (None, None), (0, None)])
        if not (big.success and big.x[2] > 1e-6 * sc):
            raise Skip           # they only touch
    o = [types.SimpleNamespace(bounding_box=p.T) for p in P]
    for x, y in ((o[0], o[1]), (o[1], o[0])):
        expect(bool(polygons_overlap(x, y)) == (not apart), f"overlap of {A.tolist()} and {B.tolist()}")


def halfplanes(p):
    """rows (nx, ny, |n|, c): n.x + |n| t <= c inside of the convex polygon, t the distance to the edges"""
    q = np.roll(p, -1, 0)
    area = np.sum(p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0])
    n = np.c_[q[:, 1] - p[:, 1], p[:, 0] - q[:, 0]] * np.sign(area)
    return np.c_[n, np.hypot(*n.T), np.sum(n * p, 1)]


@R.prop(n=40, tmax=5)
def image_overlap(rng):
    """a region and an image (at any orientation) overlap iff the box around the image shares area with the region's"""
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-60, 60))
    nx, ny = int(rng.integers(6, 30)), int(rng.integers(6, 30))
    w = fix.make_wcs(rng, ra0, dec0, nx, ny)
    h = w.to_header(relax=True)
    h["NAXIS1"], h["NAXIS2"] = nx, ny
    ra, dec = w.pixel_to_world_values([0, nx, nx, 0], [0, 0, ny, ny])
    ext = np.array([np.ptp(ra), np.ptp(dec)])
    c = np.array([ra.mean(), dec.mean()]) + rng.uniform(-1, 1, 2) * ext
    if rng.random() < .5:
        hw = rng.uniform(.05, .6, 2) * ext
        reg = RectangularRegion(c[0] - hw[0], c[0] + hw[0], c[1] - hw[1], c[1] + hw[1])
    else:
        reg = CircularRegion(c[0], c[1], float(rng.uniform(.05, .6) * ext[1]))
    bx, by = reg.bounding_box
    gap = max((bx.min() - ra.max()) / ext[0], (ra.min() - bx.max()) / ext[0], (by.min() - dec.max()) / ext[1], (dec.min() - by.max()) / ext[1])
    if abs(gap) < 1e-6:
        raise Skip
    expect(bool(reg.overlaps(h)) == (gap < 0), f"overlap of the region {c} with the image (gap {gap})")


@R.prop(n=30, tmax=12)
def covering(rng):
    """exposures that cover a position"""
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-60, 60))
    ms = MetaStore()
    ms.wcs = {}
    truth = {}
    bands = fix.bandnames(rng, 3)
    sky = (ra0 + rng.uniform(-.7, .7) / 3600 / np.cos(np.deg2rad(dec0)), dec0 + rng.uniform(-.7, .7) / 3600)
    shared = rng.random() < .4       # the same exposure name in several bands
    for k in range(int(rng.integers(1, 7))):
        b = str(rng.choice(bands))
        if shared:
            b, k = bands[k % 3], k // 3
        nx, ny = int(rng.integers(6, 30)), int(rng.integers(6, 30))
        w = fix.make_wcs(rng, ra0, dec0, nx, ny)
        h = w.to_header(relax=True)
        h["NAXIS1"], h["NAXIS2"] = nx, ny
        if rng.random() < .5:
            c = np.array(w.pixel_to_world_values([-1, -1, nx + 1, nx + 1], [-1, ny + 1, ny + 1, -1])).T
            h["S_REGION"] = "POLYGON ICRS " + " ".join(f"{v:.9f}" for v in c.ravel())
        ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=b, expID=f"e{k}", names=None))
        x, y = w.world_to_pixel_values(*sky)
        truth[b, f"e{k}"] = (float(min(x, nx - x)), float(min(y, ny - y)))
    req = [b for b in bands if rng.random() < .7]
    for rep in range(2):    # the second call uses the cached WCS
        ep, bd = ms.find_exposures(sky, req)
        got = list(zip(bd, ep))
        expect(len(set(got)) == len(got), "an exposure twice")
        for key, (mx, my) in truth.items():
            m = min(mx, my)
            if abs(m) < .01:
                continue
            expect((key in got) == (m > 0 and key[0] in req), f"{key} margin {m} requested {req} got {got}")
        expect([req.index(b) for b in bd] == sorted(req.index(b) for b in bd), "band order")


@R.prop(n=15, tmax=15)
def fits_selection(rng):
    d = scratch("fits")
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-60, 60))
    bands = fix.bandnames(rng, 3)
    T, names = {}, []
    for k in range(int(rng.integers(1, 6))):
        nx, ny = int(rng.integers(6, 30)), int(rng.integers(6, 30))
        off = rng.uniform(-1.5, 1.5, 2) / 3600
        w = fix.make_wcs(rng, ra0 + off[0], dec0 + off[1], nx, ny)
        h = w.to_header(relax=True)
        b = str(rng.choice(bands))
        h["FILTER"] = b
        n = os.path.join(d, f"i{k}.fits")
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.zeros((ny, nx), np.float32), header=h, name="SCI")]).writeto(n)
        T[n] = (b, w, nx, ny)
        names.append(n)
    rad = float(rng.choice([.1, .3, 3])) / 3600
    reg = CircularRegion(ra0, dec0, rad)
    req = [b for b in bands if rng.random() < .8]
    p = FITSPatch(fitsfiles=names)
    hd, wc, ep, bd = p.find_exposures(reg, req)
    got = [str(x) for x in ep]
    expect(len(set(got)) == len(got) and len(hd) == len(wc) == len(ep) == len(bd), "parallel lists")
    expect([req.index(b) for b in bd] == sorted(req.index(b) for b in bd), "band order")
    for n, (b, w, nx, ny) in T.items():
        x, y = w.world_to_pixel_values(ra0, dec0)
        cx, cy = w.world_to_pixel_values(*reg.bounding_box)
        if b not in req:
            expect(n not in got, "band not requested")
        elif (np.max(cx) < -.01 or np.min(cx) > nx + .01 or np.max(cy) < -.01 or np.min(cy) > ny + .01):
            expect(n not in got, f"exposure far away is selected")
        elif np.any((cx > .01) & (cx < nx - .01) & (cy > .01) & (cy < ny - .01)):
            expect(n in got, "exposure with a corner of the region box is missing")
        elif cx.min() < -.01 and cx.max() > nx + .01 and cy.min() < -.01 and cy.max() > ny + .01:
            expect(n in got, "exposure surrounded by the region is missing")
    for n, b, h, w in zip(got, bd, hd, wc):
        expect(T[n][0] == b and h["FILTER"] == b, "band of the exposure")
        close(np.array(w.pixel_to_world_values(3, 4)), np.array(T[n][1].pixel_to_world_values(3, 4)), 0, 1e-9, "WCS of the exposure")


R.main()
