"""P15: local astrometry is the derivative of the sky-to-pixel map."""
from ve.spec import *

TRUSTED = ["np.linalg.solve / inv return the exact solution for non-singular 2x2 matrices",
           "the image solution (astropy/gwcs) maps pixel to sky and back consistently"]
W = "forcepho.utils.wcs"


def tup(*a):
    return tuple(a)


def deg2rad(x):
    return x * T.PI / 180


@contract(W + ":scale_at_sky")
def affine_map(v):
    """for every invertible affine pixel->sky map, with the default step or any other, CW is the exact inverse of the
    derivative of the map and D is CW with the RA column divided by cos(dec), per arcsecond"""
    a, b, c, d = (v.real(x) for x in "abcd")
    r0, d0, x0, y0 = (v.real(x) for x in ("r0", "d0", "x0", "y0"))
    ra, dec, h = v.real("ra"), v.real("dec"), v.real("dpix")
    v.assume(a * d - b * c != 0, h != 0)
    det = a * d - b * c

    def p2w(x, y, *_, **k):
        x, y = N.as_nd(x).at(), N.as_nd(y).at()
        return (r0 + a * (x - x0) + b * (y - y0), d0 + c * (x - x0) + d * (y - y0))

    def w2p(r, e, *_, **k):
        r, e = N.as_nd(r).at() - r0, N.as_nd(e).at() - d0
        return (x0 + (d * r - b * e) / det, y0 + (a * e - c * r) / det)
    cosd = T.cos(deg2rad(dec))
    v.assume(cosd > 0)

    def th():
        w = S.Obj(None, "wcs", has_distortion=True, pixel_to_world_values=p2w, world_to_pixel_values=w2p)
        return v.call(W + ":scale_at_sky", (ra, dec), w, dpix=h)

    def post(r):
        CW, D = r
        v.is_shape("CW-shape", CW, (2, 2))
        v.is_shape("D-shape", D, (2, 2))
        inv = [[d / det, -b / det], [-c / det, a / det]]
        for i in range(2):
            for j in range(2):
                v.eq(f"CW[{i}{j}]-is-derivative", CW.at(i, j), inv[i][j])
                v.eq(f"D[{i}{j}]-per-arcsec-on-the-sky", D.at(i, j), inv[i][j] / 3600 / (cosd if j == 0 else 1))
    v.run(th, post)


@contract(W + ":scale_at_sky")
def secant(v):
    """for an arbitrary (distorted) solution: CW maps each measured sky displacement to exactly its pixel displacement,
    both displacements start at the requested position, and D = CW diag(1/cos dec, 1)/3600"""
    F = {k: z3.Function(k, T.R, T.R, T.R) for k in ("Fra", "Fdec", "Gx", "Gy")}
    ra, dec, h = v.real("ra"), v.real("dec"), v.real("dpix")

    def p2w(x, y, *_, **k):
        x, y = N.as_nd(x).at(), N.as_nd(y).at()
        return (F["Fra"](x, y), F["Fdec"](x, y))

    def w2p(r, e, *_, **k):
        r, e = N.as_nd(r).at(), N.as_nd(e).at()
        return (F["Gx"](r, e), F["Gy"](r, e))
    X, Y = F["Gx"](ra, dec), F["Gy"](ra, dec)
    s = [[F["Fra"](X + h, Y) - ra, F["Fdec"](X + h, Y) - dec], [F["Fra"](X, Y + h) - ra, F["Fdec"](X, Y + h) - dec]]
    v.assume(s[0][0] * s[1][1] - s[0][1] * s[1][0] != 0, h != 0)
    cosd = T.cos(deg2rad(dec))
    v.assume(cosd > 0)

    def th():
        w = S.Obj(None, "wcs", has_distortion=True, pixel_to_world_values=p2w, world_to_pixel_values=w2p)
        return v.call(W + ":scale_at_sky", (ra, dec), w, dpix=h)

    def post(r):
        CW, D = r
        for i in range(2):
            for k in range(2):
                v.eq(f"step{k}-axis{i}", CW.at(i, 0) * s[k][0] + CW.at(i, 1) * s[k][1], h if i == k else T.to_real(0))
                v.eq(f"D[{i}{k}]", D.at(i, k) * 3600 * (cosd if k == 0 else 1), CW.at(i, k))
    v.run(th, post)


@contract(W + ":scale_at_sky")
def linear_solution(v):
    """without distortion the matrices come from the pixel scale matrix (sky arc degrees per pixel)"""
    m = [[v.real(f"m{i}{j}") for j in range(2)] for i in range(2)]
    ra, dec = v.real("ra"), v.real("dec")
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    v.assume(det != 0)
    cosd = T.cos(deg2rad(dec))
    v.assume(cosd > 0)

    def th():
        w = S.Obj(None, "wcs", has_distortion=False, pixel_scale_matrix=N.mk_nd((2, 2), lambda i, j: sel(m, i, j), "real"))
        return v.call(W + ":scale_at_sky", (ra, dec), w)

    def post(r):
        CW, D = r
        for i in range(2):
            for j in range(2):
                # D * (3600 * scale) = identity;  CW = 3600 D diag(cos dec, 1)
                v.eq(f"D-inverse[{i}{j}]", 3600 * (D.at(i, 0) * m[0][j] + D.at(i, 1) * m[1][j]), T.to_real(1 if i == j else 0))
                v.eq(f"CW[{i}{j}]", CW.at(i, j), 3600 * D.at(i, j) * (cosd if j == 0 else 1))
    v.run(th, post)


def sel(m, i, j):
    return ite(cmp("==", i, 0), ite(cmp("==", j, 0), m[0][0], m[0][1]), ite(cmp("==", j, 0), m[1][0], m[1][1]))


def stored(nrow_matches):
    def body(v):
        n = v.int("n", lo=2)
        m = n if nrow_matches else v.int("m", lo=1)
        if not nrow_matches:
            v.assume(m != n)
        CW, crval, crpix = v.arr("CW", (m, 2, 2)), v.arr("crval", (m, 2)), v.arr("crpix", (m, 2))
        ra, dec, ref = v.arr("ra", (n,)), v.arr("dec", (n,)), v.arr("ref", (2,))

        def th():
            return v.call(W + ":sky_to_pix", ra, dec, exp=S.SDict({"CW": CW, "crval": crval, "crpix": crpix}), ref_coords=ref)

        def post(p):
            v.is_shape("shape", p, (n, 2))
            i = v.idx("i", n)
            k = i if nrow_matches else 0
            dr = ra.at(i) - crval.at(k, 0) - ref.at(0)
            dd = dec.at(i) - crval.at(k, 1) - ref.at(1)
            for c in range(2):
                v.eq(f"affine-map[{'xy'[c]}]", p.at(i, c), crpix.at(k, c) + CW.at(k, c, 0) * dr + CW.at(k, c, 1) * dd)
        v.run(th, post)
    body.__name__ = "stored_solution_" + ("per_source" if nrow_matches else "shared")
    return body


contract(W + ":sky_to_pix")(stored(True))
contract(W + ":sky_to_pix")(stored(False))


ST = "forcepho.slow.stamp"


def stamp(v):
    m = [[v.real(f"w{i}{j}") for j in range(2)] for i in range(2)]
    v.assume(m[0][0] * m[1][1] - m[0][1] * m[1][0] != 0)
    crval, crpix = v.arr("crval", (2,)), v.arr("crpix", (2,))
    o = v.obj(ST + ":PostageStamp", dpix_dsky=N.mk_nd((2, 2), lambda i, j: sel(m, i, j), "real"), crval=crval, crpix=crpix)
    return o, m, crval, crpix


@contract(ST + ":PostageStamp.sky_to_pix", ST + ":PostageStamp.pix_to_sky")
def stamp_maps(v):
    """the two maps of a stamp are inverse to each other and sky_to_pix is the affine map of the stamp"""
    o, m, crval, crpix = stamp(v)
    sky, pix = v.arr("sky", (2,)), v.arr("pix", (2,))

    def th():
        p = v.call(v.method(o, "sky_to_pix"), sky)
        s = v.call(v.method(o, "pix_to_sky"), pix)
        return p, v.call(v.method(o, "pix_to_sky"), p), v.call(v.method(o, "sky_to_pix"), s)

    def post(r):
        p, s2, p2 = r
        v.is_shape("shape", p, (2,))
        for c in range(2):
            v.eq(f"affine[{c}]", p.at(c), crpix.at(c) + m[c][0] * (sky.at(0) - crval.at(0)) + m[c][1] * (sky.at(1) - crval.at(1)))
            v.eq(f"sky-round-trip[{c}]", s2.at(c), sky.at(c))
            v.eq(f"pix-round-trip[{c}]", p2.at(c), pix.at(c))
    v.run(th, post)


@contract(ST + ":scale_at_sky")
def stamp_affine(v):
    """the stamp's own copy of scale_at_sky"""
    a, b, c, d = (v.real(x) for x in "abcd")
    r0, d0, x0, y0 = (v.real(x) for x in ("r0", "d0", "x0", "y0"))
    ra, dec, h, org = v.real("ra"), v.real("dec"), v.real("dpix"), v.int("origin", lo=0, hi=1)
    det = a * d - b * c
    v.assume(det != 0, h != 0)
    ro = T.to_real(org)

    def chk(o):
        v.eq("one-origin-convention", o, org)

    def p2w(pts, o):
        p = N.as_nd(pts)
        chk(o)
        f = N.snap(p)

        def at(k, j):
            x, y = f(k, 0) - ro - x0, f(k, 1) - ro - y0
            return ite(cmp("==", j, 0), r0 + a * x + b * y, d0 + c * x + d * y)
        return N.mk_nd(p.shape, at, "real")

    def w2p(pts, o):
        p = N.as_nd(pts)
        chk(o)
        f = N.snap(p)

        def at(k, j):
            r, e = f(k, 0) - r0, f(k, 1) - d0
            return ite(cmp("==", j, 0), x0 + (d * r - b * e) / det, y0 + (a * e - c * r) / det) + ro
        return N.mk_nd(p.shape, at, "real")
    cosd = T.cos(deg2rad(dec))
    v.assume(cosd > 0)

    def th():
        w = S.Obj(None, "wcs", has_distortion=True, all_pix2world=p2w, all_world2pix=w2p)
        return v.call(ST + ":scale_at_sky", (ra, dec), w, dpix=h, origin=org)

    def post(r):
        CW, D = r
        inv = [[d / det, -b / det], [-c / det, a / det]]
        for i in range(2):
            for j in range(2):
                v.eq(f"CW[{i}{j}]-is-derivative", CW.at(i, j), inv[i][j])
                v.eq(f"D[{i}{j}]-per-arcsec", D.at(i, j), inv[i][j] / 3600 / (cosd if j == 0 else 1))
    v.run(th, post)


@contract(ST + ":scale_at_sky")
def stamp_linear(v):
    m = [[v.real(f"m{i}{j}") for j in range(2)] for i in range(2)]
    ra, dec = v.real("ra"), v.real("dec")
    v.assume(m[0][0] * m[1][1] - m[0][1] * m[1][0] != 0)
    cosd = T.cos(deg2rad(dec))
    v.assume(cosd > 0)

    def th():
        w = S.Obj(None, "wcs", has_distortion=False, pixel_scale_matrix=N.mk_nd((2, 2), lambda i, j: sel(m, i, j), "real"))
        return v.call(ST + ":scale_at_sky", (ra, dec), w)

    def post(r):
        CW, D = r
        for i in range(2):
            for j in range(2):
                v.eq(f"D-inverse[{i}{j}]", 3600 * (D.at(i, 0) * m[0][j] + D.at(i, 1) * m[1][j]), T.to_real(1 if i == j else 0))
                v.eq(f"CW[{i}{j}]", CW.at(i, j), 3600 * D.at(i, j) * (cosd if j == 0 else 1))
    v.run(th, post)


@contract(W + ":FWCS.pixel_to_world_values", W + ":FWCS.world_to_pixel_values", W + ":FWCS.all_pix2world",
          W + ":FWCS.all_world2pix", W + ":FWCS.scale_at_sky")
def wrapper(v):
    """the wrapper hands positions through unchanged in both directions"""
    F = {k: z3.Function(k, T.R, T.R, T.R) for k in ("Fra", "Fdec", "Gx", "Gy")}
    n = v.int("n", lo=1)
    x, y, ra, dec = (v.arr(k, (n,)) for k in ("x", "y", "ra", "dec"))

    def two(f, g):
        def fn(a, b, *_):
            A, B = N.snap(N.as_nd(a)), N.snap(N.as_nd(b))
            return tuple(N.mk_nd(N.as_nd(a).shape, lambda *i, h=h: h(A(*i), B(*i)), "real") for h in (F[f], F[g]))
        return fn

    def th():
        o = v.call(W + ":FWCS", S.Obj(None, "wcs", pixel_to_world_values=two("Fra", "Fdec"), world_to_pixel_values=two("Gx", "Gy")))
        return [v.call(v.method(o, m), *a) for m, a in (("pixel_to_world_values", (x, y)), ("all_pix2world", (x, y)),
                                                        ("world_to_pixel_values", (ra, dec)), ("all_world2pix", (ra, dec)))]

    def post(r):
        i = v.idx("i", n)
        for k, (res, f, g, a, b) in enumerate(zip(r, ("Fra", "Fra", "Gx", "Gx"), ("Fdec", "Fdec", "Gy", "Gy"), (x, x, ra, ra), (y, y, dec, dec))):
            v.eq(f"first[{k}]", res[0].at(i), F[f](a.at(i), b.at(i)))
            v.eq(f"second[{k}]", res[1].at(i), F[g](a.at(i), b.at(i)))
    v.run(th, post)
