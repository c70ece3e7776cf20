"""P15 runtime contracts: local astrometric maps."""
import numpy as np
from oracles.common import *
setup()
from oracles import fix
from forcepho.utils.wcs import scale_at_sky, sky_to_pix, FWCS
from forcepho.slow.stamp import PostageStamp
from forcepho.slow.stamp import scale_at_sky as slow_scale
R = Run()


def jac(w, ra, dec):
    h = 0.02 / 3600
    J = np.zeros((2, 2))
    for k, (a, b) in enumerate(((h, 0), (0, h))):
        J[:, k] = (np.array(w.world_to_pixel_values(ra + a, dec + b), float) - np.array(w.world_to_pixel_values(ra - a, dec - b), float)) / (2 * h)
    return J


class Opaque:
    """an object with only the documented interface (like a gwcs)"""
    def __init__(self, w):
        self.w = w

    def pixel_to_world_values(self, x, y):
        return self.w.pixel_to_world_values(x, y)

    def world_to_pixel_values(self, a, d):
        return self.w.world_to_pixel_values(a, d)


@R.prop(n=120, tmax=12)
def local_scale(rng):
    ra0, dec0 = float(rng.uniform(5, 350)), float(rng.uniform(-75, 75))
    w = fix.make_wcs(rng, ra0, dec0, 20, 20, sip=bool(rng.random() < .5))
    ra = ra0 + rng.uniform(-1, 1) / 3600 / np.cos(np.deg2rad(dec0))
    dec = dec0 + rng.uniform(-1, 1) / 3600
    J = jac(w, ra, dec)
    s = np.sqrt(abs(np.linalg.det(J)))
    Dt = J @ np.diag([1 / np.cos(np.deg2rad(dec)), 1]) / 3600
    sd = np.sqrt(abs(np.linalg.det(Dt)))
    sky = [ra, dec] if rng.random() < .5 else np.array([ra, dec])
    forms = [("plain", lambda: scale_at_sky(sky, w)), ("approx", lambda: scale_at_sky(sky, w, make_approx=True)),
             ("step", lambda: scale_at_sky(sky, w, dpix=float(rng.choice([-0.5, 0.3, 2.0])), make_approx=True)),
             ("opaque", lambda: scale_at_sky(sky, Opaque(w))), ("FWCS", lambda: FWCS(w).scale_at_sky(sky)),
             ("FWCS opaque", lambda: FWCS(Opaque(w)).scale_at_sky(sky)),
             ("slow", lambda: slow_scale(sky, w)), ("slow approx", lambda: slow_scale(sky, w, make_approx=True))]
    for nm, f in forms:
        CW, D = f()
        close(np.array(CW) / s, J / s, 0, 3e-4, f"{nm}: pixels per degree of coordinate")
        close(np.array(D) / sd, Dt / sd, 0, 3e-4, f"{nm}: pixels per arcsec")
        # exact relation of the two
        close(np.array(CW) / s, np.array(D) @ np.diag([np.cos(np.deg2rad(dec)), 1]) * 3600 / s, 0, 1e-9, f"{nm}: CW and D consistent")


@R.prop(n=60, tmax=5)
def stamp_inverse(rng):
    st = PostageStamp(nx=int(rng.integers(3, 30)), ny=int(rng.integers(3, 30)))
    M = rng.normal(0, 1, (2, 2))
    if abs(np.linalg.det(M)) < .1:
        raise Skip
    st.dpix_dsky = M * 3600 / .05
    st.crval = np.array([rng.uniform(0, 360), rng.uniform(-80, 80)])
    st.crpix = rng.uniform(0, 100, 2)
    c = st.crval + rng.uniform(-2, 2, 2) / 3600
    p = st.sky_to_pix(c)
    close(p, M * 3600 / .05 @ (c - st.crval) + st.crpix, 1e-9, 1e-7, "linear map")
    close(st.pix_to_sky(p), c, 0, 1e-9, "inverse of the linear map")
    q = rng.uniform(-50, 50, 2)
    close(st.sky_to_pix(st.pix_to_sky(q)), q, 0, 1e-5, "round trip from pixels")
    close(st.sky_to_pix(st.crval), st.crpix, 0, 1e-9, "reference point")


@R.prop(n=60, tmax=5)
def linear_sky_to_pix(rng):
    """per-source and single linear maps stored with an exposure"""
    n = int(rng.integers(2, 6))
    one = bool(rng.random() < .4)
    m = 1 if one else n
    exp = {"crval": rng.normal(0, 1e-4, (m, 2)), "crpix": rng.uniform(0, 50, (m, 2)), "CW": rng.normal(0, 7e4, (m, 2, 2))}
    ref = np.array([rng.uniform(0, 360), rng.uniform(-80, 80)])
    ra = ref[0] + rng.normal(0, 1e-4, n)
    dec = ref[1] + rng.normal(0, 1e-4, n)
    got = np.asarray(sky_to_pix(ra, dec, exp, ref_coords=ref))
    expv = np.array([exp["CW"][0 if one else i] @ (np.array([ra[i], dec[i]]) - ref - exp["crval"][0 if one else i]) + exp["crpix"][0 if one else i]
                     for i in range(n)])
    close(got, expv, 1e-7, 1e-6, "pixel positions")


@R.prop(n=25, tmax=6)
def stamp_wcs(rng):
    st = PostageStamp(nx=12, ny=9)
    sc = .05
    th = rng.uniform(0, 6)
    st.scale = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([-1 / sc, 1 / sc])
    st.crval = np.array([rng.uniform(5, 350), rng.uniform(-60, 60)])
    st.crpix = rng.uniform(2, 9, 2)
    w = st.wcs
    close(np.array(w.world_to_pixel_values(*st.crval), float), st.crpix, 0, 1e-6, "reference pixel of the stamp WCS (zero indexed)")
    CW, D = scale_at_sky(st.crval, w)
    close(D, st.scale, 1e-4, 1e-4, "scale of the stamp WCS")
    c = st.crval + rng.uniform(-.2, .2, 2) / 3600
    close(st.sky_to_pix(c), np.array(w.world_to_pixel_values(*c), float), 0, 2e-2, "stamp map agrees with its WCS")


R.main()
