"""catalogs for the superscene checks"""
import numpy as np

SHAPE = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def catalog(rng, n, bands, size=20., ra0=None, dec0=None):
    from forcepho.superscene import sourcecat_dtype
    c = np.zeros(n, dtype=sourcecat_dtype(bands=bands))
    ra0 = rng.uniform(10, 350) if ra0 is None else ra0
    dec0 = rng.uniform(-60, 60) if dec0 is None else dec0
    c["id"] = rng.permutation(n) + 100
    c["ra"] = ra0 + rng.uniform(-size, size, n) / 3600 / np.cos(np.deg2rad(dec0))
    c["dec"] = dec0 + rng.uniform(-size, size, n) / 3600
    c["q"] = rng.uniform(.5, .9, n)
    c["pa"] = rng.uniform(-1, 1, n)
    c["sersic"] = rng.uniform(1.5, 4, n)
    c["rhalf"] = rng.uniform(.05, .25, n)
    c["roi"] = rng.uniform(.1, 1.5, n)
    for b in bands:
        c[b] = rng.uniform(1, 20, n)
    return c


def scene_xy(cat):
    """offsets (arcsec) on the tangent sphere about the median position"""
    from astropy.coordinates import SkyCoord
    m = SkyCoord(np.median(cat["ra"]), np.median(cat["dec"]), unit="deg")
    o = SkyCoord(cat["ra"], cat["dec"], unit="deg").transform_to(m.skyoffset_frame())
    return np.array([o.lon.arcsec, o.lat.arcsec]).T, m


def to_xy(m, ra, dec):
    from astropy.coordinates import SkyCoord
    o = SkyCoord(ra, dec, unit="deg").transform_to(m.skyoffset_frame())
    return np.array([o.lon.arcsec, o.lat.arcsec])
