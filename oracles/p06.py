"""P06 runtime contracts: bounded transform."""
import numpy as np
from oracles.common import *
setup()
from forcepho.model import BoundedTransform, Transform
R = Run()


def boxes(rng, n, full=True):
    k = rng.integers(0, 5)
    lo = rng.normal(0, 1, n) * 10.0 ** rng.integers(-6, 4, n)
    w = 10.0 ** rng.uniform(-8 if full else -3, 3, n)
    if k == 0:
        lo = np.zeros(n)
    if k == 1:
        lo = -w
        w = w.copy()          # upper = 0
    if k == 2:
        lo = -np.abs(lo) - w - 1
    return lo, lo + w


def sig(z):
    z = np.asarray(z, dtype=np.longdouble)
    return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))


def lnj(z, w):
    z = np.abs(np.asarray(z, dtype=np.longdouble))
    return np.log(np.asarray(w, dtype=np.longdouble)) - z - 2 * np.log1p(np.exp(-z))


@R.prop(n=400)
def pointwise(rng):
    n = int(rng.integers(1, 12))
    lo, up = boxes(rng, n)
    if not np.all(lo < up):
        raise Skip
    t = BoundedTransform(lo, up)
    z = rng.normal(0, 1, n) * rng.choice([0.1, 1, 5, 15, 60])
    z[rng.random(n) < 0.1] = 0
    z = np.minimum(z, 14)               # beyond, 1 - sigmoid(z) has no digits left; the lower side keeps them
    z0, lo0, up0 = z.copy(), lo.copy(), up.copy()
    w = up - lo
    q = t.transform(z)
    s = sig(z)
    close(q, lo + w * s.astype(float), 1e-12, 1e-13 * np.max(np.abs(lo) + np.abs(up)), "transform")
    expect(np.all((q >= lo) & (q <= up)), "transform leaves the box")
    close(t.jacobian(z), np.exp(lnj(z, w)).astype(float), 1e-9, 0, "jacobian")
    ld = float(t.lndetjac(z))
    ref = float(lnj(z, w).sum())
    close(ld, ref, 1e-9, 1e-8, "ln det J")
    close(t.lndetjac_grad(z), (1 - 2 * s).astype(float), 1e-9, 1e-12, "gradient of ln det J")
    same(z, z0, "argument modified")
    same(lo, lo0, "bounds modified")
    same(up, up0, "bounds modified")
    expect(t.ndim == n, "ndim")


@R.prop(n=300)
def inverse(rng):
    n = int(rng.integers(1, 12))
    lo, up = boxes(rng, n, full=False)
    if not np.all(lo < up):
        raise Skip
    t = BoundedTransform(lo, up)
    f = rng.uniform(0.001, 0.999, n)
    near = rng.random(n) < 0.3          # close to one of the bounds
    f[near] = 10.0 ** rng.uniform(-9, -3, near.sum())
    near &= rng.random(n) < 0.5
    f[near] = 1 - 10.0 ** rng.uniform(-6, -3, near.sum())
    q = lo + f * (up - lo)
    if not np.all((q > lo) & (q < up)):
        raise Skip
    z = t.inverse_transform(q)
    expect(np.all(np.isfinite(z)), f"inverse not finite {z}")
    sc = np.abs(lo) + np.abs(up)
    close(t.transform(z), q, 1e-9, 1e-10 * sc.max(), "transform(inverse(q))")
    ff = (q - lo) / (up - lo)
    close(z, np.log(ff / (1 - ff)), 1e-6, 1e-6, "inverse is the logit")
    z1 = rng.normal(0, 1.5, n) * rng.choice([1, 1, 5])
    q1 = t.transform(z1)
    err = 1e-13 * sc / (up - lo) / np.maximum(1e-300, np.exp(lnj(z1, 1.0)).astype(float))
    z2 = t.inverse_transform(q1)
    expect(np.all(np.abs(z2 - z1) < 1e-7 + 10 * err), f"inverse(transform(z)): {z2} != {z1}")


@R.prop(n=60)
def large(rng):
    """hundreds of parameters with narrow ranges: the volume term stays finite"""
    n = int(rng.integers(100, 600))
    w = 10.0 ** rng.uniform(-6, -1, n)
    lo = rng.normal(0, 1, n)
    t = BoundedTransform(lo, lo + w)
    w = (lo + w) - lo
    z = rng.normal(0, 3, n)
    close(float(t.lndetjac(z)), float(lnj(z, w).sum()), 1e-9, 1e-6, "ln det J (many parameters)")


@R.prop(n=60)
def scalar_bounds(rng):
    """one parameter given as plain numbers"""
    lo = float(rng.normal()); up = lo + float(rng.uniform(0.1, 3))
    t = BoundedTransform(lo, up)
    z = rng.normal(0, 2, 1)
    close(t.transform(z), lo + (up - lo) * sig(z).astype(float), 1e-12, 1e-12, "transform")
    close(t.inverse_transform(t.transform(z)), z, 1e-8, 1e-8, "inverse")
    z = np.sort(rng.normal(0, 4, 30))
    q = np.array([t.transform(np.array([x]))[0] for x in z])
    expect(np.all(np.diff(q)[np.diff(z) > 1e-3] > 0), "not increasing")


@R.prop(n=60)
def identity(rng):
    n = int(rng.integers(1, 9))
    t = Transform(n)
    z = rng.normal(0, 5, n)
    close(t.transform(z), z, 0, 0, "identity")
    close(t.inverse_transform(z), z, 0, 0, "identity inverse")
    close(np.zeros(n) + t.jacobian(z), np.ones(n), 0, 0, "unit jacobian")
    close(float(t.lndetjac(z)), 0., 0, 1e-14, "no volume")
    close(np.zeros(n) + t.lndetjac_grad(z), np.zeros(n), 0, 0, "no volume gradient")


R.main()
