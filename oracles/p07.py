"""P07 runtime contracts: prior ln-probabilities and their gradients."""
import numpy as np
from oracles.common import *
setup()
from forcepho.priors import LogPrior, ExpBeta
R = Run()


def box(rng):
    n = int(rng.integers(1, 8))
    if rng.random() < .3:
        lo = float(rng.normal() * 10 ** rng.uniform(-2, 3))
        return lo, lo + float(10 ** rng.uniform(-3, 3)), n
    lo = rng.normal(size=n) * 10 ** rng.uniform(-2, 3)
    return lo, lo + 10 ** rng.uniform(-3, 3, n), n


@R.prop(n=200)
def flat(rng):
    lo, hi, n = box(rng)
    q = lo + (hi - lo) * rng.uniform(0, 1, n)
    p = LogPrior(lo, hi) if rng.random() < .8 else LogPrior()
    v, g = p(q)
    expect(float(v) == 0., f"flat prior is {v}")
    same(g, np.zeros(n), "gradient of the flat prior")


@R.prop(n=600)
def expbeta(rng):
    lo, hi, n = box(rng)
    a = float(rng.uniform(-.95, -.05)) if rng.random() < .6 else float(rng.uniform(.05, 2))
    default = rng.random() < .2
    if default:
        a = -.9
    p = ExpBeta(lo, hi) if default else ExpBeta(lo, hi, alpha=a)
    x = rng.uniform(.02, .98, n)
    q = lo + (hi - lo) * x
    q0 = q.copy()
    v, g = p(q)
    same(q, q0, "argument modified")
    w = np.zeros(n) + hi - lo
    X = (q - lo) / w
    close([v], [-np.sum((X * (1 - X)) ** a)], rtol=1e-6, what="lnp")
    expect(np.shape(g) == (n,), "one gradient element per parameter")
    f = lambda t: -(t * (1 - t)) ** a
    h = 1e-3 * np.minimum(X, 1 - X)
    d = (45 * (f(X + h) - f(X - h)) - 9 * (f(X + 2 * h) - f(X - 2 * h)) + (f(X + 3 * h) - f(X - 3 * h))) / (60 * h)
    close(g, d / w, rtol=1e-5, atol=1e-6 * np.max(np.abs(d / w)) , what=f"gradient alpha={a}")


@R.prop(n=50)
def scalar(rng):
    """a scalar position is allowed"""
    p = ExpBeta(10., 30.)
    q = float(rng.uniform(11, 29))
    x = (q - 10) / 20.
    v, g = p(q)
    close([float(v)], [-(x * (1 - x)) ** -.9], rtol=1e-9, what="lnp")
    close([float(g)], [-.9 * (2 * x - 1) * (x * (1 - x)) ** -1.9 / 20.], rtol=1e-9, what="gradient")


@R.prop(n=1, deterministic=True)
def domain(rng):
    for a in (-1., -1.5, -3):
        try:
            ExpBeta(0., 1., alpha=a)
        except AssertionError:
            continue
        raise_fail(f"alpha={a} accepted")
    from forcepho import priors
    try:
        priors.Barrier(0., 1.)
    except NotImplementedError:
        pass


R.main()
