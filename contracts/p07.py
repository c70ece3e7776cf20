"""P07: prior densities and their gradients agree."""
from ve.spec import *

TRUSTED = ["np.sum over a scalar is the scalar"]
M = "forcepho.priors"


def box(v, n, inside=True):
    lo, up, q = v.arr("lo", (n,)), v.arr("up", (n,)), v.arr("q", (n,))
    v.assume(v.forall((n,), lambda i: lo.at(i) < up.at(i)))
    v.assume(v.forall((n,), lambda i: z3.And(lo.at(i) < q.at(i), q.at(i) < up.at(i))))
    return lo, up, q


def inst(v, i, lo, up, q):
    v.assume(lo.at(i) < up.at(i), lo.at(i) < q.at(i), q.at(i) < up.at(i))


def expbeta(alpha):
    def body(v):
        n = v.int("n", lo=1)
        lo, up, q = box(v, n)
        al = v.real("alpha") if alpha is None else alpha
        if alpha is None:
            v.assume(al > -1)

        def th():
            o = v.call(M + ":ExpBeta", lo, up, alpha=al)
            return v.I.call(o, [q], {})

        def post(r):
            lnp, g = r
            v.is_shape("gradient-shape", g, (n,))
            v.is_shape("value-is-scalar", N.as_nd(lnp), ())
            i = v.idx("i", n)
            inst(v, i, lo, up, q)
            x = lambda k: (q.at(k) - lo.at(k)) / (up.at(k) - lo.at(k))
            dens = lambda k: -T.arith("**", x(k) * (1 - x(k)), al)
            v.eq("gradient-is-derivative", g.at(i), v.diff_at(dens(i), q.at(i)))
            L = N.as_nd(lnp).at()
            v.eq("value-is-sum-of-terms", L, T.mk_sum(0, n, lambda k: -(T.arith("**", x(k), al) * T.arith("**", 1 - x(k), al))))
        v.run(th, post)
    body.__name__ = "expbeta_" + ("any_alpha" if alpha is None else str(alpha).replace("-", "m").replace(".", "_"))
    return body


for _a in (None, 2.0, 1.0, -0.5):
    contract("forcepho.priors:ExpBeta.__init__", "forcepho.priors:LogPrior.__call__", "forcepho.priors:ExpBeta._lnprior",
             "forcepho.priors:ExpBeta._lnprior_grad", "forcepho.priors:LogPrior._scale")(expbeta(_a))


@contract("forcepho.priors:LogPrior.__init__", "forcepho.priors:LogPrior.__call__", "forcepho.priors:LogPrior._lnprior",
          "forcepho.priors:LogPrior._lnprior_grad")
def flat(v):
    """the base prior is flat"""
    n = v.int("n", lo=1)
    lo, up, q = box(v, n)

    def th():
        o = v.call(M + ":LogPrior", lo, up)
        return v.I.call(o, [q], {})

    def post(r):
        lnp, g = r
        i = v.idx("i", n)
        inst(v, i, lo, up, q)
        v.is_shape("gradient-shape", g, (n,))
        v.eq("value", N.as_nd(lnp).at(), 0)
        v.eq("gradient", g.at(i), 0)
    v.run(th, post)


@contract("forcepho.priors:LogPrior.__init__", "forcepho.priors:LogPrior.__call__")
def flat_default(v):
    """the default limits are usable"""
    n = v.int("n", lo=1)
    q = v.arr("q", (n,))

    def th():
        return v.I.call(v.call(M + ":LogPrior"), [q], {})

    def post(r):
        lnp, g = r
        i = v.idx("i", n)
        v.is_shape("gradient-shape", g, (n,))
        v.eq("value", N.as_nd(lnp).at(), 0)
        v.eq("gradient", g.at(i), 0)
    v.run(th, post)


@contract("forcepho.priors:ExpBeta.__init__", "forcepho.priors:ExpBeta._lnprior", "forcepho.priors:ExpBeta._lnprior_grad",
          "forcepho.priors:LogPrior.__call__", "forcepho.priors:LogPrior._scale")
def expbeta_scalar_limits(v):
    """one pair of limits shared by all parameters; the gradient is the derivative of the returned value itself"""
    n = v.int("n", lo=1)
    lo, up, al, q = v.real("lo"), v.real("up"), v.real("alpha"), v.arr("q", (n,))
    v.assume(al > -1, lo < up)
    v.assume(v.forall((n,), lambda i: z3.And(lo < q.at(i), q.at(i) < up)))
    q0 = N.snap(q)

    def th():
        return v.I.call(v.call(M + ":ExpBeta", lo, up, al), [q], {})

    def post(r):
        lnp, g = r
        i = v.idx("i", n)
        v.assume(lo < q0(i), q0(i) < up)
        v.is_shape("gradient-shape", g, (n,))
        L = N.as_nd(lnp).at()
        x = lambda k: (q0(k) - lo) / (up - lo)
        term = lambda k: -T.arith("**", x(k) * (1 - x(k)), al)
        v.eq("gradient", g.at(i), v.diff_at(term(i), q0(i)))
        v.eq("value", L, T.mk_sum(0, n, lambda k: -(T.arith("**", x(k), al) * T.arith("**", 1 - x(k), al))))
        v.eq("argument-untouched", q.at(i), q0(i))
    v.run(th, post)


@contract("forcepho.priors:ExpBeta.__init__")
def expbeta_rejects(v):
    """an exponent at or below -1 is refused"""
    lo, up, al = v.real("lo"), v.real("up"), v.real("alpha")
    v.assume(al <= -1, lo < up)
    v.run(lambda: v.call(M + ":ExpBeta", lo, up, al), lambda r: v.ob("refused", False),
          lambda e: v.ob("refused", e.etype == "AssertionError"))


@contract("forcepho.priors:ExpBeta.__init__", "forcepho.priors:LogPrior.__call__")
def expbeta_default(v):
    """the default exponent is -0.9"""
    lo, up, q = v.real("lo"), v.real("up"), v.real("q")
    v.assume(lo < q, q < up)

    def th():
        return v.call(M + ":ExpBeta", lo, up), v.I.call(v.call(M + ":ExpBeta", lo, up), [q], {})

    def post(r):
        o, (lnp, g) = r
        al = T.frac(v.I.getattr(o, "alpha"))
        v.ob("exponent", al == T.frac(-0.9))
        x = (q - lo) / (up - lo)
        v.eq("gradient", N.as_nd(g).at(), T.diff(-T.arith("**", x * (1 - x), al), q))
    v.run(th, post)
