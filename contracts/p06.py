"""P06: the bounded transform is a smooth bijection onto the open box, with exact
Jacobian and exact log-volume term."""
from ve.spec import *

TRUSTED = ["scipy.special.expit(x) = 1/(1+exp(-x))"]
M = "forcepho.model"


def setup(v):
    n = v.int("n", lo=1)
    lo, up, z = v.arr("lo", (n,)), v.arr("up", (n,)), v.arr("z", (n,))
    v.assume(v.forall((n,), lambda i: lo.at(i) < up.at(i)))
    return n, lo, up, z


def inst(v, i, lo, up):
    """instantiate the box precondition at i"""
    v.assume(lo.at(i) < up.at(i))


@contract("forcepho.model:BoundedTransform.transform", "forcepho.model:BoundedTransform.__init__",
          "forcepho.model:BoundedTransform.range", "forcepho.model:sigmoid")
def transform(v):
    n, lo, up, z = setup(v)

    def th():
        o = v.call(M + ":BoundedTransform", lo, up)
        return o, v.call(v.method(o, "transform"), z)

    def post(r):
        o, q = r
        v.is_shape("shape", q, (n,))
        i = v.idx("i", n)
        inst(v, i, lo, up)
        v.ob("inside-box", z3.And(lo.at(i) < q.at(i), q.at(i) < up.at(i)))
        v.eq("logistic", q.at(i), lo.at(i) + (up.at(i) - lo.at(i)) / (1 + v.exp(-z.at(i))))
        j = v.idx("j", n)
        # strictly increasing in its own coordinate, independent of the others
        v.eq("diagonal", v.diff_at(q.at(i), z.at(j)) if not i.eq(j) else 0,
             ite(cmp("==", i, j), v.diff_at(q.at(i), z.at(j)), 0))
        v.ob("increasing", v.diff_at(q.at(i), z.at(i)) > 0)
        nd = v.I.getattr(o, "ndim")
        v.eq("ndim", nd, n)
    v.run(th, post)


@contract("forcepho.model:BoundedTransform.jacobian", "forcepho.model:sigmoid_grad")
def jacobian(v):
    n, lo, up, z = setup(v)

    def th():
        o = v.call(M + ":BoundedTransform", lo, up)
        return v.call(v.method(o, "transform"), z), v.call(v.method(o, "jacobian"), z)

    def post(r):
        q, j = r
        v.is_shape("shape", j, (n,))
        i = v.idx("i", n)
        inst(v, i, lo, up)
        v.eq("jacobian-is-derivative", j.at(i), v.diff_at(q.at(i), z.at(i)))
    v.run(th, post)


@contract("forcepho.model:Transform.lndetjac")
def lndetjac(v):
    n, lo, up, z = setup(v)

    def th():
        o = v.call(M + ":BoundedTransform", lo, up)
        return v.call(v.method(o, "jacobian"), z), v.call(v.method(o, "lndetjac"), z)

    def post(r):
        j, l = r
        v.is_shape("scalar", l, ())
        i = v.idx("i", n)
        inst(v, i, lo, up)
        v.ob("jacobian-positive", j.at(i) > 0)
        spec = T.mk_sum(0, n, lambda k: v.log(j.at(k)))
        lt = T.to_real(l if not isinstance(l, Nd) else l.at())
        v.eq("sum-of-log-jacobian", lt, spec)
    v.run(th, post)


@contract("forcepho.model:BoundedTransform.lndetjac_grad")
def lndetjac_grad(v):
    n, lo, up, z = setup(v)

    def th():
        o = v.call(M + ":BoundedTransform", lo, up)
        return v.call(v.method(o, "jacobian"), z), v.call(v.method(o, "lndetjac_grad"), z)

    def post(r):
        j, g = r
        v.is_shape("shape", g, (n,))
        i = v.idx("i", n)
        inst(v, i, lo, up)
        # d ln J_i / dz_i = J_i' / J_i
        d = v.diff_at(j.at(i), z.at(i))
        v.eq("gradient-of-log-volume", arith("*", g.at(i), j.at(i)), d)
    v.run(th, post)


@contract("forcepho.model:BoundedTransform.inverse_transform", "forcepho.model:logit")
def inverse(v):
    n, lo, up, z = setup(v)
    q = v.arr("q", (n,))
    v.assume(v.forall((n,), lambda i: z3.And(lo.at(i) < q.at(i), q.at(i) < up.at(i))))

    def th():
        o = v.call(M + ":BoundedTransform", lo, up)
        zz = v.call(v.method(o, "inverse_transform"), q)
        return zz, v.call(v.method(o, "transform"), zz)

    def post(r):
        zz, q2 = r
        v.is_shape("shape", zz, (n,))
        i = v.idx("i", n)
        inst(v, i, lo, up)
        v.assume(lo.at(i) < q.at(i), q.at(i) < up.at(i))
        # z = ln((q-lo)/(up-q)):  exp(z) determines z because exp is injective
        v.eq("exp-of-inverse", v.exp(zz.at(i)), (q.at(i) - lo.at(i)) / (up.at(i) - q.at(i)))
        v.eq("round-trip", q2.at(i), q.at(i))
    v.run(th, post)


@contract("forcepho.model:Transform.transform", "forcepho.model:Transform.jacobian",
          "forcepho.model:Transform.lndetjac", "forcepho.model:Transform.lndetjac_grad",
          "forcepho.model:Transform.inverse_transform")
def identity(v):
    n = v.int("n", lo=1)
    z = v.arr("z", (n,))

    def th():
        o = v.call(M + ":Transform", n)
        return [v.call(v.method(o, k), z) for k in
                ("transform", "jacobian", "lndetjac", "lndetjac_grad", "inverse_transform")]

    def post(r):
        q, j, l, g, w = r
        i = v.idx("i", n)
        for a in (q, j, g, w):
            v.is_shape("shape", a, (n,))
        v.eq("identity", q.at(i), z.at(i))
        v.eq("unit-jacobian", j.at(i), 1)
        v.eq("no-volume", l if not isinstance(l, Nd) else l.at(), 0)
        v.eq("no-volume-grad", g.at(i), 0)
        v.eq("identity-inverse", w.at(i), z.at(i))
    v.run(th, post)
