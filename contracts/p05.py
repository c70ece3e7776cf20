"""P05: for every history of calls the cached values belong to the requested position."""
from ve.spec import *
from contracts.p04 import World, scal, check_pair, M

ACC = ("lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd")
TRUSTED = ["numpy `!=`/any on arrays of equal shape"]


def snapshot(v, o, names=("_z", "_lnp", "_lnp_grad")):
    return {k: o.a.get(k) for k in names}


def cached_obj(v, cls, n):
    """an arbitrary object satisfying the cache invariant: (_lnp,_lnp_grad) belong to _z"""
    z0, g0, L0 = v.arr("z0", (n,)), v.arr("g0", (n,)), v.real("L0")
    nd = v.real("ndof")
    v.assume(nd > 0)
    o = v.obj(M + ":" + cls, _z=z0, _lnp=L0, _lnp_grad=g0, ndof=nd, ncall=v.int("nc", lo=0))
    return o, z0, g0, L0, nd


def accessor(cls, m):
    def body(v):
        n = v.int("n", lo=1)
        z, g1, L1 = v.arr("z", (n,)), v.arr("g1", (n,)), v.real("L1")
        calls = []

        def ev(I, self, zz):
            calls.append(zz)
            f = N.snap(N.as_nd(zz))
            self.set("_z", N.mk_nd((n,), f, "real"))
            self.set("_lnp", L1)
            self.set("_lnp_grad", N.mk_nd((n,), N.snap(g1), "real"))
        v.stub(f"{M}:{cls}.evaluate", ev)
        o, z0, g0, L0, nd = cached_obj(v, cls, n)

        def th():
            calls.clear()
            return v.call(v.method(o, m), z)

        def post(r):
            i = v.idx("i", n)
            v.ob("at-most-one-evaluation", len(calls) <= 1)
            if calls:
                v.eq("evaluates-requested-position", N.as_nd(calls[0]).at(i), z.at(i))
                L, g = L1, g1
            else:
                v.eq("cache-used-only-at-the-same-position", z.at(i), z0.at(i))
                L, g = L0, g0
            if m in ("lnprob",):
                v.eq("value", scal(r), L)
            elif m == "lnprob_grad":
                v.eq("grad", r.at(i), g.at(i))
            elif m == "lnprob_and_grad":
                v.eq("value", scal(r[0]), L)
                v.eq("grad", r[1].at(i), g.at(i))
            elif m == "nll":
                v.eq("value", scal(r[0]), -L / nd)
                v.eq("grad", r[1].at(i), -g.at(i) / nd)
            else:
                v.eq("value", scal(r), -L / nd)
            # the cache still satisfies its invariant
            v.eq("cache-value", scal(o.a["_lnp"]), L)
            v.eq("cache-grad", N.as_nd(o.a["_lnp_grad"]).at(i), g.at(i))
            v.eq("cache-key", N.as_nd(o.a["_z"]).at(i), (z if calls else z0).at(i))
        v.run(th, post)
    body.__name__ = f"{cls}_{m}"
    return body


for _c in ("FastPosterior", "SlowPosterior"):
    for _m in ACC:
        contract(f"forcepho.model:Posterior.{_m}")(accessor(_c, _m))


@contract("forcepho.model:FastPosterior.evaluate")
def fast_evaluate_establishes(v):
    """after evaluate the key equals z and is independent of the caller's array"""
    w = World(v)
    z2 = v.arr("z2", (w.ndim,))

    def th():
        o = w.build()
        z = N.mk_nd((w.ndim,), N.snap(w.z), "real")
        v.call(v.method(o, "evaluate"), z)
        v.I.setitem(z, slice(None), z2)          # the caller reuses its array
        return o

    def post(o):
        i = v.idx("i", w.ndim)
        k = N.as_nd(o.a["_z"])
        v.is_shape("key-shape", k, (w.ndim,))
        v.eq("key-survives-reuse-of-the-array", k.at(i), w.z.at(i))
        check_pair(v, w, o.a["_lnp"], o.a["_lnp_grad"], True, True)
    v.run(th, post)


@contract("forcepho.model:FastPosterior.evaluate")
def fast_evaluate_fault(v):
    """a likelihood failure leaves the previous, coherent cache in place"""
    w = World(v)
    z0, g0, L0 = v.arr("z0", (w.ndim,)), v.arr("g0", (w.ndim,)), v.real("L0")
    box = {}

    def th():
        o = w.build()

        def boom(*a, **k):
            raise PyRaise("RuntimeError", "kernel failure")
        w.proposer.set("evaluate_proposal", boom)
        o.set("_z", z0)
        o.set("_lnp", L0)
        o.set("_lnp_grad", g0)
        box["o"] = o
        v.call(v.method(o, "evaluate"), w.z)
        return o

    def post(o):
        v.ob("failure-propagates", False)

    def raises(e):
        o = box["o"]
        i = v.idx("i", w.ndim)
        v.eq("key-unchanged", N.as_nd(o.a["_z"]).at(i), z0.at(i))
        v.eq("value-unchanged", scal(o.a["_lnp"]), L0)
        v.eq("grad-unchanged", N.as_nd(o.a["_lnp_grad"]).at(i), g0.at(i))
    v.run(th, post, raises)


@contract("forcepho.model:FastPosterior.__init__", "forcepho.model:Posterior.lnprob")
def fast_first_call(v):
    """no position matches the empty cache"""
    w = World(v)

    def th():
        o = w.build()
        return v.call(v.method(o, "lnprob_and_grad"), w.z)

    def post(r):
        v.ob("first-call-evaluates", len([x for x in w.log if x[0] == "eval"]) == 1)
        check_pair(v, w, r[0], r[1], True, True)
    v.run(th, post)


def slow_obj(v, n, like=None, **a):
    q, jac, ldjg, lprg, llg = [v.arr(k, (n,)) for k in ("q", "jac", "ldjg", "lprg", "llg")]
    ldj, lpr, ll = v.real("ldj"), v.real("lpr"), v.real("ll")
    t = S.Obj(None, "transform", jacobian=lambda x: jac, lndetjac=lambda x: ldj,
              lndetjac_grad=lambda x: ldjg, transform=lambda x: q)
    o = v.call(M + ":SlowPosterior", scene="SCENE", plans=S.SList(["PLAN"]),
               lnlike=like or (lambda p, **k: (ll, llg)), transform=t,
               lnprior=lambda p: (lpr, lprg))
    return o, (ll + lpr + ldj), lambda i: (llg.at(i) + lprg.at(i)) * jac.at(i) + ldjg.at(i)


@contract("forcepho.model:SlowPosterior.evaluate", "forcepho.model:SlowPosterior.__init__")
def slow_evaluate_establishes(v):
    n = v.int("n", lo=1)
    z1, z2 = v.arr("z1", (n,)), v.arr("z2", (n,))

    def th():
        o, L, g = slow_obj(v, n)
        z = N.mk_nd((n,), N.snap(z1), "real")
        v.call(v.method(o, "lnprob"), z)
        v.I.setitem(z, slice(None), z2)
        return o, L, g

    def post(r):
        o, L, g = r
        i = v.idx("i", n)
        v.eq("key-survives-reuse-of-the-array", N.as_nd(o.a["_z"]).at(i), z1.at(i))
        v.eq("value", scal(o.a["_lnp"]), L)
        v.eq("grad", N.as_nd(o.a["_lnp_grad"]).at(i), g(i))
    v.run(th, post)


@contract("forcepho.model:SlowPosterior.evaluate")
def slow_evaluate_fault(v):
    n = v.int("n", lo=1)
    z1, z0, g0, L0 = v.arr("z1", (n,)), v.arr("z0", (n,)), v.arr("g0", (n,)), v.real("L0")
    box = {}

    def th():
        def boom(*a, **k):
            raise PyRaise("RuntimeError", "likelihood failure")
        o, L, g = slow_obj(v, n, like=boom)
        o.set("_z", z0)
        o.set("_lnp", L0)
        o.set("_lnp_grad", g0)
        box["o"] = o
        v.call(v.method(o, "evaluate"), z1)

    def raises(e):
        o = box["o"]
        i = v.idx("i", n)
        v.eq("key-unchanged", N.as_nd(o.a["_z"]).at(i), z0.at(i))
        v.eq("value-unchanged", scal(o.a["_lnp"]), L0)
        v.eq("grad-unchanged", N.as_nd(o.a["_lnp_grad"]).at(i), g0.at(i))
    v.run(th, lambda r: v.ob("failure-propagates", False), raises)


@contract("forcepho.model:FastPosterior.residuals")
def residuals_frame(v):
    """residual requests use their own parameters and leave the cache alone"""
    w = World(v)
    z0, g0, L0 = v.arr("z0", (w.ndim,)), v.arr("g0", (w.ndim,)), v.real("L0")
    p = v.arr("p", (w.ndim,))

    def th():
        o = w.build(resid=True)
        w.patch.set("return_residual", False)
        for k, x in (("_z", z0), ("_lnp", L0), ("_lnp_grad", g0)):
            o.set(k, x)

        def ev(proposal, patch=None, **k):
            w.log.append(("eval", proposal, patch, patch.a["return_residual"]))
            return (w.chi2, w.der, "RES")
        w.proposer.set("evaluate_proposal", ev)
        return o, v.call(v.method(o, "residuals"), p)

    def post(r):
        o, res = r
        i = v.idx("i", w.ndim)
        ev = [x for x in w.log if x[0] == "eval"]
        v.ob("residuals-requested", len(ev) == 1 and ev[0][3] is True and res == "RES")
        v.ob("flag-restored", w.patch.a["return_residual"] is False)
        st = [x for x in w.log if x[0] == "set"]
        v.eq("scene-at-requested-parameters", N.as_nd(st[-1][1]).at(i), p.at(i))
        v.eq("key-unchanged", N.as_nd(o.a["_z"]).at(i), z0.at(i))
        v.eq("value-unchanged", scal(o.a["_lnp"]), L0)
        v.eq("grad-unchanged", N.as_nd(o.a["_lnp_grad"]).at(i), g0.at(i))
    v.run(th, post)


@contract(M + ":LogLikeWithGrad.perform", M + ":LogLikeWithGrad.grad", M + ":ModelGradOp.perform")
def tensor_operations(v):
    """the wrapped posterior: the operation's output is the model's value, its gradient the model's gradient, both at the given position"""
    n = v.int("n", lo=1)
    z, g, L, w = v.arr("z", (n,)), v.arr("g", (n,)), v.real("L"), v.real("w")
    at = {}

    def th():
        at.clear()
        def lnprob(x):
            at["value"] = N.snap(N.as_nd(x))
            return L

        def lnprob_grad(x):
            at["grad"] = N.snap(N.as_nd(x))
            return g
        model = S.Obj(None, "model", lnprob=lnprob, lnprob_grad=lnprob_grad)
        op, dop = v.call(M + ":LogLikeWithGrad", model), v.call(M + ":ModelGradOp", model)
        o1, o2 = S.SList([S.SList([None])]), S.SList([S.SList([None])])
        v.call(v.method(op, "perform"), None, S.SList([z]), o1)
        v.call(v.method(dop, "perform"), None, S.SList([z]), o2)

        ge = op.a["GradObj"]

        def apply(x):           # what the tensor library does when an operation is applied
            out = S.SList([S.SList([None])])
            v.call(v.method(ge, "perform"), None, S.SList([x]), out)
            return out.v[0].v[0]
        op.a["GradObj"] = apply
        o3 = v.call(v.method(op, "grad"), S.SList([z]), S.SList([w]))
        op.a["GradObj"] = ge
        return o1.v[0].v[0], o2.v[0].v[0], o3.v[0]

    def post(r):
        i = v.idx("i", n)
        v.eq("value", scal(r[0]), L)
        v.eq("value-position", at["value"](i), z.at(i))
        v.eq("gradient", N.as_nd(r[1]).at(i), g.at(i))
        v.eq("gradient-position", at["grad"](i), z.at(i))
        v.eq("chain-rule", N.as_nd(r[2]).at(i), w * g.at(i))
    v.run(th, post)
