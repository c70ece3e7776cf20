"""P19: chains and result files keep source, parameter and sample together."""
from ve.spec import *
from ve import npapi

CH, FI, UT, CA, PO = "forcepho.utils.chain", "forcepho.fitting", "forcepho.utils", "forcepho.utils.catalog", "forcepho.postprocess"
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
TRUSTED = ["littlemcmc.sampling._sample returns the trace (n_dim, n_draws) of positions it visited with their statistics, in order",
           "scipy.optimize.minimize returns a position x and fun = objective(x)",
           "h5py / json / fits round trips: what is stored under a name is read back under it"]
BOUNDED = ["number of bands: 1 to 3 (any number of sources and samples)", "run catalogs: up to 2 patches"]
BANDS = {1: ["F1"], 2: ["Fb", "Fa"], 3: ["F1", "F2", "F3"]}


def text(names, enc):
    if not enc:
        return S.SList(list(names))
    return S.SList([S.Obj(None, "bytes", decode=lambda *a, x=x: x) for x in names])


def active(v, n, cols, tag="act"):
    f = {"source_index": (S.Buf(1, lambda ix: z3.Function(tag + "_index", T.I, T.I)(T.to_int(ix[0])), "int"), ())}
    for c in cols:
        f[c] = (S.Buf(1, lambda ix, c=c: z3.Function(f"{tag}_{c}", T.I, T.R)(T.to_int(ix[0])), "real"), ())
    return S.Rec((n,), f, None, name=tag)


def col(v, r, c):
    return v.I.getitem(r, c)


def chaincat(nb, enc):
    def body(v):
        """sample t of parameter c of source s is chain[t, s * n_param + position of c], sky positions shifted back by the reference"""
        n, nt = v.int("n_source", lo=1), v.int("n_iter", lo=1)
        bands = BANDS[nb]
        m = nb + len(SHAPES)
        chain = v.arr("chain", (nt, n * m))
        ref = v.arr("ref", (2,))

        def th():
            return v.call(CH + ":make_chaincat", chain, text(bands, enc), active(v, n, ["ra"]), ref, shapes=text(SHAPES, enc))

        def post(r):
            v.eq("columns", sorted(r.fields), sorted(["source_index"] + bands + SHAPES))
            v.is_shape("one-row-per-source", r, (n,))
            s, t = v.idx("s", n), v.idx("t", nt)
            v.eq("index", col(v, r, "source_index").at(s), z3.Function("act_index", T.I, T.I)(s))
            for j, c in enumerate(bands + SHAPES):
                x = col(v, r, c)
                v.is_shape(c + "-samples", x, (n, nt))
                off = {"ra": ref.at(0), "dec": ref.at(1)}.get(c, 0)
                v.eq(c, x.at(s, t), chain.at(t, s * m + j) + off)
        v.run(th, post)
    body.__name__ = f"chain_catalog_{nb}{'_bytes' if enc else ''}"
    return body


for _n in BANDS:
    for _e in (False, True):
        contract(CH + ":make_chaincat", bounded=True)(chaincat(_n, _e))


@contract(CH + ":make_chaincat", bounded=True)
def chain_of_another_size(v):
    """a chain that does not have one block of parameters per active source is refused"""
    n, nt, w = v.int("n_source", lo=1), v.int("n_iter", lo=1), v.int("width", lo=1)
    m = 2 + len(SHAPES)
    v.assume(w != n * m)
    chain = v.arr("chain", (nt, w))
    v.run(lambda: v.call(CH + ":make_chaincat", chain, text(BANDS[2], False), active(v, n, ["ra"]), v.arr("ref", (2,)), shapes=text(SHAPES, False)),
          lambda r: v.ob("refused", False), raises=lambda e: v.ob("refused-with-an-error", e.etype in ("AssertionError", "ValueError")))


def chain_rec(v, n, nt, cols):
    f = {"source_index": (S.Buf(1, lambda ix: z3.Function("cc_index", T.I, T.I)(T.to_int(ix[0])), "int"), ())}
    for c in cols:
        f[c] = (S.Buf(2, lambda ix, c=c: z3.Function(f"cc_{c}", T.I, T.I, T.R)(T.to_int(ix[0]), T.to_int(ix[1])), "real"), (nt,))
    return S.Rec((n,), f, None, name="chaincat")


def sample(kind):
    def body(v):
        """the catalog of one sample: chain values of that iteration for the columns of the chain, the active values elsewhere; the active
        catalog itself is unchanged"""
        n, nt = v.int("n_source", lo=1), v.int("n_iter", lo=1)
        it = v.idx("it", nt) if kind == "any" else -1
        cc, act = chain_rec(v, n, nt, ["F1", "ra"]), active(v, n, ["ra", "F1", "id"])
        act0 = {c: N.snap(col(v, act, c)) for c in ("ra", "F1", "id", "source_index")}

        def th():
            return v.call(CH + ":get_sample_cat", cc, it, act)

        def post(r):
            s = v.idx("s", n)
            v.is_shape("rows", r, (n,))
            at = it if kind == "any" else nt - 1
            for c in ("ra", "F1"):
                v.eq(c, col(v, r, c).at(s), col(v, cc, c).at(s, at))
            v.eq("index", col(v, r, "source_index").at(s), col(v, cc, "source_index").at(s))
            v.eq("not-in-the-chain", col(v, r, "id").at(s), act0["id"](s))
            for c, f in act0.items():
                v.eq("active-unchanged-" + c, col(v, act, c).at(s), f(s))
        v.run(th, post)
    body.__name__ = "sample_" + kind
    return body


for _k in ("any", "last"):
    contract(CH + ":get_sample_cat")(sample(_k))


@contract(FI + ":Result.get_map", FI + ":Result.get_sample_cat")
def best(v):
    """the highest-probability sample is a sample of the chain that no other sample beats, in both forms"""
    n, nt, m = v.int("n_source", lo=1), v.int("n_iter", lo=1), v.int("n_dim", lo=1)
    chain, lnp = v.arr("chain", (nt, m)), v.arr("lnp", (nt,))
    cc, act = chain_rec(v, n, nt, ["F1", "ra"]), active(v, n, ["ra", "F1", "id"])

    def th():
        o = v.obj(FI + ":Result", chain=chain, chaincat=cc, active=act, stats=S.SDict({"model_logp": lnp}))
        return v.call(v.method(o, "get_map")), v.call(v.method(o, "get_map"), structured=True)

    def post(r):
        E = [e[0] for key, e in v.I.extrema.items() if key[0] == "argmax"]
        if not E:
            raise T.Unsupported("the chosen sample is not the index of a largest value")
        w = E[-1]
        t, k, s = v.idx("t", nt), v.idx("k", m), v.idx("s", n)
        v.ob("no-sample-is-better", lnp.at(t) <= lnp.at(w))
        v.is_shape("vector-shape", r[0], (1, m))
        v.eq("vector", r[0].at(0, k), chain.at(w, k))
        for c in ("F1", "ra"):
            v.eq("catalog-" + c, col(v, r[1], c).at(s), col(v, cc, c).at(s, w))
        v.eq("catalog-id", col(v, r[1], "id").at(s), col(v, act, "id").at(s))
    v.run(th, post)


@contract(UT + ":extract_block_diag")
def blocks(v):
    """block s holds the covariances of the parameters of source s"""
    n, m = v.int("n_source", lo=1), v.int("n_param", lo=1)
    a = v.arr("cov", (n * m, n * m))

    def post(r):
        v.is_shape("shape", r, (n, m, m))
        s, i, j = v.idx("s", n), v.idx("i", m), v.idx("j", m)
        v.eq("block", r.at(s, i, j), a.at(s * m + i, s * m + j))
    v.run(lambda: v.call(UT + ":extract_block_diag", a, m), post)


@contract(UT + ":extract_block_diag")
def off_diagonal_blocks(v):
    """k > 0: block s holds the covariances of the parameters of source s with those of source s + k (k < 0: s - k with s)"""
    n, m, k = v.int("n_source", lo=1), v.int("n_param", lo=1), v.int("k")
    a = v.arr("cov", (n * m, n * m))
    v.assume(k < n)
    v.assume(k > -n)
    pos = ite(cmp(">", k, 0), k, 0)
    neg = ite(cmp("<", k, 0), -k, 0)

    def post(r):
        s, i, j = v.idx("s", n - pos - neg), v.idx("i", m), v.idx("j", m)
        v.eq("block", r.at(s, i, j), a.at((s + neg) * m + i, (s + pos) * m + j))
    v.run(lambda: v.call(UT + ":extract_block_diag", a, m, k), post)


PHI = z3.Function("to_constrained", T.I, T.R, T.R)
PHINV = z3.Function("to_unconstrained", T.I, T.R, T.R)


def transform(v):
    def elementwise(f):
        def g(x):
            nd, h = N.as_nd(x), N.snap(N.as_nd(x))
            return N.mk_nd(nd.shape, lambda *ix: f(T.to_int(ix[-1]), T.to_real(h(*ix))), "real")
        return g
    return S.Obj(None, "transform", transform=elementwise(PHI), inverse_transform=elementwise(PHINV))


def optimizing(fn, jac, tr):
    def body(v):
        """reported: the optimum in the constrained space, with the log-probability of that position"""
        m = v.int("n_dim", lo=1)
        q, x = v.arr("q", (m,)), v.arr("x", (m,))
        ndof, lnp, grad = v.real("ndof"), v.real("lnp_at_x"), v.arr("grad", (m,))
        v.assume(ndof > 0)
        q0 = N.snap(q)
        box = {}

        def th():
            box.clear()
            def two(z):
                box["at"] = z
                return -lnp / ndof, grad

            def one(z):
                box["at"] = z
                return -lnp / ndof
            model = S.Obj(None, "model", transform=transform(v) if tr else None, nll=two, nll_nograd=one, ndof=ndof, ncall=7)

            def minimize(I, f, x0, jac=None, **kw):
                # what the minimiser sees at x: the value, with its gradient exactly when jac is on
                r = I.call(f, [x], {})
                ok = isinstance(r, tuple) and r[1] is grad if jac else not isinstance(r, (tuple, S.SList))
                box["start"], box["objective"], box["value"] = x0, ok, r[0] if jac and ok else r
                return S.Obj(None, "scires", x=x, fun=-lnp / ndof, jac=x, message="done")
            v.stub("scipy.optimize:minimize", minimize)
            return v.call(FI + ":" + fn, model, q, jac=jac)

        def post(r):
            res = r[0].a
            k = v.idx("k", m)
            v.ob("objective-form", box["objective"])
            v.eq("objective-position", box["at"].at(k), x.at(k))
            v.eq("objective-value", box["value"], -lnp / ndof)
            v.eq("started-at-q", box["start"].at(k), PHINV(k, q0(k)) if tr else q0(k))
            v.is_shape("one-sample", res["chain"], (1, m))
            v.eq("optimum", res["chain"].at(0, k), PHI(k, x.at(k)) if tr else x.at(k))
            v.eq("log-probability", res["lnp"], lnp)
            v.eq("starting-position", res["starting_position"].at(k), q0(k))
            v.eq("ndim", res["ndim"], m)
            v.eq("caller-vector-unchanged", q.at(k), q0(k))
        v.run(th, post)
    body.__name__ = f"{fn}_{'jac' if jac else 'nojac'}_{'transform' if tr else 'plain'}"
    return body


for _f in ("run_opt", "run_opt_bounded"):
    for _j in (True, False):
        for _t in (True, False):
            contract(FI + ":" + _f)(optimizing(_f, _j, _t))


def sampling(tr):
    def body(v):
        """sample t of the chain is the t-th visited position in the constrained space"""
        m, nt, tune = v.int("n_dim", lo=1), v.int("n_draw", lo=1), v.int("n_tune", lo=0)
        q, trace = v.arr("q", (m,)), v.arr("trace", (m, nt))
        q0 = N.snap(q)
        box = {}
        stats = S.SList([])
        lp = v.real("lp")

        def th():
            def f(z):
                return lp, z
            model = S.Obj(None, "model", transform=transform(v) if tr else None, lnprob_and_grad=f, ncall=7)
            v.stub("littlemcmc:NUTS", lambda I, **kw: S.Obj(None, "step", target=kw["logp_dlogp_func"]))
            v.stub(FI + ":get_pot", lambda I, *a, **kw: S.Obj(None, "potential"))
            v.stub("warnings:filterwarnings", lambda I, *a, **kw: None)

            def one(I, logp_dlogp_func=None, model_ndim=None, start=None, step=None, draws=None, tune=None, **kw):
                a, b = I.call(logp_dlogp_func, [start], {}), I.call(step.a["target"], [start], {})
                box.update(f=(a, b), nd=model_ndim, start=start, draws=draws, tune=tune)
                return trace, stats
            v.stub("littlemcmc.sampling:_sample", one)
            return v.call(FI + ":run_lmc", model, q, nt, warmup=S.SList([tune]))

        def post(r):
            res = r[0].a
            k, t = v.idx("k", m), v.idx("t", nt)
            for a in box["f"]:
                v.eq("target", a[0], lp)
                v.eq("target-gradient", a[1].at(k), box["start"].at(k))
            v.eq("draws", [box["draws"], box["tune"], box["nd"]], [nt, tune, m])
            v.eq("started-at-q", box["start"].at(k), PHINV(k, q0(k)) if tr else q0(k))
            v.is_shape("shape", res["chain"], (nt, m))
            v.eq("samples", res["chain"].at(t, k), PHI(k, trace.at(k, t)) if tr else trace.at(k, t))
            v.eq("starting-position", res["starting_position"].at(k), q0(k))
            v.ob("statistics", r[2] is stats)
        v.run(th, post)
    body.__name__ = "run_lmc_" + ("transform" if tr else "plain")
    return body


for _t in (True, False):
    contract(FI + ":run_lmc")(sampling(_t))


@contract(FI + ":run_dynesty")
def nested(v):
    """the sampler is given the model's log-probability on the box between the limits, and its samples are reported with their own likelihoods"""
    m, nt = v.int("n_dim", lo=1), v.int("n_sample", lo=1)
    q, lo, hi = v.arr("q", (m,)), v.arr("lower", (m,)), v.arr("upper", (m,))
    samples, logl = v.arr("samples", (nt, m)), v.arr("logl", (nt,))
    u = v.arr("unit", (m,))
    lp, nlive = v.real("lp"), v.int("nlive", lo=2)
    box = {}

    def th():
        def f(z):
            box["at"] = z
            return lp
        model = S.Obj(None, "model", lnprob=f, ncall=7)

        def sampler(I, loglike, prior_transform, ndim, **kw):
            box["prior"] = I.call(prior_transform, [u], {})
            box["value"], box["ndim"] = I.call(loglike, [q], {}), ndim
            return S.Obj(None, "sampler", run_nested=lambda **kw: None, results=S.SDict({"samples": samples, "logl": logl}))
        v.stub("dynesty:DynamicNestedSampler", sampler)
        return v.call(FI + ":run_dynesty", model, q, lower=lo, upper=hi, nlive=nlive)

    def post(r):
        res = r[0].a
        k, t = v.idx("k", m), v.idx("t", nt)
        v.eq("prior-box", box["prior"].at(k), lo.at(k) + u.at(k) * (hi.at(k) - lo.at(k)))
        v.eq("target", box["value"], lp)
        v.eq("target-position", box["at"].at(k), q.at(k))
        v.eq("ndim", [res["ndim"], box["ndim"]], [m, m])
        v.is_shape("shape", res["chain"], (nt, m))
        v.eq("samples", res["chain"].at(t, k), samples.at(t, k))
        v.is_shape("lnp-shape", res["lnp"], (nt,))
        v.eq("log-probability", res["lnp"].at(t), logl.at(t))
        v.eq("limits", [res["lower"].at(k), res["upper"].at(k)], [lo.at(k), hi.at(k)])
    v.run(th, post)


@contract(FI + ":run_pymc3", bounded=True)
def pymc(v):
    """column k of the chain holds the samples of the k-th parameter of the scene, drawn between its own limits"""
    nt = v.int("n_sample", lo=1)
    for m in (1, 2, 3):
        q, lo, hi = v.arr(f"q{m}", (m,)), v.arr(f"lower{m}", (m,)), v.arr(f"upper{m}", (m,))
        vals = {f"par{k}": v.arr(f"trace{m}_{k}", (nt,)) for k in range(m)}
        q0 = N.snap(q)
        box = {}

        def th():
            box.clear()
            model = S.Obj(None, "model", scene=S.Obj(None, "scene", parameter_names=S.SList(list(vals))), ncall=7)
            like = lambda x: S.Obj(None, "value", of=x)
            v.stub("forcepho.model:LogLikeWithGrad", lambda I, mod: like)
            v.stub("theano.gof.compilelock:set_lock_status", lambda I, x: None)
            v.stub("theano.tensor:as_tensor_variable", lambda I, x: S.Obj(None, "tensor", of=x))
            v.stub("pymc3:Model", lambda I: S.Obj(None, "context", __enter__=lambda: None, __exit__=lambda *a: None))
            v.stub("pymc3:Uniform", lambda I, nm, lower=None, upper=None: (nm, lower, upper))

            def dens(I, name, f, observed=None):
                box["theta"], box["like"] = observed, I.call(f, [observed.d["v"]], {})
            v.stub("pymc3:DensityDist", dens)

            def draw(I, draws=None, tune=None, **kw):
                box["n"] = (draws, tune)
                return S.Obj(None, "trace", get_values=lambda nm: vals[nm])
            v.stub("pymc3:sample", draw)
            return v.call(FI + ":run_pymc3", model, q, lower=lo, upper=hi, nwarm=11, niter=nt)

        def post(r):
            res = r.a
            t = v.idx("t", nt)
            z0 = box["theta"].d["v"].a["of"]
            z0 = z0.v if isinstance(z0, S.SList) else z0
            v.ob("one-variable-each", len(z0) == m and [z[0] for z in z0] == list(vals))
            v.ob("target", box["like"].a["of"] is box["theta"].d["v"])
            v.eq("draws", list(box["n"]), [nt, 11])
            v.is_shape("shape", res["chain"], (nt, m))
            for k in range(m):
                v.eq(f"limits-{k}", [z0[k][1], z0[k][2]], [lo.at(k), hi.at(k)])
                v.eq(f"samples-{k}", res["chain"].at(t, k), vals[f"par{k}"].at(t))
                v.eq(f"starting-position-{k}", res["starting_position"].at(k), q0(k))
        v.run(th, post)


@contract(CH + ":make_statscat", bounded=True)
def statistics(v):
    """row t holds the statistics of sample t"""
    nt = v.int("n_iter", lo=1)
    lnp, tune = v.arr("lnp", (nt,)), v.arr("tune", (nt,), "bool")

    def th():
        step = S.Obj(None, "step", stats_dtypes=S.SList([S.SDict({"model_logp": N.DT["float64"], "tune": N.DT["bool"]})]))
        stats = S.SList(S.Seq(nt, lambda i: S.SDict({"model_logp": lnp.at(i), "tune": tune.at(i)}), "stats"))
        return v.call(CH + ":make_statscat", stats, step)

    def post(r):
        t = v.idx("t", nt)
        v.is_shape("rows", r, (nt,))
        v.eq("logp", col(v, r, "model_logp").at(t), lnp.at(t))
        v.eq("tune", col(v, r, "tune").at(t), tune.at(t))
    v.run(th, post)


def filling(nb, step, fixed):
    def body(v):
        """the filled result: chain catalog, last sample as the final catalog, covariance block of every source, the patch's own header"""
        n, nt = v.int("n_source", lo=1), v.int("n_iter", lo=1)
        bands = BANDS[nb]
        m = nb + len(SHAPES)
        chain, ref, cov = v.arr("chain", (nt, n * m)), v.arr("ref", (2,)), v.arr("cov", (n * m, n * m))
        var = v.arr("var", (n * m,))
        cols = bands + SHAPES + ["id"]

        def th():
            patch = S.Obj(None, "patch", bandlist=S.SList(list(bands)), patch_reference_coordinates=ref, npix=11, epaths=S.SList(["a", "b"]))
            scene = S.Obj(None, "scene", sources=S.SList([S.Obj(None, "source", SHAPE_COLS=S.SList(list(SHAPES)))]))
            model = S.Obj(None, "model", patch=patch, scene=scene, ncall=5)
            o = v.obj(FI + ":Result", chain=chain)
            kw = {}
            if step:
                kw["step"] = S.Obj(None, "object", potential=S.Obj(None, "object", **({"_cov": cov} if step == "cov" else {"_var": var})))
            region = S.Obj(None, "region")
            region.set("__dict__", S.SDict({"ra": ref.at(0), "dec": ref.at(1), "radius": 3}))
            r = v.call(v.method(o, "fill"), region, active(v, n, cols), active(v, n, cols, "fix") if fixed else None, model, patchID=4, **kw)
            return o, r

        def post(r):
            o, (final, blk) = r
            s, t = v.idx("s", n), v.idx("t", nt)
            A = o.a
            v.eq("header", [A["patchID"], A["npix"], A["nexp"], A["n_call"], A["radius"]], [4, 11, 2, 5, 3])
            for k in (0, 1):
                v.eq("reference", A["reference_coordinates"].at(k), ref.at(k))
            v.eq("final-is-kept", A["final"] is final, True)
            for j, c in enumerate(bands + SHAPES):
                off = {"ra": ref.at(0), "dec": ref.at(1)}.get(c, 0)
                v.eq("chain-" + c, col(v, A["chaincat"], c).at(s, t), chain.at(t, s * m + j) + off)
                v.eq("final-" + c, col(v, final, c).at(s), chain.at(nt - 1, s * m + j) + off)
            v.eq("final-id", col(v, final, "id").at(s), z3.Function("act_id", T.I, T.R)(s))
            v.eq("final-index", col(v, final, "source_index").at(s), z3.Function("act_index", T.I, T.I)(s))
            if fixed:
                v.eq("fixed", col(v, A["fixed"], "ra").at(s), z3.Function("fix_ra", T.I, T.R)(s))
            else:
                v.eq("no-fixed", A["fixed"], None)
            if step:
                i, j = v.idx("i", m), v.idx("j", m)
                v.is_shape("blocks", blk, (n, m, m))
                want = cov.at(s * m + i, s * m + j) if step == "cov" else ite(i == j, var.at(s * m + i), RV(0))
                v.eq("block", blk.at(s, i, j), want)
            else:
                v.eq("no-blocks", blk, None)
        v.run(th, post)
    body.__name__ = f"fill_{nb}_{step or 'nostep'}{'_fixed' if fixed else ''}"
    return body


RV = z3.RealVal
for _n in BANDS:
    for _s, _x in ((None, True), ("cov", False), ("var", True)):
        contract(FI + ":Result.fill", CH + ":make_chaincat", FI + ":Result.get_sample_cat", CH + ":get_sample_cat", UT + ":extract_block_diag", bounded=True)(filling(_n, _s, _x))


class H5:
    """an HDF5 file: named datasets and attributes (contract of h5py); values the format cannot hold are refused"""
    def __init__(self):
        self.data, self.attrs = S.SDict({}), S.SDict({})

    def obj(self, v):
        def create(name, data=None, **kw):
            self.data.d[name] = N.rec_copy(data) if isinstance(data, S.Rec) else N.copy(data) if isinstance(data, S.Nd) else data

        def setattr_(k, x):
            if x is None or isinstance(x, (S.Obj, S.SDict)):
                raise PyRaise("TypeError", "no conversion")
            self.attrs.d[k] = x
        at = S.Obj(None, "attrs", items=lambda: v.I.call(v.I.getattr(self.attrs, "items"), [], {}))
        at.set("__setitem__", setattr_)
        me = S.Obj(None, "h5file", create_dataset=create, attrs=at, items=lambda: v.I.call(v.I.getattr(self.data, "items"), [], {}))
        me.set("__enter__", lambda: me)
        me.set("__exit__", lambda *a: None)
        me.set("__getitem__", lambda k: self.data.d[k])
        return me


@contract(FI + ":Result.dump_to_h5", FI + ":Result.read_from_h5", bounded=True)
def files(v):
    """arrays and attributes come back under their names; attributes that cannot be stored are reported"""
    n, nt, m = v.int("n_source", lo=1), v.int("n_iter", lo=1), v.int("n_dim", lo=1)
    chain, ref, lnp = v.arr("chain", (nt, m)), v.arr("ref", (2,)), v.real("lnp")

    def th():
        h5 = H5()
        v.stub("h5py:File", lambda I, name, mode="r", **k: h5.obj(v))
        v.stub("os:makedirs", lambda I, *a, **k: None)
        o = v.obj(FI + ":Result", chain=chain, reference_coordinates=ref, lnp=lnp, active=active(v, n, ["ra", "id"]), patchID=4, note="abc",
                  fixed=None)
        msgs = v.call(v.method(o, "dump_to_h5"), "out/x.h5")
        back = v.obj(FI + ":Result")
        v.call(v.method(back, "read_from_h5"), "out/x.h5")
        return msgs, back.a

    def post(r):
        msgs, A = r
        v.eq("names", sorted(A), sorted(["chain", "reference_coordinates", "lnp", "active", "patchID", "note"]))
        t, k, s = v.idx("t", nt), v.idx("k", m), v.idx("s", n)
        v.is_shape("chain-shape", A["chain"], (nt, m))
        v.eq("chain", A["chain"].at(t, k), chain.at(t, k))
        v.eq("reference", A["reference_coordinates"].at(1), ref.at(1))
        v.eq("scalars", [A["lnp"], A["patchID"], A["note"]], [lnp, 4, "abc"])
        for c in ("ra", "id"):
            v.eq("active", col(v, A["active"], c).at(s), z3.Function("act_" + c, T.I, T.R)(s))
        v.eq("reported", N.np_len(msgs), 1)
    v.run(th, post)


def run_catalog(npatch):
    def body(v):
        """row i of the run catalog holds the last n_sample samples, probabilities and patch of the patch that fitted source i; the last patch
        of the log wins; rows of sources in no patch have id -1"""
        nt, ntot = v.int("n_sample", lo=1), v.int("n_scene", lo=1)
        burn = v.int("n_burn", lo=0)
        F = z3.Function
        cols = ["F1"] + SHAPES if npatch == 1 else ["F1", "ra"]
        pats = [3, 8][:npatch]
        ns = {p: v.int(f"n{p}", lo=1) for p in pats}
        ind = {p: F(f"ind{p}", T.I, T.I) for p in pats}
        val = {(p, c): F(f"v{p}_{c}", T.I, T.I, T.R) for p in pats for c in cols}
        lnp = {p: v.arr(f"lnp{p}", (burn + nt,)) for p in pats}
        ids = {p: F(f"id{p}", T.I, T.I) for p in pats}
        wall = {p: v.real(f"wall{p}") for p in pats}
        for p in pats:
            i, j = z3.Ints("i j")
            v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ns[p]), z3.And(ind[p](i) >= 0, ind[p](i) < ntot))),
                     z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < ns[p], 0 <= j, j < ns[p], i != j), ind[p](i) != ind[p](j))))
        B = S.Buf

        def samples(I, fn):
            p = int(fn.split("patch")[-1].split("_")[0])
            f = {"source_index": (B(1, lambda ix: ind[p](T.to_int(ix[0])), "int"), ())}
            for c in cols:
                f[c] = (B(2, lambda ix, c=c: val[p, c](T.to_int(ix[0]), T.to_int(ix[1])), "real"), (burn + nt,))
            act = S.Rec((ns[p],), {"id": (B(1, lambda ix: ids[p](T.to_int(ix[0])), "int"), ())}, None, name="active")
            return S.Obj(None, "Samples", bands=S.SList(["F1"]), shape_cols=S.SList(cols[1:]), n_sample=nt, wall_time=wall[p], active=act,
                         chaincat=S.Rec((ns[p],), f, None, name="cc"), stats=S.SDict({"model_logp": lnp[p]}))

        def th():
            v.stub(PO + ":Samples", samples)
            final = S.Rec((ntot,), {"ra": (B(1, lambda ix: z3.RealVal(0), "real"), ())}, None, name="final")
            v.stub(PO + ":run_metadata", lambda I, root: (S.SDict({}), S.SList(list(pats)), S.SDict({}), final))
            return v.call(PO + ":postsample_catalog", "root")

        def post(r):
            v.is_shape("one-row-per-source", r, (ntot,))
            t = v.idx("t", nt)
            for k, p in enumerate(pats):
                s = v.idx(f"s{p}", ns[p])
                i = ind[p](s)
                later = v.forall((ns[pats[1]],), lambda j: ind[pats[1]](j) != i) if k == 0 and npatch == 2 else z3.BoolVal(True)
                with v.I.assuming(later):
                    for c in cols:
                        v.eq(f"{c}-of-patch-{p}", col(v, r, c).at(i, t), val[p, c](s, burn + t))
                    v.eq("lnp", col(v, r, "lnp").at(i, t), lnp[p].at(burn + t))
                    v.eq("id", col(v, r, "id").at(i), ids[p](s))
                    v.eq("patch", col(v, r, "patch_id").at(i), p)
                    v.eq("index", col(v, r, "source_index").at(i), i)
                    v.eq("wall", col(v, r, "wall").at(i), wall[p])
            if npatch == 1:
                g = v.idx("g", ntot)
                with v.I.assuming(v.forall((ns[3],), lambda j: ind[3](j) != g)):
                    v.eq("unfitted", col(v, r, "id").at(g), -1)
        v.run(th, post)
    body.__name__ = f"run_catalog_{npatch}"
    return body


for _p in (1, 2):
    contract(PO + ":postsample_catalog", bounded=True)(run_catalog(_p))


@contract(CA + ":pctile_cat", bounded=True)
def percentiles(v):
    """percentile k of a column of samples is stored at place k of that column and source; other columns are copied"""
    n, nt = v.int("n_source", lo=1), v.int("n_iter", lo=1)
    cc = chain_rec(v, n, nt, ["F1", "ra"])
    PCT = z3.Function("percentile", T.R, T.R, T.R)
    t0 = v.idx("t0", nt)
    qs = [16, 50, 84]

    def pct(I, a, q=None, axis=None):
        q = N.as_nd(q)
        f, g = N.snap(a), N.snap(q)
        if axis not in (-1, 1):
            raise T.Unsupported("percentile along the sources")
        # identified by a generic sample of the row
        return N.mk_nd((q.shape[0], a.shape[0]), lambda k, s: PCT(T.to_real(g(k)), f(s, t0)), "real")

    def th():
        v.stub("numpy:percentile", pct)
        return v.call(CA + ":pctile_cat", cc, percentiles=S.SList(list(qs)))

    def post(r):
        s = v.idx("s", n)
        ecat = r[0]
        v.is_shape("rows", ecat, (n,))
        for c in ("F1", "ra"):
            x = col(v, ecat, c)
            v.is_shape("shape", x, (n, 3))
            for k, q in enumerate(qs):
                v.eq(f"{c}-{q}", x.at(s, k), PCT(z3.RealVal(q), col(v, cc, c).at(s, t0)))
        v.eq("copied", col(v, ecat, "source_index").at(s), col(v, cc, "source_index").at(s))
    v.run(th, post)


def combining(groups):
    def body(v):
        """the combined object of a group: at every sample the sum of the fluxes and the mean of the positions of its members"""
        names = ["7", "3", "11", "20"]
        n, nt = len(names), v.int("n_iter", lo=4)
        cols = ["F1", "F2", "ra", "dec"]
        f = {c: (S.Buf(2, lambda ix, c=c: z3.Function(f"cc_{c}", T.I, T.I, T.R)(T.to_int(ix[0]), T.to_int(ix[1])), "real"), (nt,)) for c in cols}
        at = lambda c, k, t: z3.Function(f"cc_{c}", T.I, T.I, T.R)(k, t)

        def dtype(I, npoint=0, shapes=(), bands=()):     # the name of an object is kept as a number here
            cs = [("id", "<f8"), ("source_index", "<i4"), ("wall", "<f4"), ("lnp_best", "<f8"), ("lnp", "<f8", npoint)]
            return npapi.mk_dtype(I, S.SList(cs + [(c, "<f8", npoint) for c in list(bands.v) + list(shapes.v)]))

        def th():
            v.stub(CA + ":out_dtype", dtype)
            cc = S.Rec((n,), f, None, name="chaincat")
            rows = S.Obj(None, "chaincat", __getitem__=lambda k: S.Obj(None, "ids", tolist=lambda: S.SList(list(names))) if isinstance(k, str) and k == "id"
                         else v.I.getitem(cc, k))
            return v.call(CA + ":combine_chains", rows, S.SList(["F1", "F2"]), groups=S.SDict({g: S.SList(list(m)) for g, m in groups}))

        def post(r):
            o, hdr = r
            t = v.idx("t", nt)
            v.is_shape("one-row-per-group", o, (len(groups),))
            for i, (g, m) in enumerate(groups):
                k = [names.index(str(x)) for x in m]
                for b in ("F1", "F2"):
                    v.eq("flux-is-summed", col(v, o, b).at(i, t), sum((at(b, j, t) for j in k[1:]), at(b, k[0], t)))
                for c in ("ra", "dec"):
                    v.eq("position-is-averaged", col(v, o, c).at(i, t) * len(k), sum((at(c, j, t) for j in k[1:]), at(c, k[0], t)))
                v.eq("members", hdr.d[f"G{g}"], ",".join(str(x) for x in m))
        v.run(th, post)
    body.__name__ = "combined_" + "_".join(str(len(m)) for _, m in groups)
    return body


for _g in (((5, (3, 20)),), ((5, (20, 7)), (9, (11,))), ((1, (7, 3, 11)), (2, (3, 20)))):
    contract(CA + ":combine_chains", bounded=True)(combining(_g))


def multiple(log):
    def body(v):
        """every source fitted in several patches, with these patches in order and its own chain from each of them"""
        nt = v.int("n_iter", lo=1)
        members = {}
        for sid, ps in log:
            for p in ps:
                members.setdefault(p, []).append(sid)
        order = {p: sorted(m, key=lambda s: (s * 7) % 5) for p, m in members.items()}
        val = {p: z3.Function(f"v{p}", T.I, T.I, T.R) for p in order}

        def samples(I, fn):
            p = int(fn.split("patch")[-1].split("_")[0])
            m = order[p]
            f = {"source_index": (S.Buf(1, lambda ix: N.as_nd(list(m)).at(T.to_int(ix[0])), "int"), ()),
                 "ra": (S.Buf(2, lambda ix: val[p](T.to_int(ix[0]), T.to_int(ix[1])), "real"), (nt,))}
            act = S.SDict({"source_index": N.as_nd(list(m))})
            return S.Obj(None, "Samples", active=act, chaincat=S.Rec((len(m),), f, None, name="cc"))

        def th():
            v.stub(PO + ":Samples", samples)
            v.stub(PO + ":run_metadata", lambda I, root: (S.SDict({}), S.SList(sorted(order)), S.SDict({str(s): S.SList(list(p)) for s, p in log}), None))
            return v.call(PO + ":find_multipatch", "root")

        def post(r):
            s, p, c = r
            want = [(sid, ps) for sid, ps in log if len(ps) != 1]
            v.eq("sources", [int(x) for x in s.v], [x for x, _ in want])
            t = v.idx("t", nt)
            v.eq("chains", len(c.v), len(want))
            for k, (sid, ps) in enumerate(want):
                v.eq("patches", [int(x) for x in p.v[k].v], list(ps))
                v.is_shape("one-chain-per-patch", c.v[k], (len(ps),))
                for j, q in enumerate(ps):
                    v.eq("its-own-chain", col(v, c.v[k], "ra").at(j, t), val[q](order[q].index(sid), t))
        v.run(th, post)
    body.__name__ = f"multiple_patches_{len(log)}"
    return body


for _g in (((4, (0,)), (2, (0, 1))), ((0, (1, 2)), (3, (2,)), (1, (0, 2, 1)))):
    contract(PO + ":find_multipatch", bounded=True)(multiple(_g))


@contract(PO + ":flux_unc_linear", bounded=True)
def flux_uncertainties(v):
    """row i of the uncertainty catalog holds, for every source of a patch and band, the larger of the square root of its diagonal element
    of the inverse of that band's precision matrix, and flux over the maximal signal-to-noise; sources in no patch keep the default"""
    n, ntot, nt = v.int("n", lo=1), v.int("n_scene", lo=1), v.int("n_iter", lo=1)
    bands = ["Fb", "Fa"]
    F = z3.Function
    ind = F("ind", T.I, T.I)
    flux = {b: F("flux_" + b, T.I, T.R) for b in bands}
    f0 = {b: F("f0_" + b, T.I, T.R) for b in bands}
    SIG = {b: F("cov_" + b, T.I, T.I, T.R) for b in bands}
    lo, hi = F("lower", T.R, T.R), F("upper", T.R, T.R)
    snr = v.real("snr_max")
    v.assume(snr > 0)
    i, j = z3.Ints("i j")
    v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(ind(i) >= 0, ind(i) < ntot))),
             z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), ind(i) != ind(j))))
    for b in bands:
        v.assume(v.forall((n,), lambda q, b=b: SIG[b](q, q) >= 0))
    B = S.Buf
    P = {b: N.mk_nd((n, n), lambda x, y, b=b: F("prec_" + b, T.I, T.I, T.R)(T.to_int(x), T.to_int(y)), "real") for b in bands}

    def pinv(I, m):
        for b in bands:
            if m is P[b]:
                return N.mk_nd((n, n), lambda x, y: SIG[b](T.to_int(x), T.to_int(y)), "real")
        raise Unsupported("the inverse of another matrix")

    def th():
        v.stub("numpy.linalg:pinv", pinv)
        v.stub("forcepho.superscene:flux_bounds", lambda I, x, s=1, **k: tuple(N.mk_nd(x.shape, lambda *q, g=g, x=N.snap(x): g(x(*q)), "real") for g in (lo, hi)))
        cc = S.Rec((n,), {"source_index": (B(1, lambda ix: ind(T.to_int(ix[0])), "int"), ())}, None, name="cc")
        fin = S.Rec((n,), {b: (B(1, lambda ix, b=b: flux[b](T.to_int(ix[0])), "real"), ()) for b in bands}, None, name="final")
        v.stub(PO + ":Samples", lambda I, fn: S.Obj(None, "Samples", chaincat=cc, final=fin, bands=S.SList(list(bands)), precisions=S.SList([P[b] for b in bands])))
        cat = S.Rec((ntot,), {**{b: (B(1, lambda ix, b=b: f0[b](T.to_int(ix[0])), "real"), ()) for b in bands},
                              "id": (B(1, lambda ix: F("id", T.I, T.I)(T.to_int(ix[0])), "int"), ()),
                              "source_index": (B(1, lambda ix: T.to_int(ix[0]), "int"), ())}, None, name="cat")
        v.stub(PO + ":run_metadata", lambda I, root: (S.SDict({"bandlist": S.SList(list(bands))}), S.SList([3]), S.SDict({}), cat))
        return v.call(PO + ":flux_unc_linear", "root", snr_max=snr)

    def post(r):
        v.is_shape("one-row-per-source", r, (ntot,))
        s, g = v.idx("s", n), v.idx("g", ntot)
        k = ind(s)
        for b in bands:
            a, c = T.sqrt(SIG[b](s, s)), flux[b](s) / snr
            v.eq("uncertainty-" + b, col(v, r, b).at(k), z3.If(a >= c, a, c))
        v.eq("id", col(v, r, "id").at(g), F("id", T.I, T.I)(g))
        v.eq("index", col(v, r, "source_index").at(g), g)
        with v.I.assuming(v.forall((n,), lambda q: ind(q) != g)):
            for b in bands:
                x, y = lo(f0[b](g)) - f0[b](g), hi(f0[b](g)) - f0[b](g)
                ab = lambda t: z3.If(t >= 0, t, -t)
                v.eq("default-" + b, col(v, r, b).at(g), z3.If(ab(x) >= ab(y), ab(x), ab(y)))
    v.run(th, post)
