"""P18: linear flux optimisation returns the weighted least-squares fluxes."""
from ve.spec import *

M = "forcepho.fitting"
TRUSTED = ["numpy.linalg.solve(A, b) returns x with A x = b, or raises LinAlgError when A is singular",
           "the design matrix contract is P14's; split_band contract is P12's"]


def one(fixed):
    def body(v):
        """normal equations of the weighted problem; minimality of the chi-square; inputs kept"""
        ns, npx = v.int("ns", lo=1), v.int("npix", lo=1)
        X0, w0, y0, F0 = (N.snap(v.arr(*a)) for a in (("X", (ns, npx)), ("w", (npx,)), ("y", (npx,)), ("F", (npx,))))
        X, w, y, F = N.mk_nd((ns, npx), X0, "real"), N.mk_nd((npx,), w0, "real"), N.mk_nd((npx,), y0, "real"), N.mk_nd((npx,), F0, "real")
        sol = v.arr("solution", (ns, 1))
        given = {}

        def solve(I, A, b):
            A, b = N.as_nd(A), N.as_nd(b)
            given["A"], given["b"] = A, b
            v.is_shape("matrix-shape", A, (ns, ns))
            v.eq("as-many-right-hand-sides", b.shape[0], ns)
            return N.mk_nd(b.shape, lambda i, *j: sol.at(i, 0), "real")
        v.stub("numpy.linalg:solve", solve)
        kw = {"fixedX": F} if fixed else {}

        def th():
            return v.call(M + ":optimize_one_band", X, w, y, **kw)

        def post(r):
            flux, prec = r
            i, j, k = v.idx("i", ns), v.idx("j", ns), v.idx("k", npx)
            data = lambda k: y0(k) - F0(k) if fixed else y0(k)
            want = T.mk_sum(0, npx, lambda k: (X0(i, k) * w0(k)) * (X0(j, k) * w0(k)))
            rhs = T.mk_sum(0, npx, lambda k: (X0(i, k) * w0(k)) * (data(k) * w0(k)))
            v.is_shape("precision-shape", prec, (ns, ns))
            v.is_shape("flux-shape", N.as_nd(flux), (ns, 1))
            v.eq("precision-is-weighted-normal-matrix", prec.at(i, j), want)
            if given:
                A, b = given["A"], given["b"]
                bi = b.at(i, *[0] * (b.ndim - 1))
                v.assume(T.mk_sum(0, ns, lambda j: A.at(i, j) * sol.at(j, 0)) == bi)
            fl = N.as_nd(flux)
            f = lambda i: fl.at(i, 0)
            v.eq("normal-equations", T.mk_sum(0, ns, lambda j: T.mk_sum(0, npx, lambda k: (X0(i, k) * w0(k)) * (X0(j, k) * w0(k))) * f(j)), rhs)
            # minimality: chi2(f + d) - chi2(f) is a weighted sum of squares minus twice d . (b - A f), which vanishes
            d = N.snap(v.arr("d", (ns,)))
            model = lambda g, k: T.mk_sum(0, ns, lambda m: g(m) * X0(m, k))
            chi = lambda g: T.mk_sum(0, npx, lambda k: ((data(k) - model(g, k)) * w0(k)) * ((data(k) - model(g, k)) * w0(k)))
            step = T.mk_sum(0, npx, lambda k: (model(d, k) * w0(k)) * (model(d, k) * w0(k)))
            cross = T.mk_sum(0, npx, lambda k: ((data(k) - model(f, k)) * w0(k)) * (model(d, k) * w0(k)))
            v.note("sum_k (y - X f)_k w_k^2 (X d)_k = d . (b - A f) = 0 by interchange of finite sums (lemma, used for minimality; machine checked at 2 sources x 3 pixels)")
            v.eq("excess-is-a-sum-of-squares", chi(lambda m: f(m) + d(m)) - chi(f), step - 2 * cross)
            v.eq("X-kept", X.at(i, k), X0(i, k))
            v.eq("w-kept", w.at(k), w0(k))
            v.eq("y-kept", y.at(k), y0(k))
            v.eq("fixed-kept", F.at(k), F0(k))
        v.run(th, post)
    body.__name__ = "one_band" + ("_fixed" if fixed else "")
    return body


for _f in (False, True):
    contract(M + ":optimize_one_band")(one(_f))


@contract(M + ":optimize_one_band", bounded=True)
def minimal(v):
    """no other fluxes give a smaller chi-square (two sources, three pixels: the general statement is the textbook lemma)"""
    ns, npx = 2, 3
    X, w, y = v.arr("X", (ns, npx)), v.arr("w", (npx,)), v.arr("y", (npx,))
    sol = v.arr("solution", (ns, 1))
    other = [v.real("g0"), v.real("g1")]
    given = {}

    def solve(I, A, b):
        given["A"], given["b"] = N.as_nd(A), N.as_nd(b)
        return N.mk_nd((ns, 1), N.snap(sol), "real")
    v.stub("numpy.linalg:solve", solve)

    def th():
        return v.call(M + ":optimize_one_band", X, w, y)

    def post(r):
        flux, prec = N.as_nd(r[0]), r[1]
        f = [flux.at(i, 0) for i in range(ns)]
        A, b = given["A"], given["b"]
        chi = lambda g: sum(((y.at(k) - sum(g[i] * X.at(i, k) for i in range(ns))) * w.at(k)) ** 2 for k in range(npx))
        d = [a - c for a, c in zip(other, f)]
        slack = sum((sum(d[i] * X.at(i, k) for i in range(ns)) * w.at(k)) ** 2 for k in range(npx))
        cross = sum(d[i] * (b.at(i, 0) - sum(A.at(i, j) * f[j] for j in range(ns))) for i in range(ns))
        v.eq("excess-is-a-sum-of-squares", chi(other) - chi(f), slack - 2 * cross)
    v.run(th, post)


def bands(allr):
    def body(v):
        """every band in band order gets its own weights, design and data; fluxes are one-dimensional"""
        nb, ns = v.int("nb", lo=1), v.int("ns", lo=1)
        W, X, Y = (z3.Function(c, T.I, T.I) for c in "wxy")
        tag = lambda f: (lambda i: S.Obj(None, f.name(), code=f(T.to_int(i))))
        ws, Xs, Ys = (S.SList(S.Seq(nb, tag(f))) for f in (W, X, Y))
        FL = z3.Function("flux", T.I, T.I, T.I, T.I, T.R)
        PR = z3.Function("prec", T.I, T.I, T.I, T.I, T.I, T.R)
        seen = {}

        def obb(I, X_, w_, y_, fixedX=0):
            c = [o.a["code"] for o in (X_, w_, y_)]
            return (N.mk_nd((ns, 1), lambda i, j: FL(*c, T.to_int(i)), "real"),
                    N.mk_nd((ns, ns), lambda i, j: PR(*c, T.to_int(i), T.to_int(j)), "real"))
        v.stub(M + ":optimize_one_band", obb)
        active = S.Obj(None, "active")

        def th():
            seen.clear()

            def dm(cat, **k):
                seen["cat"] = cat
                return (Xs, Ys)

            def sb(name):
                seen["split"] = name
                return ws
            p = S.Obj(None, "patcher", design_matrix=dm, split_band=sb)
            return v.call(M + ":optimize_fluxes", p, active, return_all=allr)

        def post(r):
            v.eq("results", len(r), 5 if allr else 2)
            f, p = r[0], r[1]
            v.eq("design-of-the-active-sources", seen["cat"] is active, True)
            v.eq("weights-are-inverse-errors", seen["split"], "ierr")
            v.eq("one-flux-vector-per-band", N.np_len(f), nb)
            v.eq("one-precision-per-band", N.np_len(p), nb)
            b, i, j = v.idx("b", nb), v.idx("i", ns), v.idx("j", ns)
            fb, pb = v.I.getitem(f, b), v.I.getitem(p, b)
            v.is_shape("flux-one-dimensional", fb, (ns,))
            v.eq("flux-of-band", fb.at(i), FL(X(b), W(b), Y(b), i))
            v.is_shape("precision-shape", pb, (ns, ns))
            v.eq("precision-of-band", pb.at(i, j), PR(X(b), W(b), Y(b), i, j))
            if allr:
                v.eq("designs-returned", [r[2] is Xs, r[3] is Ys, r[4] is ws], [True] * 3)
        v.run(th, post)
    body.__name__ = "every_band" + ("_all" if allr else "")
    return body


for _f in (False, True):
    contract(M + ":optimize_fluxes")(bands(_f))


def singular(which):
    def body(v):
        """a singular band is reported (index and error), no fluxes are returned"""
        ns = v.int("ns", lo=1)
        ws, Xs, Ys = (S.SList([S.Obj(None, f"{c}{k}") for k in range(3)]) for c in "wxy")
        FL = v.arr("fl", (ns, 1))

        def obb(I, X_, w_, y_, fixedX=0):
            if X_.name == f"x{which}":
                raise PyRaise("LinAlgError", "Singular matrix")
            return (FL, v.arr("pr", (ns, ns)))
        v.stub(M + ":optimize_one_band", obb)

        def th():
            p = S.Obj(None, "patcher", design_matrix=lambda cat, **k: (Xs, Ys), split_band=lambda name: ws)
            return v.call(M + ":optimize_fluxes", p, S.Obj(None, "active"))

        def post(r):
            v.eq("not-answered-as-fluxes", len(r) != 2, True)
            v.eq("band-reported", r[0], which)
        v.run(th, post)
    body.__name__ = f"singular_band_{which}"
    return body


for _k in range(3):
    contract(M + ":optimize_fluxes", bounded=True)(singular(_k))
