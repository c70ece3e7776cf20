"""P22: written pixel products are restored to their image positions."""
from ve.spec import *

IO, UT, PO, WC = "forcepho.utils.io", "forcepho.utils", "forcepho.postprocess", "forcepho.utils.wcs"
TRUSTED = ["h5py returns what was stored under a name", "pixel positions of one exposure are distinct (property P12)"]
BOUNDED = ["number of exposures: up to 3 (any number of pixels per exposure)"]
NAN = z3.Real("nan")


def pixels(v, tag=""):
    """n stored pixels, some of them padding (negative coordinates); the good ones at distinct positions"""
    n = v.int("n" + tag, lo=1)
    x, y, d = v.arr("xpix" + tag, (n,), "int"), v.arr("ypix" + tag, (n,), "int"), v.arr("data" + tag, (n,))
    good = lambda i: z3.And(x.at(i) >= 0, y.at(i) >= 0)
    i, j = z3.Ints("pi pj")
    v.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, good(i), good(j)), z3.Or(x.at(i) != x.at(j), y.at(i) != y.at(j)))))
    return n, x, y, d, good


@contract(UT + ":populate_image")
def populate(v):
    """every good pixel is found at its position relative to the lower edge; the edges are half a pixel outside of the extreme pixels"""
    n, x, y, d, good = pixels(v)
    p = v.idx("p", n)
    v.assume(good(p))

    def th():
        v.I.model_nan = True
        return v.call(UT + ":populate_image", x, y, d)

    def post(r):
        im, lo, hi = r
        for k, c in ((0, x), (1, y)):
            i = v.idx("i", n)
            v.touch(i)
            a, b = lo.at(k), hi.at(k)
            v.ob("edges-contain", z3.Implies(good(i), z3.And(a <= c.at(i) - RV("1/2"), c.at(i) + RV("1/2") <= b)))
            v.eq("size", im.shape[k], b - a)
            L = v.int("L")            # no tighter edge is possible: whatever bounds the good pixels bounds the edge
            with v.I.assuming(v.forall((n,), lambda j: z3.Implies(good(j), c.at(j) >= L))):
                v.ob("lower-edge-is-tight", a + RV("1/2") >= L)
            with v.I.assuming(v.forall((n,), lambda j: z3.Implies(good(j), c.at(j) <= L))):
                v.ob("upper-edge-is-tight", b - RV("1/2") <= L)
        v.touch(p)
        v.eq("value", im.at(T.to_int(N.trunc(x.at(p) - lo.at(0))), T.to_int(N.trunc(y.at(p) - lo.at(1)))), d.at(p))
        a, b = v.idx("a", im.shape[0]), v.idx("b", im.shape[1])
        with v.I.assuming(v.forall((n,), lambda j: z3.Implies(good(j), z3.Or(x.at(j) - lo.at(0) - RV("1/2") != a, y.at(j) - lo.at(1) - RV("1/2") != b)))):
            v.eq("nothing-anywhere-else", im.at(a, b), T.NAN)
    v.run(th, post)


RV = z3.RealVal


class H5:
    """an HDF5 file: groups and datasets by path (contract of h5py)"""
    def __init__(self):
        self.g, self.top, self.mode = {}, {}, None

    def copy(self, x):
        x = S.SList(list(x.v)) if isinstance(x, S.SList) else x
        return N.copy(x) if isinstance(x, S.Nd) else x

    def group(self, path):
        me = S.Obj(None, "group")

        def create(name, data=None, **kw):
            if name in self.g[path]:
                raise PyRaise("ValueError", "name already exists")
            self.g[path][name] = self.copy(data)
        me.set("create_dataset", create)
        me.set("__getitem__", lambda k: self.read(self.g[path], k))
        return me

    def read(self, d, k):
        if k not in d:
            raise PyRaise("KeyError", str(k))
        return d[k]

    def obj(self):
        def create(path):
            if path in self.g:
                raise PyRaise("ValueError", "name already exists")
            self.g[path] = {}
            return self.group(path)

        def get(k):
            if k in self.top:
                return self.top[k]
            if k in self.g:
                return self.group(k)
            raise PyRaise("KeyError", str(k))

        def dataset(name, data=None, **kw):
            self.top[name] = self.copy(data)
        me = S.Obj(None, "h5file", create_group=create, create_dataset=dataset)
        me.set("__getitem__", get)
        me.set("__enter__", lambda: me)
        me.set("__exit__", lambda *a: None)
        return me


ATTRS = ["data", "xpix", "ypix", "ierr"]
METAS = ["D", "CW", "crpix", "crval"]


def writing(paths, bands, resid):
    def body(v):
        """each exposure has its own data, residuals, weights, coordinates and astrometry, and they are read back from the file"""
        F = z3.Function
        n = [v.int(f"n{i}", lo=1) for i in range(len(paths))]
        m = [v.int(f"m{i}", lo=1) for i in range(len(paths))]
        ref = v.arr("ref", (2,))
        pix = lambda a, i: N.mk_nd((n[i],), lambda k: F(f"{a}_{i}", T.I, T.I if a in ("xpix", "ypix") else T.R)(T.to_int(k)), "int" if a in ("xpix", "ypix") else "real")
        meta = lambda a, i: N.mk_nd((m[i], 2), lambda k, l: F(f"{a}_{i}", T.I, T.I, T.R)(T.to_int(k), T.to_int(l)), "real")
        L = len(paths)

        def th():
            h5 = H5()
            v.stub("h5py:File", lambda I, name, mode="r", **k: h5.obj())
            p = S.Obj(None, "patch", epaths=S.SList(list(paths)), bands=S.SList(list(bands)), bandlist=S.SList(sorted(set(bands))),
                      patch_reference_coordinates=ref, split_pix=lambda a: S.SList([pix(a, i) for i in range(L)]),
                      **{a: S.SList([meta(a, i) for i in range(L)]) for a in METAS})
            v.call(IO + ":write_residuals", p, "r.h5", residuals=S.SList([pix("residual", i) for i in range(L)]) if resid else None)
            return h5, v.call(PO + ":Residuals", "r.h5")

        def post(r):
            h5, R = r
            v.eq("exposures", v.I.to_pylist(R.a["exposures"]), list(paths))
            v.eq("bands", v.I.to_pylist(R.a["ebands"]), list(bands))
            for k in (0, 1):
                v.eq("reference", R.a["reference_coordinates"].at(k), ref.at(k))
            for i, e in enumerate(paths):
                g = h5.g.get(e, {})
                v.eq("datasets", sorted(g), sorted(ATTRS + METAS + (["residual"] if resid else [])))
                for a in ATTRS + (["residual"] if resid else []):
                    k = v.idx("k", n[i])
                    v.is_shape(a, g[a], (n[i],))
                    v.eq(a, g[a].at(k), pix(a, i).at(k))
                for a in METAS:
                    k, l = v.idx("k", m[i]), v.idx("l", 2)
                    v.eq(a, g[a].at(k, l), meta(a, i).at(k, l))
        v.run(th, post)
    body.__name__ = f"residual_file_{len(paths)}{'' if resid else '_data_only'}"
    return body


for _p, _b in ((["F1/a"], ["F1"]), (["F1/b", "F1/a"], ["F1", "F1"]), (["F1/a", "F1/b", "F2/a"], ["F1", "F1", "F2"])):
    for _r in (True, False):
        contract(IO + ":write_residuals", IO + ":make_imset", PO + ":Residuals.__init__", bounded=True)(writing(_p, _b, _r))


def filling(prior, value):
    def body(v):
        """the image of an exposure holds each stored value at its pixel; everything else is as before (unset in a new image); other images
        are untouched"""
        n, x, y, d, good = pixels(v)
        nx, ny = v.int("nx", lo=1), v.int("ny", lo=1)
        i = z3.Int("bi")
        v.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(x.at(i) < nx, y.at(i) < ny))))
        was, other = v.arr("was", (nx, ny)), v.arr("other", (nx, ny))
        w0, o0 = N.snap(was), N.snap(other)
        p = v.idx("p", n)
        v.assume(good(p))

        def th():
            v.I.model_nan = True
            ims = {"F1/z": N.mk_nd((nx, ny), o0, "real")}
            if prior:
                ims["F1/a"] = N.mk_nd((nx, ny), w0, "real")
            hdr = S.SDict({"NAXIS1": nx, "NAXIS2": ny})
            ms = S.Obj(None, "metastore", headers=S.SDict({"F1": S.SDict({"a": hdr})}))
            junk = v.arr("junk", (n,))
            h = S.SDict({"F1/a": S.SDict({"xpix": x, "ypix": y, value: d, ("data" if value != "data" else "residual"): junk})})
            R = v.obj(PO + ":Residuals", exposures=S.SList(["F1/a"]), handle=h)
            return v.call(v.method(R, "fill_images"), images=S.SDict(ims), headers=S.SDict({}), fill_type=value, metastore=ms)

        def post(r):
            im, oth = r[0].d["F1/a"], r[0].d["F1/z"]
            v.is_shape("shape", im, (nx, ny))
            v.touch(p)
            v.eq("value", im.at(x.at(p), y.at(p)), d.at(p))
            a, b = v.idx("a", nx), v.idx("b", ny)
            v.eq("other-image", oth.at(a, b), o0(a, b))
            with v.I.assuming(v.forall((n,), lambda j: z3.Implies(good(j), z3.Or(x.at(j) != a, y.at(j) != b)))):
                v.eq("nothing-anywhere-else", im.at(a, b), w0(a, b) if prior else T.NAN)
        v.run(th, post)
    body.__name__ = f"fill_{'prior' if prior else 'new'}_{value}"
    return body


for _q in (True, False):
    for _v in ("residual", "data"):
        contract(PO + ":Residuals.fill_images")(filling(_q, _v))


def cutout(named):
    def body(v):
        """the cut-out of an exposure is the image of its own pixels and of the requested value"""
        n = v.int("n", lo=1)
        F = z3.Function
        A = lambda e, a: N.mk_nd((n,), lambda k: F(f"{a}_{e}", T.I, T.R)(T.to_int(k)), "real")
        box = {}

        def th():
            def pop(I, x, y, data):
                box.update(x=x, y=y, d=data)
                return "image", "lo", "hi"
            v.stub(UT + ":populate_image", pop)
            v.stub(PO + ":populate_image", pop)
            h = S.SDict({e: S.SDict({a: A(e, a) for a in ("xpix", "ypix", "data", "residual")}) for e in ("F1/a", "F1/b")})
            R = v.obj(PO + ":Residuals", exposures=S.SList(["F1/a", "F1/b"]), handle=h)
            return v.call(v.method(R, "make_exp"), **(dict(exp="F1/b") if named else dict(e=1)), value="residual")

        def post(r):
            k = v.idx("k", n)
            v.eq("result", r, ("image", "lo", "hi"))
            for nm, a in (("x", "xpix"), ("y", "ypix"), ("d", "residual")):
                v.eq(a, box[nm].at(k), F(f"{a}_F1/b", T.I, T.R)(k))
        v.run(th, post)
    body.__name__ = "cutout_" + ("named" if named else "numbered")
    return body


for _x in (True, False):
    contract(PO + ":Residuals.make_exp")(cutout(_x))


def astrometry(per_source):
    def body(v):
        """pixel positions from the stored solution: CW (sky - crval - reference) + crpix, with the source's own solution when there is one per source"""
        n = v.int("n", lo=2)
        m = n if per_source else 1
        ra, dec, ref = v.arr("ra", (n,)), v.arr("dec", (n,)), v.arr("ref", (2,))
        CW, cv, cp = v.arr("CW", (m, 2, 2)), v.arr("crval", (m, 2)), v.arr("crpix", (m, 2))

        def th():
            return v.call(WC + ":sky_to_pix", ra, dec, exp=S.SDict({"crval": cv, "crpix": cp, "CW": CW}), ref_coords=ref)

        def post(r):
            v.is_shape("shape", r, (n, 2))
            s = v.idx("s", n)
            q = s if per_source else 0
            for k in (0, 1):
                e = cp.at(q, k)
                for l, w in ((0, ra), (1, dec)):
                    e = e + CW.at(q, k, l) * (w.at(s) - cv.at(q, l) - ref.at(l))
                v.eq("pixel", r.at(s, k), e)
        v.run(th, post)
    body.__name__ = "sky_to_pix_" + ("per_source" if per_source else "common")
    return body


for _x in (True, False):
    contract(WC + ":sky_to_pix")(astrometry(_x))


@contract(IO + ":write_to_disk")
def to_disk(v):
    """the samples are written; the residuals, if requested, are the ones given or else those of the last position of the chain, with the
    patch of the model"""
    nt, m = v.int("n_iter", lo=1), v.int("n_dim", lo=1)
    chain = v.arr("chain", (nt, m))
    for given in (True, False):
        for wanted in (True, False, None):
            log = {}

            def th():
                log.clear()
                log.update(dump=[], write=[], query=[])
                v.stub("json:dumps", lambda I, x, **k: "{}")
                patch, res, mine = S.Obj(None, "patch"), S.Obj(None, "residual"), S.Obj(None, "given")
                log.update(patch=patch, res=res, mine=mine)

                def residuals(q, *a, **k):
                    log["query"].append(N.snap(N.as_nd(q)))
                    return res
                model = S.Obj(None, "model", patch=patch, residuals=residuals)
                out = S.Obj(None, "out", chain=chain, dump_to_h5=lambda fn, **k: log["dump"].append(fn))
                cfg = S.Obj(None, "config", **({} if wanted is None else {"write_residuals": wanted}))
                cfg.set("__dict__", S.SDict({}))
                if wanted:
                    v.stub(IO + ":write_residuals", lambda I, p, fn, residuals=None: log["write"].append((p, fn, residuals)))
                v.call(IO + ":write_to_disk", out, "run/p7", model, cfg, **({"residual": mine} if given else {}))
                return log

            def post(r):
                v.eq("samples-written", log["dump"], ["run/p7_samples.h5"])
                v.eq("residual-files", len(log["write"]), 1 if wanted else 0)
                if not wanted:
                    return
                p, fn, x = log["write"][0]
                v.eq("file", fn, "run/p7_residuals.h5")
                v.soft("patch-of-the-model", p is log["patch"])
                v.soft("residuals", x is (log["mine"] if given else log["res"]))
                if not given:
                    v.ob("queried", len(log["query"]) >= 1)
                    k = v.idx("k", m)
                    v.eq("the-last-position", log["query"][-1](k), chain.at(nt - 1, k))
            v.run(th, post)
