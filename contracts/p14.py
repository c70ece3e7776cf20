"""P14: subtracting, rendering and design matrices equal the model of the given sources."""
import itertools
from ve.spec import *

DP = "forcepho.patches.device_patch"
TRUSTED = ["kernel contract (P01): an evaluation writes residual = data - sum of the models of the packed sources, and nothing else",
           "pointer contracts (P13): send_to_device / swap_on_device / replace_device_meta_ptrs make the device use the arrays and metadata packed at that time"]
BOUNDED = ["in addition to the unbounded contracts (any number of sources, pixels, exposures; batch limits 1, 2, 3, 15; two bands): "
           "subtract_fixed with up to 7 fixed and 5 big sources, batch limit 1..4, whose failures name an input; "
           "design_matrix with up to 3 sources; render with 2 exposures"]
MODEL = z3.Function("model_pixel", T.I, T.I, T.R)      # (source, pixel)


class World:
    """the device as the contracts of P01 and P13 describe it"""
    def __init__(self, v, npix, cls=DP + ":CPUPatchMixin"):
        self.v, self.npix = v, npix
        self.evals, self.scenes, self.maxrows = [], [], 0
        self.d0 = N.snap(v.arr("data", (npix,)))
        self.w0 = N.snap(v.arr("ierr", (npix,)))
        self.data = N.mk_nd((npix,), self.d0, "real")
        self.o = v.obj(cls, data=self.data, ierr=N.mk_nd((npix,), self.w0, "real"), xpix=v.arr("xpix", (npix,)), _dirty_data=False,
                       return_residual=False, bandlist=S.SList(["F1", "F2"]), patch_reference_coordinates=S.Obj(None, "refcoord"),
                       set_scene=self.set_scene, pack_meta=self.pack, get_proposer=self.get_proposer, send_to_device=self.send,
                       swap_on_device=self.swap, replace_device_meta_ptrs=self.replace, send_patchstruct_to_device=self.sendstruct,
                       packed=None)
        self.dev, self.staged = {}, None

    def set_scene(self, cat, **kw):
        v = self.v
        if isinstance(cat, S.SList):
            rows = [self.rowid(r) for r in cat.v]
        else:
            ids = N.as_nd(v.I.getitem(cat, "id"))
            n = N.np_len(cat)
            rows = [conc(ids.at(k)) for k in range(int(n))]
        s = S.Obj(None, "scene", rows=rows, kw=kw, get_all_source_params=lambda **k: self.v.arr("q", (3,)))
        s.set("get_proposal", lambda active=True: S.Obj(None, "proposal", scene=s) if active else None)
        self.scenes.append(s)
        self.maxrows = max(self.maxrows, len(rows))
        return s

    def rowid(self, r):
        x = self.v.I.getitem(r, "id")
        return conc(x.at() if isinstance(x, S.Nd) else x)

    def pack(self, scene, *a, **k):
        self.staged = scene

    def get_proposer(self):
        return S.Obj(None, "proposer", evaluate_proposal=self.evaluate)

    def send(self):
        self.o.set("residual", N.mk_nd((self.npix,), lambda i: z3.RealVal(0), "real"))
        self.dev = {"data": self.o.a["data"], "residual": self.o.a["residual"], "meta": self.staged, "struct": self.staged}

    def replace(self):
        self.dev["meta"] = self.staged

    def sendstruct(self):
        self.dev["struct"] = self.dev["meta"]

    def swap(self):
        self.dev.update(meta=self.staged, struct=self.staged, data=self.dev["residual"], residual=self.dev["data"])
        a = self.o.a
        d, r = a["data"], a["residual"]
        self.o.set("data", r)
        self.o.set("residual", d)

    def model(self, rows, p):
        return sum([MODEL(r, T.to_int(p)) for r in rows], z3.RealVal(0))

    def evaluate(self, proposal, patch=None, unpack=True, verbose=False):
        v = self.v
        v.ob("kernel-sees-the-metadata-of-the-proposed-scene", self.dev.get("struct") is proposal.a["scene"] and self.dev.get("meta") is proposal.a["scene"])
        v.ob("evaluated-on-this-patch", patch is self.o)
        rows = proposal.a["scene"].a["rows"]
        f = N.snap(self.dev["data"])
        N.setitem(self.dev["residual"], slice(None), N.mk_nd((self.npix,), lambda i: f(i) - self.model(rows, i), "real"))
        self.evals.append(rows)
        if conc(self.o.a["return_residual"]):
            r = N.snap(self.dev["residual"])
            out = N.mk_nd((self.npix,), r, "real")
            return (S.Obj(None, "chi2"), S.Obj(None, "derivs"), self.unpack(out) if unpack else out)
        return (S.Obj(None, "chi2"), S.Obj(None, "derivs"))

    def unpack(self, r):
        return r


def conc(x):
    x = N.conc_of(z3.simplify(x)) if is_z3(x) else x
    return int(x) if not is_z3(x) and not isinstance(x, bool) else x


def catalog(v, n, base, extra=()):
    cols = {"id": N.mk_nd((n,), lambda i: T.to_int(i) + base, "int")}
    for c in extra:
        cols[c] = v.arr(f"cat{base}_{c}", (n,))
    return S.Rec((n,), {k: (x.buf, ()) for k, x in cols.items()}, None, name=f"cat{base}")


def subtracting(nbig, limit):
    def body(v):
        """data becomes data minus every fixed and big source exactly once; the active scene is packed, not subtracted"""
        npix = v.int("npix", lo=1)
        for nfix in (None, *range(1, 8)):
            if nfix is None and not nbig:
                continue
            st = {}

            def th():
                w = st["w"] = World(v, npix)
                fixed = None if nfix is None else catalog(v, nfix, 100)
                big = catalog(v, nbig, 200) if nbig else None
                act = catalog(v, 2, 300)
                r = v.call(v.method(w.o, "subtract_fixed"), fixed, active=act, big=big, maxactive=limit)
                return w, r

            def post(t):
                w, (prop, scene) = t
                p = v.idx("p", npix)
                rows = list(range(100, 100 + (nfix or 0))) + list(range(200, 200 + nbig))
                v.eq("remaining-data", N.as_nd(w.o.a["data"]).at(p), w.d0(p) - w.model(rows, p))
                v.eq("device-data", w.dev["data"].at(p), w.d0(p) - w.model(rows, p))
                v.eq("weights-kept", N.as_nd(w.o.a["ierr"]).at(p), w.w0(p))
                v.eq("active-scene-returned", scene.a["rows"], [300, 301])
                v.ob("active-scene-packed", w.dev["meta"] is scene and w.dev["struct"] is scene)
                v.ob("batches-within-the-limit", all(len(r) <= limit for r in w.evals))
                v.ob("residual-and-data-are-different-arrays", w.dev["data"].buf is not w.dev["residual"].buf)
            v.run(th, post)
    body.__name__ = f"subtract_big{nbig}_limit{limit}"
    return body


for _b in (0, 2, 5):
    for _l in (1, 2, 3, 4):
        contract(DP + ":DevicePatchMixin.subtract_fixed", bounded=True)(subtracting(_b, _l))


PRE = z3.Function("model_of_rows_before", T.I, T.I, T.R)      # prefix sums of MODEL over the rows: PRE(r + 1, p) = PRE(r, p) + MODEL(r, p)
SC, LO, HI = z3.Function("scene_of_rows", T.I, T.I, T.I), z3.Function("first_row", T.I, T.I), z3.Function("end_row", T.I, T.I)


class RangeWorld(World):
    """scenes made of any number of consecutive rows; rows are numbered through: big sources, then fixed ones, then active ones"""
    def __init__(self, v, npix, limit):
        super().__init__(v, npix)
        self.limit = limit
        self.props = S.Fam(None, 0, "proposal")
        self.fam = S.Fam(None, 0, "scene")
        self.fam.attrs["get_proposal"] = ("fn", lambda i: (lambda active=True: self.props.obj(i)))
        self.props.attrs["scene"] = ("fn", lambda i: self.fam.obj(i))

    def need(self, name, g):
        if g is not True and not (is_z3(g) and self.v.I.valid(g)):
            raise Unsupported("not established: " + name)
        self.v.ob(name, g)

    def set_scene(self, cat, **kw):
        I = self.v.I
        if isinstance(cat, S.SList):
            if not (isinstance(cat.v, list) and len(cat.v) == 1):
                raise Unsupported("list of rows")
            lo = T.to_int(self.rowid(cat.v[0]))
            return self.scene(lo, T.simp(lo + 1))
        ids, n = N.as_nd(I.getitem(cat, "id")), T.to_int(N.np_len(cat))
        lo, k = T.to_int(ids.at(0)), T.fresh("row", T.I)
        with I.assuming(0 <= k, k < n):
            if not I.valid(T.to_int(ids.at(k)) == lo + k):
                raise Unsupported("rows of a batch are not consecutive")
        return self.scene(lo, T.simp(lo + n))

    def scene(self, lo, hi):
        c = SC(lo, hi)
        self.v.I.fact(LO(c) == lo, HI(c) == hi)
        return self.fam.obj(c)

    def evaluate(self, proposal, patch=None, unpack=True, verbose=False):
        c = proposal.idx
        for k in ("struct", "meta"):
            self.need("kernel-sees-the-metadata-of-the-proposed-scene", self.dev[k].idx == c)
        self.need("evaluated-on-this-patch", patch is self.o)
        self.need("batch-within-the-limit", HI(c) - LO(c) <= self.limit)
        f = N.snap(self.dev["data"])
        N.setitem(self.dev["residual"], slice(None),
                  N.mk_nd((self.npix,), lambda i: f(i) - (PRE(HI(c), T.to_int(i)) - PRE(LO(c), T.to_int(i))), "real"))
        return (S.Obj(None, "chi2"), S.Obj(None, "derivs"), S.Obj(None, "residual") if unpack else N.mk_nd((self.npix,), N.snap(self.dev["residual"]), "real"))


def subtracting_any(has, limit):
    def body(v):
        """any number of fixed and big sources: the loop over the batches carries the invariant that the data are the original ones
        minus the model of every row before the batch now packed, and that this batch's metadata are the ones on the device"""
        I = v.I
        npix, nb, nf, na = v.int("npix", lo=1), v.int("n_big", lo=1), v.int("n_fixed", lo=1), v.int("n_active", lo=1)
        nb, nf = (nb if "big" in has else z3.IntVal(0)), (nf if "fixed" in has else z3.IntVal(0))
        nblk = lambda n: z3.If(n == 0, 0, (n + (limit - 1)) / limit)
        bb, bf = nblk(nb), nblk(nf)
        low = lambda a, b: z3.If(a < b, a, b)

        def B(k):
            """the first row of batch k"""
            return z3.If(k < bb, limit * k, nb + low(limit * (k - bb), nf))
        st = {}

        def cut(it, run):
            w = st["w"]
            a = w.o.a
            p = T.fresh("p", T.I)
            I.fact(PRE(0, p) == 0)

            def inv(k, tag):
                for d in (a["data"], w.dev["data"]):
                    with I.assuming(0 <= p, p < npix):
                        w.need(tag + "data", N.as_nd(d).at(p) == w.d0(p) - PRE(B(k), p))
                w.need(tag + "two-arrays", w.dev["data"].buf is not w.dev["residual"].buf and a["data"].buf is w.dev["data"].buf
                       and a["residual"].buf is w.dev["residual"].buf)
                for x in ("meta", "struct"):
                    w.need(tag + "batch-on-the-device", z3.And(LO(w.dev[x].idx) == B(k), HI(w.dev[x].idx) == z3.If(k < bb + bf, B(k + 1), nb + nf + na)))

            def put(k):
                d, r = (T.fresh_fun("D", T.I, T.R) for _ in "dr")
                w.o.set("data", N.mk_nd((npix,), lambda i: w.d0(i) - PRE(B(k), T.to_int(i)), "real"))
                w.o.set("residual", N.mk_nd((npix,), lambda i: r(T.to_int(i)), "real"))
                s = w.scene(B(k), z3.If(k < bb + bf, B(k + 1), nb + nf + na))
                w.dev, w.staged = {"data": a["data"], "residual": a["residual"], "meta": s, "struct": s}, s
            inv(z3.IntVal(0), "entry.")
            if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
                k = T.fresh("kiter", T.I)
                I.assume(0 <= k, k < it.n)
                put(k)
                run(k)
                inv(k + 1, "preserved.")
                raise Infeasible()
            put(it.n)
            st["n"] = it.n
            return True

        def th():
            st.clear()
            w = st["w"] = RangeWorld(v, npix, limit)
            big = catalog(v, nb, 0) if "big" in has else None
            fixed = catalog(v, nf, nb) if "fixed" in has else None
            I.cuts = (cut,)
            try:
                return w, v.call(v.method(w.o, "subtract_fixed"), fixed, active=catalog(v, na, nb + nf), big=big, maxactive=limit)
            finally:
                I.cuts = ()

        def post(t):
            w, (prop, scene) = t
            p = v.idx("p", npix)
            I.assume(PRE(0, p) == 0)
            if "n" not in st:
                raise Unsupported("the loop over the batches was not met")
            for nm, d in (("remaining-data", w.o.a["data"]), ("device-data", w.dev["data"])):
                w.need(nm, N.as_nd(d).at(p) == w.d0(p) - PRE(nb + nf, p))
            w.need("weights-kept", N.as_nd(w.o.a["ierr"]).at(p) == w.w0(p))
            w.need("active-scene-returned", z3.And(LO(scene.idx) == nb + nf, HI(scene.idx) == nb + nf + na))
            for x in ("meta", "struct"):
                w.need("active-scene-packed", z3.And(LO(w.dev[x].idx) == nb + nf, HI(w.dev[x].idx) == nb + nf + na))
        v.run(th, post)
    body.__name__ = f"subtract_any_{'_'.join(has)}_limit{limit}"
    return body


for _h in (("big",), ("fixed",), ("big", "fixed")):
    for _l in (1, 2, 3, 15):
        contract(DP + ":DevicePatchMixin.subtract_fixed")(subtracting_any(_h, _l))


@contract(DP + ":DevicePatchMixin.subtract_fixed", bounded=True)
def nothing_to_subtract(v):
    """without fixed or big sources the data are kept; dirty data are refused"""
    npix = v.int("npix", lo=1)

    def th():
        w = World(v, npix)
        return w, v.call(v.method(w.o, "subtract_fixed"), None, active=catalog(v, 2, 300))

    def post(t):
        w, (prop, scene) = t
        p = v.idx("p", npix)
        v.eq("data-kept", N.as_nd(w.o.a["data"]).at(p), w.d0(p))
        v.ob("active-scene-packed", w.dev["meta"] is scene and scene.a["rows"] == [300, 301])
    v.run(th, post)

    def th2():
        w = World(v, npix)
        w.o.set("_dirty_data", True)
        return v.call(v.method(w.o, "subtract_fixed"), catalog(v, 1, 100), active=catalog(v, 2, 300))
    v.run(th2, lambda r: v.ob("dirty-data-refused", False), lambda e: v.eq("assertion", e.etype, "AssertionError"))


def designing(ns):
    def body(v):
        """for each source and band: its own model divided by its flux in that band; data and weights kept"""
        n1, n2 = v.int("n1", lo=1), v.int("n2", lo=1)
        npix = n1 + n2

        def th():
            w = World(v, npix)
            w.o.set("band_N_pix", N.as_nd(S.SList([n1, n2])))
            cat = catalog(v, ns, 100, ("F1", "F2"))
            fl = {b: N.snap(N.as_nd(v.I.getitem(cat, b))) for b in ("F1", "F2")}
            for b in fl:
                for i in range(ns):
                    v.assume(fl[b](i) != 0)
            # something was packed and sent before (precondition: subtract_fixed ran)
            w.pack(w.set_scene(cat))
            w.send()
            w.o.set("return_residual", True)
            return w, cat, fl, v.call(v.method(w.o, "design_matrix"), cat)

        def post(t):
            w, cat, fl, (X, y) = t
            v.eq("bands", [N.np_len(X), N.np_len(y)], [2, 2])
            p = v.idx("p", npix)
            for j, (n, off) in enumerate(((n1, 0), (n2, n1))):
                b = ("F1", "F2")[j]
                x, yy = v.I.getitem(X, j), v.I.getitem(y, j)
                k = v.idx("k", n)
                v.is_shape("design-shape", x, (ns, n))
                v.is_shape("data-shape", yy, (n,))
                v.eq("target-data", yy.at(k), w.d0(off + k))
                for i in range(ns):
                    v.eq("model-over-flux", x.at(i, k), MODEL(100 + i, T.to_int(off + k)) / fl[b](i))
                    v.eq("catalog-kept", N.as_nd(v.I.getitem(cat, b)).at(i), fl[b](i))
            v.eq("data-kept", N.as_nd(w.o.a["data"]).at(p), w.d0(p))
            v.eq("weights-kept", N.as_nd(w.o.a["ierr"]).at(p), w.w0(p))
        v.run(th, post)
    body.__name__ = f"design_{ns}"
    return body


for _n in (1, 2, 3):
    contract(DP + ":DevicePatchMixin.design_matrix", DP + ":CPUPatchMixin.retrieve_array", bounded=True)(designing(_n))


@contract(DP + ":DevicePatchMixin.design_matrix", DP + ":CPUPatchMixin.retrieve_array")
def design_any(v):
    """any number of sources: the loop carries the invariant that the rows of the sources done so far hold their own model over their
    flux, and that the data on the device are untouched"""
    I = v.I
    n1, n2, ns = v.int("n1", lo=1), v.int("n2", lo=1), v.int("n_sources", lo=1)
    npix, st = n1 + n2, {}
    bands = (("F1", n1, 0), ("F2", n2, n1))

    def want(i, k, b, off):
        q = T.to_int(k) + off
        return (PRE(i + 1, q) - PRE(i, q)) / st["fl"][b](i)

    def cut(it, run):
        w = st["w"]
        if not I.valid(T.to_int(it.n) == ns):
            return False
        found = [x.v for e in chain(run.env) for x in e.d.values() if isinstance(x, S.SList) and isinstance(x.v, list) and len(x.v) == 2
                 and all(isinstance(a, S.Nd) and a.ndim == 2 for a in x.v)]
        found = [x for x in found if I.valid(z3.And(*[z3.And(T.to_int(a.shape[0]) == ns, T.to_int(a.shape[1]) == n) for a, (_, n, _o) in zip(x, bands)]))]
        if len(found) != 1:
            raise Unsupported("the design matrices were not found")
        X = st["X"] = found[0]

        def inv(k, tag):
            i, p = T.fresh("i", T.I), T.fresh("p", T.I)
            for x, (b, n, off) in zip(X, bands):
                with I.assuming(0 <= i, i < k, 0 <= p, p < n):
                    w.need(tag + "rows-done", x.at(i, p) == want(i, p, b, off))
            with I.assuming(0 <= p, p < npix):
                w.need(tag + "data", w.dev["data"].at(p) == w.d0(p))
                w.need(tag + "data", N.as_nd(w.o.a["data"]).at(p) == w.d0(p))
            w.need(tag + "two-arrays", w.dev["data"].buf is not w.dev["residual"].buf and w.o.a["data"].buf is w.dev["data"].buf)

        def put(k):
            for x, (b, n, off) in zip(X, bands):
                g = T.fresh_fun("rest", T.I, T.I, T.R)
                N.setitem(x, slice(None), N.mk_nd((ns, n), lambda i, p, b=b, off=off, g=g: z3.If(T.to_int(i) < k, want(T.to_int(i), p, b, off), g(T.to_int(i), T.to_int(p))), "real"))
            r = T.fresh_fun("R", T.I, T.R)
            N.setitem(w.dev["residual"], slice(None), N.mk_nd((npix,), lambda i: r(T.to_int(i)), "real"))
            s = w.scene(T.fresh("lo", T.I), T.fresh("hi", T.I))
            w.staged = w.dev["meta"] = w.dev["struct"] = s
        inv(z3.IntVal(0), "entry.")
        if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
            k = T.fresh("kiter", T.I)
            I.assume(0 <= k, k < ns)
            put(k)
            run(k)
            inv(k + 1, "preserved.")
            raise Infeasible()
        put(ns)
        return True

    def th():
        st.clear()
        w = st["w"] = RangeWorld(v, npix, ns)
        w.o.set("band_N_pix", N.as_nd(S.SList([n1, n2])))
        cat = catalog(v, ns, 0, ("F1", "F2"))
        st["fl"] = {b: N.snap(N.as_nd(v.I.getitem(cat, b))) for b in ("F1", "F2")}
        w.pack(w.set_scene(cat))
        w.send()
        w.o.set("return_residual", True)
        I.cuts = (cut,)
        try:
            return w, cat, v.call(v.method(w.o, "design_matrix"), cat)
        finally:
            I.cuts = ()

    def post(t):
        w, cat, (X, y) = t
        if "X" not in st:
            raise Unsupported("the loop over the sources was not met")
        p, i = v.idx("p", npix), v.idx("i", ns)
        w.need("bands", N.np_len(X) == 2 and N.np_len(y) == 2)
        for j, (b, n, off) in enumerate(bands):
            x, yy, k = I.getitem(X, j), I.getitem(y, j), v.idx("k", n)
            v.is_shape("design-shape", x, (ns, n))
            v.is_shape("data-shape", yy, (n,))
            w.need("target-data", yy.at(k) == w.d0(k + off))
            w.need("model-over-flux", x.at(i, k) == want(i, k, b, off))
            w.need("catalog-kept", N.as_nd(I.getitem(cat, b)).at(i) == st["fl"][b](i))
        w.need("data-kept", N.as_nd(w.o.a["data"]).at(p) == w.d0(p))
        w.need("weights-kept", N.as_nd(w.o.a["ierr"]).at(p) == w.w0(p))
    v.run(th, post)


def chain(e):
    while e is not None:
        yield e
        e = e.parent


def rendering(flag):
    def body(v):
        """the model image of the catalog per exposure; data kept; the residual switch is restored"""
        n1, n2 = v.int("n1", lo=1), v.int("n2", lo=1)
        npix = n1 + n2

        def split(a):
            f = N.snap(N.as_nd(a))
            return S.SList([N.mk_nd((n1,), f, "real"), N.mk_nd((n2,), lambda k: f(k + n1), "real")])

        def th():
            w = World(v, npix)
            w.unpack = split
            w.o.set("split_pix", lambda name: split(w.o.a[name]))
            w.o.set("return_residual", flag)
            return w, v.call(v.method(w.o, "render"), catalog(v, 2, 100), splinedata="splines")

        def post(t):
            w, im = t
            v.eq("one-image-per-exposure", N.np_len(im), 2)
            for j, (n, off) in enumerate(((n1, 0), (n2, n1))):
                k = v.idx("k", n)
                x = v.I.getitem(im, j)
                v.is_shape("image-shape", x, (n,))
                v.eq("model", x.at(k), w.model([100, 101], off + k))
            p = v.idx("p", npix)
            v.eq("data-kept", N.as_nd(w.o.a["data"]).at(p), w.d0(p))
            v.eq("weights-kept", N.as_nd(w.o.a["ierr"]).at(p), w.w0(p))
            v.eq("switch-restored", conc(w.o.a["return_residual"]), flag)
            v.eq("spline-file", w.scenes[0].a["kw"].get("splinedata"), "splines")
        v.run(th, post)
    body.__name__ = f"render_{flag}"
    return body


for _f in (True, False):
    contract(DP + ":DevicePatchMixin.render", bounded=True)(rendering(_f))


def rendering_any(flag):
    def body(v):
        """any number of sources and exposures"""
        I = v.I
        ne, npix, ns = v.int("n_exposures", lo=1), v.int("npix", lo=1), v.int("n_sources", lo=1)
        OFF, LEN = z3.Function("first_pixel", T.I, T.I), z3.Function("n_pixels", T.I, T.I)
        st = {}

        def split(a):
            f = N.snap(N.as_nd(a))
            return S.SList(S.Seq(ne, lambda e: N.mk_nd((LEN(T.to_int(e)),), lambda k, e=e: f(OFF(T.to_int(e)) + T.to_int(k)), "real")))

        def th():
            w = st["w"] = RangeWorld(v, npix, ns)

            def ev(proposal, patch=None, unpack=True, verbose=False):
                a, b, _ = w.evaluate(proposal, patch)
                if not conc(w.o.a["return_residual"]):
                    return (a, b)
                return (a, b, split(w.dev["residual"]) if unpack else N.mk_nd((npix,), N.snap(w.dev["residual"]), "real"))
            w.o.set("get_proposer", lambda: S.Obj(None, "proposer", evaluate_proposal=ev))
            w.o.set("split_pix", lambda name: split(w.o.a[name]))
            w.o.set("return_residual", flag)
            return w, v.call(v.method(w.o, "render"), catalog(v, ns, 0), splinedata="splines")

        def post(t):
            w, im = t
            e, p = v.idx("e", ne), v.idx("p", npix)
            v.assume(LEN(e) >= 1, OFF(e) >= 0, OFF(e) + LEN(e) <= npix)
            k = v.idx("k", LEN(e))
            w.need("one-image-per-exposure", N.np_len(im) == ne)
            x = im.v.at(e) if isinstance(im.v, S.Seq) else I.getitem(im, e)
            v.is_shape("image-shape", x, (LEN(e),))
            w.need("model", x.at(k) == PRE(ns, OFF(e) + k) - PRE(0, OFF(e) + k))
            w.need("data-kept", N.as_nd(w.o.a["data"]).at(p) == w.d0(p))
            w.need("weights-kept", N.as_nd(w.o.a["ierr"]).at(p) == w.w0(p))
            w.need("switch-restored", conc(w.o.a["return_residual"]) is flag)
        v.run(th, post)
    body.__name__ = f"render_any_{flag}"
    return body


for _f in (True, False):
    contract(DP + ":DevicePatchMixin.render")(rendering_any(_f))


def preparing(bounded):
    def body(v):
        """the posterior gets the proposer and scene of the subtraction, this patch and the bounds relative to its reference"""
        made = {}
        q = v.arr("q", (5,))
        q0 = N.snap(q)
        scene, prop = S.Obj(None, "scene", get_all_source_params=lambda **k: q), S.Obj(None, "proposer")
        fixed, act, big, bc = (S.Obj(None, k) for k in ("fixed", "active", "big", "bounds"))

        def sub(I, self, fx, active=None, big=None, **kw):
            made["sub"] = (fx, active, big, kw)
            return (prop, scene)
        v.stub(DP + ":DevicePatchMixin.subtract_fixed", sub)
        lo, hi = S.Obj(None, "lo"), S.Obj(None, "hi")

        def bv(I, cat, bands, shapenames=None, reference_coordinates=None):
            made["bv"] = (cat, bands, reference_coordinates)
            return (lo, hi)
        v.stub("forcepho.superscene:bounds_vectors", bv, optional=True)
        v.stub("forcepho.model:FastPosterior.__init__", lambda I, self, *a, **k: made.update(post=(a, k)))
        v.stub("forcepho.model:Transform.__init__", lambda I, self, n, **k: self.set("ndim", n), optional=True)

        def th():
            made.clear()
            o = v.obj(DP + ":CPUPatchMixin", bandlist=S.SList(["F1"]), patch_reference_coordinates=S.Obj(None, "ref"))
            return o, v.call(v.method(o, "prepare_model"), active=act, fixed=fixed, big=big, bounds=bc if bounded else None, maxactive=7)

        def post(t):
            o, (m, x) = t
            fx, a, b, kw = made["sub"]
            v.soft("subtracted", fx is fixed and a is act and b is big and kw.get("maxactive") == 7)
            i = v.idx("i", 5)
            v.eq("initial-vector", x.at(i), q0(i))
            v.ob("own-copy", x.buf is not q.buf)
            ar, k = made["post"]
            v.soft("model-parts", len(ar) > 0 and ar[0] is prop and k.get("scene") is scene and k.get("patch") is o)
            if bounded:
                v.soft("bounds", made["bv"][0] is bc and made["bv"][1] is o.a["bandlist"] and made["bv"][2] is o.a["patch_reference_coordinates"])
                v.soft("limits", k.get("lower") is lo and k.get("upper") is hi)
            else:
                v.eq("no-transform", k["transform"].a["ndim"], 5)
            v.eq("no-residual-when-sampling", conc(o.a["return_residual"]), False)
        v.run(th, post)
    body.__name__ = "prepare_" + ("bounded" if bounded else "free")
    return body


for _b in (True, False):
    contract(DP + ":DevicePatchMixin.prepare_model")(preparing(_b))
