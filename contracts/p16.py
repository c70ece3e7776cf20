"""P16: what is stored is what is read back."""
from ve.spec import *

ST = "forcepho.patches.storage"
RV = z3.RealVal
TRUSTED = ["h5py returns the stored array (float32 rounding of the pixel values is not modelled)",
           "json and fits.Header round trips: load(dump(x)) == x, Header.fromstring(h.tostring()) == h",
           "numpy.isfinite as an arbitrary predicate of the value"]
BOUNDED = ["metadata: up to 2 bands with up to 2 exposures each"]
SIZES = (2, 8)


def store(v, s, nx, ny, **kw):
    return v.obj(ST + ":PixelStore", super_pixel_size=s, pix_dtype=N.DT["float32"], nside_full=N.mk_nd((2,), lambda k: ite(cmp("==", k, 0), nx, ny), "int"),
                 h5file="store.h5", **kw)


def superpix(s):
    def body(v):
        """superpixel (i, j) holds the s x s block of the image at (i*s, j*s), row by row, then its inverse errors"""
        nx, ny = v.int("nsx", lo=1), v.int("nsy", lo=1)
        im, ie = v.arr("im", (nx * s, ny * s)), v.arr("ierr", (nx * s, ny * s))

        def th():
            return v.call(v.method(store(v, s, nx * s, ny * s), "superpixelize"), im, ie)

        def post(r):
            v.is_shape("shape", r, (nx, ny, 2 * s * s))
            i, j, a, b = v.idx("i", nx), v.idx("j", ny), v.idx("a", s), v.idx("b", s)
            v.eq("value", r.at(i, j, a * s + b), im.at(i * s + a, j * s + b))
            v.eq("inverse-error", r.at(i, j, s * s + a * s + b), ie.at(i * s + a, j * s + b))
        v.run(th, post)
    body.__name__ = f"superpixels_{s}"
    return body


def coords(s):
    def body(v):
        """pixel coordinates in the same arrangement: x counts rows of the array, y its columns"""
        nx, ny = v.int("nsx", lo=1), v.int("nsy", lo=1)
        v.assume(nx * s < 32768, ny * s < 32768)

        def th():
            o = store(v, s, nx * s, ny * s)
            x, y = v.call(v.method(o, "pixel_coordinates"))
            o.set("xpix", x)
            o.set("ypix", y)
            return x, y, v.call(v.method(o, "superpixel_corners"))

        def post(r):
            i, j, a, b = v.idx("i", nx), v.idx("j", ny), v.idx("a", s), v.idx("b", s)
            for k, o in ((0, i * s + a), (1, j * s + b)):
                v.is_shape("shape", r[k], (nx, ny, s * s))
                v.eq("xy"[k], r[k].at(i, j, a * s + b), o)
            v.is_shape("corner-shape", r[2], (nx, ny, 4, 2))
            for c, (dx, dy) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
                v.eq("corner-x", r[2].at(i, j, c, 0), i * s + dx * (s - 1))
                v.eq("corner-y", r[2].at(i, j, c, 1), j * s + dy * (s - 1))
        v.run(th, post)
    body.__name__ = f"coordinates_{s}"
    return body


for _s in SIZES:
    contract(ST + ":PixelStore.superpixelize")(superpix(_s))
    contract(ST + ":PixelStore.pixel_coordinates", ST + ":PixelStore.superpixel_corners")(coords(_s))


def anysize(f):
    def body(v):
        s = v.int("s", lo=1)
        f(s)(v)
    body.__name__ = f(1).__name__.replace("_1", "_any")
    return body


contract(ST + ":PixelStore.superpixelize")(anysize(superpix))
contract(ST + ":PixelStore.pixel_coordinates", ST + ":PixelStore.superpixel_corners")(anysize(coords))


class H5:
    """an HDF5 file as a dictionary of groups (contract of h5py)"""
    def __init__(self, v, groups=()):
        self.v, self.g, self.log = v, {k: {} for k in groups}, []

    def group(self, path):
        def dataset(name, data=None, **kw):
            d = S.Obj(None, "dataset", data=data, attrs=S.SDict({}))
            self.g[path][name] = d
            return d
        return S.Obj(None, "group", create_dataset=dataset)

    def create(self, path):
        if path in self.g:
            raise PyRaise("ValueError", "name already exists")
        self.g[path] = {}
        return self.group(path)

    def obj(self):
        me = S.Obj(None, "h5file", create_group=self.create)
        me.set("__enter__", lambda: me)
        me.set("__exit__", lambda *a: None)
        me.set("__delitem__", lambda k: self.g.pop(k))
        return me


def adding(bkg, mask, again):
    def body(v):
        """stored: image minus background and inverse error of the good pixels; bad pixels (masked, not finite, negative error) get zero
        weight; the caller's group is replaced when present"""
        s = v.int("s", lo=1)
        nx, ny = v.int("nsx", lo=1), v.int("nsy", lo=1)
        A = v.arr
        sh = (nx * s, ny * s)
        im, ie, bk = A("im", sh), A("ierr", sh), A("bkg", sh)
        mk = A("mask", sh, "bool") if mask == "bool" else A("bits", sh, "int")
        bad_bits = z3.Function("bad_bits", T.I, T.B)
        fin = T.FINITE
        i0, e0 = N.snap(im), N.snap(ie)
        v.assume(fin(RV(0)))
        box = {}

        def th():
            v.I.nonfinite = True
            h5 = box["h5"] = H5(v, ["F1/e1"] if again else [])
            v.stub("h5py:File", lambda I, name, mode="r", **k: h5.obj())
            o = store(v, s, nx * s, ny * s)
            ims = S.Obj(None, "Namespace", hdr=S.SDict({}), band="F1", expID="e1", names=None,
                        im=N.mk_nd(sh, i0, "real"), ierr=N.mk_nd(sh, e0, "real"),
                        bkg=N.mk_nd(sh, N.snap(bk), "real") if bkg else None, mask=mk if mask else None)
            v.call(v.method(o, "add_exposure"), ims)
            return h5

        def post(h5):
            d = h5.g.get("F1/e1", {}).get("data")
            v.ob("written-under-band-and-exposure", d is not None and list(h5.g) == ["F1/e1"] and list(h5.g["F1/e1"]) == ["data"])
            r = d.a["data"]
            v.is_shape("shape", r, (nx, ny, 2 * s * s))
            i, j, a, b = v.idx("i", nx), v.idx("j", ny), v.idx("a", s), v.idx("b", s)
            X, Y = i * s + a, j * s + b
            val = im.at(X, Y) - (bk.at(X, Y) if bkg else RV(0))
            good = z3.And(fin(val), fin(ie.at(X, Y)), ie.at(X, Y) >= 0)
            if mask:
                good = z3.And(good, z3.Not(mk.at(X, Y)) if mask == "bool" else mk.at(X, Y) == 0)
            w = r.at(i, j, s * s + a * s + b)
            v.eq("weight", w, ite(good, ie.at(X, Y), RV(0)))
            v.ob("value", z3.Implies(good, r.at(i, j, a * s + b) == val))
        v.run(th, post, raises=lambda e: v.ob("only-non-finite-values-are-refused", e.etype == "AssertionError"))
    body.__name__ = f"add_{'bkg' if bkg else 'nobkg'}_{mask or 'nomask'}{'_again' if again else ''}"
    return body


for _b in (False, True):
    for _m in (None, "bool"):
        contract(ST + ":PixelStore.add_exposure")(adding(_b, _m, _b))


@contract(ST + ":PixelStore.add_exposure")
def wrong_size(v):
    """an image whose size is not that of the store is refused and nothing is written"""
    s, nx, ny = v.int("s", lo=1), v.int("nsx", lo=1), v.int("nsy", lo=1)
    mx, my = v.int("mx", lo=1), v.int("my", lo=1)
    v.assume(z3.Or(mx != nx * s, my != ny * s))
    im, ie = v.arr("im", (mx, my)), v.arr("ierr", (mx, my))
    box = {}

    def th():
        h5 = box["h5"] = H5(v)
        v.stub("h5py:File", lambda I, name, mode="r", **k: h5.obj())
        ims = S.Obj(None, "Namespace", hdr=S.SDict({}), band="F1", expID="e1", names=None, im=N.mk_nd((mx, my), N.snap(im), "real"),
                    ierr=N.mk_nd((mx, my), N.snap(ie), "real"), bkg=None, mask=None)
        return v.call(v.method(store(v, s, nx * s, ny * s), "add_exposure"), ims)
    v.run(th, lambda r: v.ob("refused", False),
          raises=lambda e: v.ob("refused-with-nothing-written", e.etype in ("ValueError", "AssertionError") and not box["h5"].g))


@contract(ST + ":PSFStore.lookup")
def psf_lookup(v):
    """the mixture stored for the band at the nearest stored detector location (the first one without a position)"""
    n, m = v.int("nloc", lo=1), v.int("m", lo=1)
    loc = v.arr("locations", (2, n))
    par, other = v.arr("parameters", (n, m)), v.arr("other", (n, m))
    x, y = v.real("x"), v.real("y")

    def data():
        mk = lambda p: S.SDict({"detector_locations": loc, "parameters": p})
        return S.SDict({"F0": mk(other), "F1": mk(par)})
    d2 = lambda k: (x - loc.at(0, k)) * (x - loc.at(0, k)) + (y - loc.at(1, k)) * (y - loc.at(1, k))

    def th():
        v.stub("h5py:File", lambda I, *a, **k: data())
        return v.call(v.method(v.obj(ST + ":PSFStore", h5file="p.h5"), "lookup"), "F1", xy=(x, y))

    def post(r):
        v.is_shape("shape", r, (m,))
        q, k = v.idx("q", m), v.idx("k", n)
        E = [e[0] for key, e in v.I.extrema.items() if key[0] == "argmin"]
        if not E:
            raise T.Unsupported("the chosen location is not the index of a smallest value")
        c = E[-1]                     # the witness: where the code found its smallest distance
        v.eq("mixture-of-the-chosen-location", r.at(q), par.at(c, q))
        # the two forms are equivalent (the square root is increasing)
        v.ob("nearest", z3.Or(T.sqrt(d2(c)) <= T.sqrt(d2(k)), d2(c) <= d2(k)))
    v.run(th, post)

    def th2():
        v.stub("h5py:File", lambda I, *a, **k: data())
        return v.call(v.method(v.obj(ST + ":PSFStore", h5file="p.h5"), "lookup"), "F1")

    def post2(r):
        q = v.idx("q", m)
        v.eq("first-location", r.at(q), par.at(0, q))
    v.run(th2, post2)


def meta(exps):
    def body(v):
        """headers come back under the band and exposure they were added for, after writing and reading"""
        files = {}

        def th():
            files.clear()
            M = v.call(ST + ":MetaStore")
            hs = {}
            for b, es in exps.items():
                for e in es:
                    h = hs[(b, e)] = S.Obj(None, "hdr", tostring=lambda b=b, e=e: f"text of {b} {e}")
                    v.call(v.method(M, "add_exposure"), S.Obj(None, "Namespace", hdr=h, band=b, expID=e))

            def dump(I, x, f):
                files["x"] = deep(v, x)

            def opn(I, name, mode="r"):
                f = S.Obj(None, "file")
                f.set("__enter__", lambda: f)
                f.set("__exit__", lambda *a: None)
                return f
            v.stub("json:dump", dump)
            v.stub("json:load", lambda I, f: undeep(files["x"]))
            v.I.module(ST).env.d["open"] = lambda name, mode="r": opn(v.I, name, mode)
            v.stub("astropy.io.fits:Header", lambda I, *a, **k: S.Obj(None, "Header", fromstring=lambda t: S.Obj(None, "hdr", text=t)))
            v.call(v.method(M, "write_to_file"), "meta.json")
            return v.call(v.method(M, "read_from_file"), "meta.json")

        def post(r):
            got = {b: {e: h.a["text"] for e, h in es.d.items()} for b, es in r.d.items()}
            v.eq("headers", got, {b: {e: f"text of {b} {e}" for e in es} for b, es in exps.items()})
        v.run(th, post)
    body.__name__ = "metadata_" + "_".join(f"{b}{len(e)}" for b, e in exps.items())
    return body


def deep(v, x):
    return {k: deep(v, y) for k, y in x.d.items()} if isinstance(x, S.SDict) else x


def undeep(x):
    return S.SDict({k: undeep(y) for k, y in x.items()}) if isinstance(x, dict) else x


for _e in ({"F1": ["a"]}, {"F1": ["a", "b"], "F2": ["a", "c"]}, {}):
    contract(ST + ":MetaStore.add_exposure", ST + ":MetaStore.write_to_file", ST + ":MetaStore.read_from_file", bounded=True)(meta(_e))
