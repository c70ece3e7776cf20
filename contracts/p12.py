"""P12: pixels are packed once, in order, unchanged, and masked safely."""
from ve.spec import *

TRUSTED = ["non-finite numbers: isfinite is an uninterpreted predicate on the values, 0 is finite",
           "region.contains returns positions inside the arrays it was given (P17)", "astropy reads the FITS arrays it stores"]
PP, PA = "forcepho.patches.pixel_patch", "forcepho.patches.patch"
COL = ("data", "ierr", "xpix", "ypix")


def packing(pattern, background, cap=False):
    """pattern: band of each exposure (exposure count bounded; the pixels of each are not)"""
    def body(v):
        ne, nb = len(pattern), max(pattern) + 1
        n = [v.int(f"n{e}", lo=1) for e in range(ne)]
        pix = [[v.arr(f"{c}{e}", (n[e],)) for c in COL] for e in range(ne)]
        bg = [v.real(f"bg{e}") for e in range(ne)]
        paths = [S.Obj(None, f"path{e}") for e in range(ne)]
        wcs = [S.Obj(None, f"wcs{e}") for e in range(ne)]
        region = S.Obj(None, "region")
        start = [sum(n[:e], z3.IntVal(0)) for e in range(ne + 1)]
        snr = v.real("snr")
        v.assume(snr > 0)

        def find(p, w, r):
            e = [k for k in range(ne) if p is paths[k]][0]
            v.ob("the-wcs-and-region-of-that-exposure", w is wcs[e] and r is region)
            return tuple(pix[e])

        def th():
            o = v.obj(PP + ":PixelPatch", n_exp=ne, n_bands=nb, pix_dtype=N.DT["float32"], debug=0, wcses=S.SList(list(wcs)),
                      epaths=S.SList(list(paths)), bands=S.SList([f"b{b}" for b in pattern]),
                      background_offsets=S.SList(list(bg)) if background else None, max_snr=snr if cap else None, find_pixels=find)
            v.call(v.method(o, "pack_pix"), region)
            return o

        def post(o):
            for c in COL:
                v.is_shape(c + "-shape", o.a[c], (start[ne],))
            v.is_shape("exposure-start-shape", o.a["exposure_start"], (ne,))
            v.is_shape("exposure-N-shape", o.a["exposure_N"], (ne,))
            v.is_shape("band-start-shape", o.a["band_start"], (nb,))
            v.is_shape("band-N-shape", o.a["band_N"], (nb,))
            for e in range(ne):
                v.eq("exposure-start", o.a["exposure_start"].at(e), start[e])
                v.eq("exposure-N", o.a["exposure_N"].at(e), n[e])
                p = v.idx(f"p{e}", n[e])
                d0 = pix[e][0].at(p) - (bg[e] if background else 0)
                v.eq("flux-unchanged-but-the-background", o.a["data"].at(start[e] + p), d0)
                w = pix[e][1].at(p)
                if cap:
                    w = z3.If(z3.And(w > 0, d0 * w > snr), snr / d0, w)
                v.eq("inverse-error", o.a["ierr"].at(start[e] + p), w)
                v.eq("x", o.a["xpix"].at(start[e] + p), pix[e][2].at(p))
                v.eq("y", o.a["ypix"].at(start[e] + p), pix[e][3].at(p))
            for b in range(nb):
                es = [e for e in range(ne) if pattern[e] == b]
                v.eq("band-start", o.a["band_start"].at(b), es[0])
                v.eq("band-N", o.a["band_N"].at(b), len(es))
                v.eq("band-pixels", o.a["band_N_pix"].at(b), sum((n[e] for e in es), z3.IntVal(0)))
        v.run(th, post)
    body.__name__ = "packing_" + "".join(map(str, pattern)) + ("_background" if background else "") + ("_cap" if cap else "")
    return body


for _p, _b, _c in (((0,), False, False), ((0, 0), True, False), ((0, 1), False, False), ((0, 0, 1), True, False), ((0, 1, 1), False, False),
                   ((0, 1, 2), False, False), ((0, 1, 1, 2), True, False), ((0, 1), True, True)):
    contract(PP + ":PixelPatch.pack_pix", *([PP + ":PixelPatch._cap_snr"] if _c else []), bounded=True)(packing(list(_p), _b, _c))


def packing_any(background, cap):
    def body(v):
        """any number of exposures in any number of bands: the loop carries the invariant that the exposures so far are indexed and
        queued in order.  Ghost: first(j), the first exposure of band j; B(e), the band of exposure e"""
        I = v.I
        E, nb = v.int("n_exp", lo=1), v.int("n_bands", lo=1)
        B, first, NP = T.ufun("band_of", T.I, T.I), T.ufun("first", T.I, T.I), T.ufun("n_pix", T.I, T.I)
        val = {c: T.ufun("pixel_" + c, T.I, T.I, T.R) for c in COL}
        bg, snr = v.arr("bg", (E,)), v.real("snr")
        v.assume(snr > 0, first(0) == 0, first(nb) == E)
        j, e = z3.Ints("j e")
        v.assume(z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < E), z3.And(NP(e) >= 1, B(e) >= 0, B(e) < nb, first(B(e)) <= e, e < first(B(e) + 1))),
                           patterns=[B(e)]))
        v.assume(v.forall((E,), lambda e: NP(e) >= 1))
        v.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nb), z3.And(first(j) >= 0, first(j) < first(j + 1), first(j + 1) <= E)), patterns=[first(j)]))
        v.assume(z3.ForAll([j, e], z3.Implies(z3.And(j >= 0, j < nb, e >= 0, e < E, first(j) <= e, e < first(j + 1)), B(e) == j),
                           patterns=[z3.MultiPattern(first(j), B(e))]))
        v.assume(z3.ForAll([e], z3.Implies(z3.And(e >= 1, e < E), z3.And(B(e) >= B(e - 1), B(e) <= B(e - 1) + 1)), patterns=[B(e)]))
        v.assume(B(0) == 0)
        START = T.ufun("start", T.I, T.I)       # ghost: the pixels before exposure k, sum_{e<k} n_pix(e)
        start = lambda k: START(T.to_int(k))
        psum = lambda k: N.prefix_sum(NP, T.to_int(k))
        v.assume(START(0) == 0, START(E) == psum(E))
        paths, wcs = S.Fam(None, E, "path"), S.Fam(None, E, "wcs")
        region = S.Obj(None, "region")
        st = {}

        def pixels(k, c, bg_=False):
            f = N.snap(bg)
            return N.mk_nd((NP(T.to_int(k)),), lambda p: val[c](T.to_int(k), T.to_int(p)) - (f(k) if bg_ else 0), "real")

        def find(p, w, r):
            need("the-wcs-and-region-of-that-exposure", isinstance(p, S.FamObj) and p.fam is paths and isinstance(w, S.FamObj) and w.fam is wcs
                 and r is region and I.valid(T.to_int(p.idx) == T.to_int(w.idx)))
            return tuple(pixels(p.idx, c) for c in COL)

        def need(nm, g):
            if g is False or (is_z3(g) and not I.valid(g)):
                raise Unsupported("not established: " + nm)
            v.ob(nm, g)

        def cut(it, run):
            o, env = st["o"], run.env
            if not I.valid(T.to_int(it.n) == E):
                return False
            try:
                L = [env.get(c) for c in COL]
                b0, i0 = env.get("b"), env.get("i")
            except KeyError:
                raise Unsupported("the queues of the packing loop were not found")
            if not all(isinstance(x, S.SList) for x in L):
                raise Unsupported("the queues of the packing loop are no lists")
            run.keep |= {"b", "i"}
            clamp = lambda k, j: z3.If(k <= first(j), 0, z3.If(k >= first(j + 1), first(j + 1) - first(j), k - first(j)))
            a = o.a

            def inv(k, tag):
                need(tag + "pixels-so-far", T.to_int(env.get("i")) == start(k))
                need(tag + "band", z3.If(k == 0, T.to_int(env.get("b")) == 0, T.to_int(env.get("b")) == B(k - 1)))
                e, j, p = (T.fresh(x, T.I) for x in "ejp")
                with I.assuming(0 <= j, j < nb):
                    need(tag + "exposures-per-band", T.to_int(a["band_N"].at(j)) == clamp(k, j))
                with I.assuming(0 <= e, e < k):
                    need(tag + "exposure-start", T.to_int(a["exposure_start"].at(e)) == start(e))
                    need(tag + "exposure-N", T.to_int(a["exposure_N"].at(e)) == NP(e))
                for c, x in zip(COL, L):
                    need(tag + "queue-length", T.to_int(N.np_len(x)) == k)
                    if not I.valid(T.to_int(k) == 0):
                        # rows before k stay (put), row k - 1 is the one of this iteration
                        with I.assuming(0 <= p, p < NP(k - 1)):
                            y = N.as_nd(I.getitem(x, k - 1))
                            need(tag + "queued-length", T.to_int(N.np_len(y)) == NP(k - 1))
                            need(tag + "queued-" + c, y.at(p) == pixels(k - 1, c, background and c == "data").at(p))

            def put(k):
                env.set("i", start(k))
                env.set("b", z3.If(k == 0, 0, B(k - 1)))
                g, h = T.fresh_fun("rest", T.I, T.I), T.fresh_fun("rest", T.I, T.I)
                N.setitem(a["band_N"], slice(None), N.mk_nd((nb,), (lambda j: clamp(k, T.to_int(j))) if not k.eq(E) else (lambda j: first(T.to_int(j) + 1) - first(T.to_int(j))), "int"))
                N.setitem(a["exposure_start"], slice(None), N.mk_nd((E,), lambda e: start(e) if k.eq(E) else z3.If(T.to_int(e) < k, start(e), g(T.to_int(e))), "int"))
                N.setitem(a["exposure_N"], slice(None), N.mk_nd((E,), lambda e: NP(T.to_int(e)) if k.eq(E) else z3.If(T.to_int(e) < k, NP(T.to_int(e)), h(T.to_int(e))), "int"))
                for c, x in zip(COL, L):
                    x.set(S.Seq(k, lambda e, c=c: pixels(e, c, background and c == "data")))
            inv(z3.IntVal(0), "entry.")
            if I.branch(z3.FreshConst(z3.BoolSort(), "iterate")):
                k = T.fresh("kiter", T.I)
                I.assume(0 <= k, k < E)
                put(k)
                I.fact(start(k + 1) == start(k) + NP(k))
                run(k)
                inv(k + 1, "preserved.")
                raise Infeasible()
            put(E)
            st["cut"] = True
            return True

        def th():
            st.clear()
            o = st["o"] = v.obj(PP + ":PixelPatch", n_exp=E, n_bands=nb, pix_dtype=N.DT["float32"], debug=0, wcses=S.SList(S.Seq(E, lambda k: S.FamObj(wcs, k))),
                                epaths=S.SList(S.Seq(E, lambda k: S.FamObj(paths, k))), bands=S.SList(S.Seq(E, lambda k: B(T.to_int(k)))),
                                background_offsets=bg if background else None, max_snr=snr if cap else None, find_pixels=find)
            if cap:     # its contract: cap() below
                o.set("_cap_snr", lambda max_snr=None: st.setdefault("capped", []).append((max_snr, [o.a[c] for c in COL])))
            I.cuts = (cut,)
            try:
                v.call(v.method(o, "pack_pix"), region)
            finally:
                I.cuts = ()
            return o

        def post(o):
            if "cut" not in st:
                raise Unsupported("the loop over the exposures was not met")
            e, j = v.idx("e", E), v.idx("jb", nb)
            p = v.idx("p", NP(e))
            I.fact(start(e) == psum(e))
            a = o.a
            for c in COL:
                need(c + "-length", T.to_int(a[c].shape[0]) == psum(E))
            need("exposure-start", T.to_int(a["exposure_start"].at(e)) == start(e))
            need("exposure-N", T.to_int(a["exposure_N"].at(e)) == NP(e))
            d0 = val["data"](e, p) - (bg.at(e) if background else 0)
            w = val["ierr"](e, p)
            if cap:
                cl = st.get("capped", [])
                need("capped-once", len(cl) == 1 and all(x is a[c] for x, c in zip(cl[0][1], COL)))
                need("the-requested-cap", T.to_real(cl[0][0]) == snr)
            need("flux-unchanged-but-the-background", a["data"].at(psum(e) + p) == d0)
            need("inverse-error", a["ierr"].at(psum(e) + p) == w)
            need("x", a["xpix"].at(psum(e) + p) == val["xpix"](e, p))
            need("y", a["ypix"].at(psum(e) + p) == val["ypix"](e, p))
            need("band-start", T.to_int(a["band_start"].at(j)) == first(j))
            need("band-N", T.to_int(a["band_N"].at(j)) == first(j + 1) - first(j))
            need("band-pixels", T.to_int(a["band_N_pix"].at(j)) == start(first(j + 1)) - start(first(j)))
        v.run(th, post)
    body.__name__ = "packing_any" + ("_background" if background else "") + ("_cap" if cap else "")
    return body


for _b, _c in ((False, False), (True, False), (True, True)):
    contract(PP + ":PixelPatch.pack_pix")(packing_any(_b, _c))
BOUNDED = ["pack_pix: besides the contracts packing_any (any number of exposures and bands), one to four exposures in up to three bands, which decide when the loop is written so that its invariant cannot be placed",
           "split_pix / split_band: besides the contracts for any number of pieces, one to four pieces (of any length)",
           "find_exposures of DirectPatch and the band bookkeeping of build_patch: up to four exposures in up to three bands"]


@contract(PP + ":PixelPatch._cap_snr")
def cap(v):
    """the cap lowers the weight of exactly the positively weighted pixels above it, to the cap; fluxes stay"""
    n = v.int("n", lo=1)
    d, w, m = v.arr("d", (n,)), v.arr("w", (n,)), v.real("m")
    v.assume(m > 0)
    d0, w0 = N.snap(d), N.snap(w)

    def th():
        o = v.obj(PP + ":PixelPatch", data=N.mk_nd((n,), d0, "real"), ierr=N.mk_nd((n,), w0, "real"))
        v.call(v.method(o, "_cap_snr"), max_snr=m)
        return o

    def post(o):
        p = v.idx("p", n)
        hit = z3.And(w0(p) > 0, d0(p) * w0(p) > m)
        v.eq("flux-kept", o.a["data"].at(p), d0(p))
        v.eq("others-kept", z3.Implies(z3.Not(hit), o.a["ierr"].at(p) == w0(p)), z3.BoolVal(True))
        v.eq("capped", z3.Implies(hit, o.a["ierr"].at(p) == m / d0(p)), z3.BoolVal(True))
        v.ob("never-raised", z3.Implies(z3.And(hit, d0(p) > 0, (m / d0(p)) * d0(p) == m), o.a["ierr"].at(p) < w0(p)))
        v.ob("masked-stay-masked", z3.Implies(w0(p) == 0, o.a["ierr"].at(p) == 0))
    v.run(th, post)


def splitting(k, meth, cnt):
    def body(v):
        n = [v.int(f"n{e}", lo=0) for e in range(k)]
        tot = sum(n, z3.IntVal(0))
        a = v.arr("a", (tot,))

        def th():
            o = v.obj(PA + ":Patch", data=a, **{cnt: N.as_nd(S.SList(list(n)))})
            return v.call(v.method(o, meth), "data")

        def post(r):
            v.eq("pieces", v.I.call(v.I.resolve("builtins:len"), [r], {}) if False else len(r.v), k)
            s = z3.IntVal(0)
            for e in range(k):
                v.is_shape("length", r.v[e], (n[e],))
                p = v.idx(f"p{e}", n[e])
                v.eq("pixels", r.v[e].at(p), a.at(s + p))
                s = s + n[e]
        v.run(th, post)
    body.__name__ = f"{meth}_{k}"
    return body


for _k in (1, 2, 3, 4):
    contract(PA + ":Patch.split_pix", bounded=True)(splitting(_k, "split_pix", "exposure_N"))
    contract(PA + ":Patch.split_band", bounded=True)(splitting(_k, "split_band", "band_N_pix"))


def splitting_any(meth, cnt):
    def body(v):
        """any number of pieces: their lengths are written as the differences of their first positions at(0) = 0, at(1), ... (which
        loses no generality: at(k) is the sum of the lengths before piece k)"""
        I = v.I
        K, AT = v.int("pieces", lo=1), T.ufun("at", T.I, T.I)
        x, y = z3.Ints("x y")
        v.assume(AT(0) == 0, z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= K), AT(x) <= AT(y)), patterns=[z3.MultiPattern(AT(x), AT(y))]))
        psum = lambda k: AT(T.to_int(k))
        NP = lambda e: AT(e + 1) - AT(e)
        a = v.arr("a", (psum(K),))

        def th():
            o = v.obj(PA + ":Patch", data=a, **{cnt: N.mk_nd((K,), lambda e: NP(T.to_int(e)), "int")})
            return v.call(v.method(o, meth), "data")

        def post(r):
            e = v.idx("e", K)
            p = v.idx("p", NP(e))
            need(v, "pieces", T.to_int(N.np_len(r)) == K)
            x = N.as_nd(I.getitem(r, e))
            need(v, "length", T.to_int(x.shape[0]) == NP(e))
            need(v, "pixels", x.at(p) == a.at(psum(e) + p))
        v.run(th, post)
    body.__name__ = f"{meth}_any"
    return body


def need(v, nm, g):
    """established, or undecided (the bounded contracts refute)"""
    if g is False or (is_z3(g) and not v.I.valid(g)):
        raise Unsupported("not established: " + nm)
    v.ob(nm, g)


contract(PA + ":Patch.split_pix")(splitting_any("split_pix", "exposure_N"))
contract(PA + ":Patch.split_band")(splitting_any("split_band", "band_N_pix"))


@contract(PP + ":StorePatch.find_pixels")
def store_pixels(v):
    """the pixels of exactly the selected superpixels: fluxes from the first half, inverse errors from the second"""
    ns, s, m = v.int("nsup", lo=1), v.int("s", lo=1), v.int("m", lo=1)
    s2 = arith("*", s, s)
    D = v.arr("D", (ns, ns, arith("*", 2, s2)))
    X, Y = v.arr("X", (ns, ns, s2)), v.arr("Y", (ns, ns, s2))
    sx, sy = v.arr("sx", (m,), "int"), v.arr("sy", (m,), "int")
    v.assume(v.forall((m,), lambda k: z3.And(sx.at(k) >= 0, sx.at(k) < ns, sy.at(k) >= 0, sy.at(k) < ns)))
    C = v.arr("C", (ns, ns, 4, 2))
    # what a pixel store holds (P16): no negative inverse errors
    v.assume(v.forall((ns, ns, s2), lambda i, j, p: D.at(i, j, s2 + p) >= 0))
    wcs = S.Obj(None, "wcs")

    def contains(x, y, w):
        i, j, c = v.idx("i", ns), v.idx("j", ns), v.idx("c", 4)
        v.is_shape("corner-shape", x, (ns, ns, 4))
        v.eq("corner-x", x.at(i, j, c), C.at(i, j, c, 0))
        v.eq("corner-y", y.at(i, j, c), C.at(i, j, c, 1))
        v.ob("its-wcs", w is wcs)
        return (sx, sy)

    def th():
        st = S.Obj(None, "store", super_pixel_size=s, superpixel_corners=lambda: C, data=S.SDict({"F200W/exp1/data": D}), xpix=X, ypix=Y)
        o = v.obj(PP + ":StorePatch", pixelstore=st)
        return v.call(v.method(o, "find_pixels"), "F200W/exp1", wcs, S.Obj(None, "region", contains=contains))

    def post(r):
        k, p = v.idx("k", m), v.idx("p", s2)
        i, j = sx.at(k), sy.at(k)
        for x, nm in zip(r, COL):
            v.is_shape(nm + "-shape", x, (m, s2))
        v.eq("flux", r[0].at(k, p), D.at(i, j, p))
        v.eq("ierr", r[1].at(k, p), D.at(i, j, s2 + p))
        v.eq("x", r[2].at(k, p), X.at(i, j, p))
        v.eq("y", r[3].at(k, p), Y.at(i, j, p))
    v.run(th, post)


@contract(PP + ":DirectPatch.find_pixels")
def direct_pixels(v):
    n = v.int("n", lo=1)
    a = {k: v.arr(k, (n,)) for k in ("flux", "ierr", "xpix", "ypix")}

    def th():
        o = v.obj(PP + ":DirectPatch", pixel_dict=S.SDict({"im": S.SDict(dict(a)), "other": S.SDict({})}))
        return v.call(v.method(o, "find_pixels"), "im", None, None)

    def post(r):
        p = v.idx("p", n)
        for x, k in zip(r, ("flux", "ierr", "xpix", "ypix")):
            v.eq(k, x.at(p), a[k].at(p))
    v.run(th, post)


def fits_pixels(mode, region):
    def body(v):
        nx, ny, m = v.int("nx", lo=1), v.int("ny", lo=1), v.int("m", lo=1)
        F, E = v.arr("F", (ny, nx)), v.arr("E", (ny, nx))
        f0, e0 = N.snap(F), N.snap(E)
        v.I.nonfinite = True
        v.assume(T.FINITE(z3.RealVal(0)))
        sx, sy = v.arr("sx", (m,), "int"), v.arr("sy", (m,), "int")
        v.assume(v.forall((m,), lambda k: z3.And(sx.at(k) >= 0, sx.at(k) < nx, sy.at(k) >= 0, sy.at(k) < ny)))
        snr, unc = v.real("snr"), v.real("unc")
        v.stub("astropy.io.fits:getdata", lambda I, p, ext, *a, **k: N.mk_nd((ny, nx), {"SCI": f0, "ERR": e0}[ext], "real"))
        box = {}

        def contains(x, y, w):
            i, j = v.idx("i", nx), v.idx("j", ny)
            v.is_shape("corner-shape", x, (nx, ny, 4))
            for c, (dx, dy) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
                v.eq("corner-x", T.to_real(x.at(i, j, c)), T.to_real(i + dx))
                v.eq("corner-y", T.to_real(y.at(i, j, c)), T.to_real(j + dy))
            return (sx, sy)

        def th():
            o = v.obj(PP + ":FITSPatch", sci_ext="SCI", unc_ext="ERR", snr=snr if mode == "snr" else None, unc=unc if mode == "unc" else None,
                      warp_size=64)
            return v.call(v.method(o, "find_pixels"), "f.fits", S.Obj(None, "wcs"), S.Obj(None, "region", contains=contains) if region else None)

        def post(r):
            N0 = m if region else arith("*", nx, ny)
            tot = r[0].shape[0]
            for x, nm in zip(r, COL):
                v.is_shape(nm + "-shape", x, (tot,))
            v.ob("padded-to-the-warp", z3.And(tot >= N0, tot < N0 + 64, tot % 64 == 0))
            if region:
                k = v.idx("k", m)
                i, j = sx.at(k), sy.at(k)
            else:
                i, j = v.idx("i", nx), v.idx("j", ny)
                k = i * ny + j
                v.lemma_divmod(i, ny, j)
            f, e = f0(j, i), e0(j, i)
            ie = {"snr": snr / f, "unc": 1 / unc, "err": 1 / e}[mode]
            bad = z3.Or(z3.Not(T.FINITE(f)), z3.Not(T.FINITE(ie)), ie < 0)
            if not region:
                v.lemma(z3.And(k >= 0, k < nx * ny), i >= 0, i < nx, j >= 0, j < ny)
            v.eq("flux", r[0].at(k), z3.If(bad, z3.RealVal(0), f))
            v.eq("ierr", r[1].at(k), z3.If(bad, z3.RealVal(0), ie))
            v.eq("x", T.to_real(r[2].at(k)), T.to_real(i))
            v.eq("y", T.to_real(r[3].at(k)), T.to_real(j))
            q = v.idx("q", tot)
            v.ob("padding-has-no-weight", z3.Implies(q >= N0, z3.And(r[1].at(q) == 0, r[0].at(q) == 0)))
        v.run(th, post)
    body.__name__ = f"fits_pixels_{mode}" + ("_region" if region else "_all")
    return body


for _m in ("err", "snr", "unc"):
    contract(PP + ":FITSPatch.find_pixels")(fits_pixels(_m, True))
contract(PP + ":FITSPatch.find_pixels")(fits_pixels("err", False))


def direct_exposures(pattern, want):
    """pattern: filter of each image of the dictionary, in order; want: requested band list"""
    def body(v):
        ne = len(pattern)
        h = [S.SDict({"FILTER": b}) for b in pattern]
        paths = [f"im{e}" for e in range(ne)]
        made = {}
        v.stub("astropy.wcs:WCS", lambda I, hdr, *a, **k: S.Obj(None, "wcs", of=hdr))

        def th():
            o = v.obj(PP + ":DirectPatch", header_dict=S.SDict(dict(zip(paths, h))))
            return v.call(v.method(o, "find_exposures"), None, S.SList(list(want)))

        def post(r):
            hdrs, wcses, eps, bands = (list(x.v) for x in r)
            exp = [e for b in want for e in range(ne) if pattern[e] == b]
            v.eq("exposures-in-band-order", eps, [paths[e] for e in exp])
            v.eq("bands", bands, [pattern[e] for e in exp])
            v.ob("headers", len(hdrs) == len(exp) and all(x is h[e] for x, e in zip(hdrs, exp)))
            v.ob("wcses", len(wcses) == len(exp) and all(x.a["of"] is h[e] for x, e in zip(wcses, exp)))
        v.run(th, post)
    body.__name__ = "direct_exposures_" + "".join(pattern) + "_" + "".join(want)
    return body


for _p, _w in ((("A",), ("A",)), (("B", "A"), ("A", "B")), (("B", "A", "B", "C"), ("A", "B")), (("C", "B", "A", "B"), ("A", "B", "C")),
               (("A", "B"), ("B", "A")), (("A", "A"), ("B",))):
    contract(PP + ":DirectPatch.find_exposures", bounded=True)(direct_exposures(_p, _w))


def building(pattern, allb, tweak=False):
    def body(v):
        ne = len(pattern)
        bgs = [v.real(f"bg{e}") for e in range(ne)]
        h = [S.SDict({"BKG": bgs[e]} if e != 1 else {}) for e in range(ne)]
        box = {"n": 0}

        def th():
            o = v.obj(PP + ":PixelPatch", n_exp=None, find_exposures=lambda r, b: (S.SList(list(h)), S.SList([S.Obj(None, "w") for _ in h]),
                                                                                  S.SList([f"im{e}" for e in range(ne)]), S.SList(list(pattern))),
                      _dirty_data=True)
            o.set("pack_pix", lambda region=None: box.__setitem__("n", box["n"] + 1))
            v.call(v.method(o, "build_patch"), region="R", allbands=S.SList(list(allb)), **({"tweak_background": "BKG"} if tweak else {}))
            return o

        def post(o):
            ub = [b for b in allb if b in pattern]
            v.eq("bandlist", [x for x in o.a["bandlist"].v], ub)
            v.eq("n_bands", o.a["n_bands"], len(ub))
            v.eq("n_exp", o.a["n_exp"], ne)
            for k, b in enumerate(ub):
                v.eq("exposures-per-band", N.as_nd(o.a["n_exp_per_band"]).at(k), pattern.count(b))
            if tweak:
                for e in range(ne):
                    v.eq("background-of-that-exposure", o.a["background_offsets"].v[e], bgs[e] if e != 1 else 0.0)
            else:
                v.ob("no-background", o.a["background_offsets"] is None)
        v.run(th, post)
    body.__name__ = "building_" + "".join(pattern) + ("_tweak" if tweak else "")
    return body


for _p, _t in ((("A",), False), (("A", "A", "C"), True), (("B", "C", "C"), False), (("A", "B", "C"), True)):
    contract(PP + ":PixelPatch.build_patch", bounded=True)(building(_p, ("A", "B", "C"), _t))
