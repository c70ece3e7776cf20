"""P22 runtime contracts: pixel products are put back where they came from."""
import os
import numpy as np
import h5py
from oracles.common import *
setup(kernel=False)
from oracles import fix
from forcepho.utils import populate_image, write_residuals, write_to_disk
from forcepho.postprocess import Residuals
R = Run()


@R.prop(n=150, tmax=5)
def populate(rng):
    nx, ny = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    x0, y0 = int(rng.integers(0, 50)), int(rng.integers(0, 50))
    gx, gy = np.meshgrid(np.arange(nx) + x0, np.arange(ny) + y0, indexing="ij")
    keep = rng.random(nx * ny) < .7
    if not keep.any():
        raise Skip
    x, y = gx.ravel()[keep], gy.ravel()[keep]
    o = rng.permutation(x.size)
    x, y = x[o].astype(float), y[o].astype(float)
    v = rng.normal(0, 1, x.size)
    if rng.random() < .3:       # a stored value is shown as it is
        v[rng.integers(v.size)] = rng.choice([np.nan, np.inf, -np.inf, 0.])
    if rng.random() < .6:
        k = int(rng.integers(1, 6))
        ins = rng.integers(0, x.size + 1, k)
        x, y, v = np.insert(x, ins, -1), np.insert(y, ins, -1), np.insert(v, ins, 99.)
    dt = rng.choice([np.float32, np.float64])
    im, lo, hi = populate_image(x.astype(dt), y.astype(dt), v)
    g = x >= 0
    close(lo, [x[g].min() - .5, y[g].min() - .5], 0, 0, "lower edge")
    close(hi, [x[g].max() + .5, y[g].max() + .5], 0, 0, "upper edge")
    expect(im.shape == (int(x[g].max() - x[g].min()) + 1, int(y[g].max() - y[g].min()) + 1), f"shape {im.shape}")
    ref = np.full(im.shape, np.nan)
    for a, b, c in zip(x[g], y[g], v[g]):
        ref[int(a - x[g].min()), int(b - y[g].min())] = c
    expect(np.array_equal(im, ref, equal_nan=True), "image")


@R.prop(n=25, tmax=25)
def residual_file(rng):
    w = fix.World(rng, nbands=int(rng.integers(1, 3)))
    for k, e in enumerate(w.exposures):
        e.name = f"{e.band}/exp{k}"
    n = int(rng.integers(1, 4))
    cat = w.cat(rng, n)
    p = w.patch(cat)
    pix = {e.name: e for e in w.exposures}
    shape = (16, 18)
    res = [rng.normal(0, 1, int(m)) for m in p.exposure_N]
    f = os.path.join(scratch("r"), "x_residuals.h5")
    write_residuals(p, f, residuals=res)
    r = Residuals(f)
    expect(list(r.exposures) == list(p.epaths), "exposures")
    expect(list(r.ebands) == list(p.bands), "bands")
    close(r.reference_coordinates, p.patch_reference_coordinates, 0, 0, "reference")
    per = {"data": p.data, "ierr": p.ierr, "xpix": p.xpix, "ypix": p.ypix}
    imgs = {}
    for typ in ("data", "ierr", "residual"):
        images, headers = {}, {}
        r.fill_images(images, headers=headers, fill_type=typ, imshape=shape)
        imgs[typ] = images
    for i, name in enumerate(p.epaths):
        s = slice(int(p.exposure_start[i]), int(p.exposure_start[i] + p.exposure_N[i]))
        for a in per:
            close(r.handle[name][a][:], per[a][s], 0, 0, f"{a} of {name}")
        close(r.handle[name]["residual"][:], res[i], 0, 0, f"residual of {name}")
        for a in ("D", "CW", "crpix", "crval"):
            close(r.handle[name][a][:], getattr(p, a)[i], 0, 0, f"{a} of {name}")
        x, y = np.array(p.xpix[s]).astype(int), np.array(p.ypix[s]).astype(int)
        for typ in imgs:
            v = {"data": p.data[s], "ierr": p.ierr[s], "residual": res[i]}[typ]
            ref = np.full(shape, np.nan)
            for a, b, c in zip(x, y, v):
                if a >= 0:
                    ref[a, b] = c
            expect(np.array_equal(imgs[typ][name], ref, equal_nan=True), f"{typ} image of {name}")
            j, k2, k3 = r.make_exp(exp=name, value=typ)
            expect(np.array_equal(j, ref[x[x >= 0].min():x.max() + 1, y[y >= 0].min():y.max() + 1], equal_nan=True), f"{typ} cutout of {name}")
        # positions
        z = np.asarray(p.patch_reference_coordinates)
        pos = r.sky_to_pix(np.array([cat["ra"][k] for k in range(n)]), np.array([cat["dec"][k] for k in range(n)]), exp=name)
        for k in range(n):
            ref = p.CW[i, k].astype(float) @ (np.array([cat["ra"][k] - z[0], cat["dec"][k] - z[1]]) - p.crval[i, k]) + p.crpix[i, k]
            close(np.asarray(pos)[k], ref, 1e-5, 2e-2, f"pixel position of source {k} in {name}")
    r.handle.close()


@R.prop(n=10, tmax=6)
def accumulate(rng):
    """several patches add to one image without touching each other's pixels"""
    d = scratch("acc")
    shape = (12, 14)
    ref = np.full(shape, np.nan)
    files = []
    cells = rng.permutation(12 * 14)
    parts = np.array_split(cells[: int(rng.integers(20, 150))], 3)
    images = {}
    for k, c in enumerate(parts):
        f = os.path.join(d, f"p{k}.h5")
        x, y = np.unravel_index(c, shape)
        v = rng.normal(0, 1, c.size)
        if k == 2 and c.size:       # a stored value is shown as it is
            v[rng.integers(c.size)] = rng.choice([np.nan, np.inf, -np.inf, 0.])
        if k == 1:
            x, y, v = np.append(x, [-1, -1]), np.append(y, [-1, -1]), np.append(v, [7, 7])
        with h5py.File(f, "w") as h:
            h.create_dataset("epaths", data=np.array(["B/e0"], dtype="S"))
            h.create_dataset("ebands", data=np.array(["B"], dtype="S"))
            h.create_dataset("reference_coordinates", data=np.zeros(2))
            g = h.create_group("B/e0")
            g.create_dataset("xpix", data=x.astype(np.float32)); g.create_dataset("ypix", data=y.astype(np.float32))
            g.create_dataset("data", data=v)
        for a, b, z in zip(x, y, v):
            if a >= 0:
                ref[a, b] = z
        Residuals(f).fill_images(images, headers={}, fill_type="data", imshape=shape)
    expect(np.array_equal(images["B/e0"], ref, equal_nan=True), "accumulated image")


@R.prop(n=12, tmax=10)
def written_images(rng):
    """images written for a run: data, residuals, models and chi of all patches at their positions, with the size and header of
    each exposure"""
    import types
    from astropy.io import fits
    from forcepho import postprocess as pp
    from forcepho.patches.storage import MetaStore
    root = scratch("run")
    os.makedirs(os.path.join(root, "patches"))
    ms, ref, shapes = MetaStore(), {}, {}
    names = [f"B{k % 2}/e{k}" for k in range(int(rng.integers(1, 4)))]
    for k, n in enumerate(names):
        shapes[n] = (int(rng.integers(6, 12)), int(rng.integers(6, 12)))
        h = fits.PrimaryHDU(np.zeros(shapes[n][::-1])).header
        h["EXPNO"] = k
        ms.add_exposure(types.SimpleNamespace(hdr=h, band=n.split("/")[0], expID=n.split("/")[1]))
        ref[n] = {t: np.full(shapes[n], np.nan) for t in ("data", "residual", "ierr")}
    meta = os.path.join(scratch("m"), "meta.json")
    ms.write_to_file(meta)
    cells = {n: np.array_split(rng.permutation(shapes[n][0] * shapes[n][1])[:30], 2) for n in names}
    for k in range(2):
        use = [n for n in names if rng.random() < .8]
        with h5py.File(os.path.join(root, "patches", f"patch{k}_residuals.h5"), "w") as f:
            f.create_dataset("epaths", data=np.array(use, dtype="S"))
            f.create_dataset("ebands", data=np.array([n.split("/")[0] for n in use], dtype="S"))
            f.create_dataset("reference_coordinates", data=np.zeros(2))
            for n in use:
                x, y = np.unravel_index(cells[n][k], shapes[n])
                g = f.create_group(n)
                pad = [-1] * int(rng.integers(0, 3))
                g.create_dataset("xpix", data=np.append(x, pad).astype(np.float32))
                g.create_dataset("ypix", data=np.append(y, pad).astype(np.float32))
                for t in ("data", "residual", "ierr"):
                    v = rng.normal(0, 1, x.size)
                    g.create_dataset(t, data=np.append(v, np.array(pad) * 9.))
                    ref[n][t][x, y] = v
    model, chi = bool(rng.random() < .6), bool(rng.random() < .6)
    pp.write_images(root, metafile=meta, show_model=model, show_chi=chi)
    exp = {}
    for k, n in enumerate(names):
        r = ref[n]
        if np.isnan(r["data"]).all():
            continue
        im = {"data": r["data"], "delta": r["residual"]}
        if model:
            im["model"] = r["data"] - r["residual"]
        if chi:
            im["chi"] = r["residual"] * r["ierr"]
        for t, v in im.items():
            exp[f"e{k}_{t}.fits"] = (k, t, v)
    got = sorted(os.listdir(os.path.join(root, "image")))
    expect(got == sorted(exp), f"images {got} expected {sorted(exp)}")
    for f, (k, t, v) in exp.items():
        with fits.open(os.path.join(root, "image", f)) as h:
            expect(np.array_equal(h[0].data.T, v, equal_nan=True), f"{t} image of exposure {k}")
            expect(h[0].header["EXPNO"] == k and h[0].header["IMTYPE"] == t.upper(), f"header of the {t} image of exposure {k}")


@R.prop(n=10, tmax=8)
def sized_by_file(rng):
    """images named by their FITS file get the size of that file"""
    from astropy.io import fits
    d = scratch("sz")
    names, ref = [], {}
    f = os.path.join(d, "r.h5")
    with h5py.File(f, "w") as h:
        for k in range(int(rng.integers(1, 4))):
            sh = (int(rng.integers(3, 9)), int(rng.integers(3, 9)))
            n = os.path.join(d, f"im{k}.fits")
            fits.writeto(n, np.zeros(sh[::-1]))
            x, y = np.unravel_index(rng.permutation(sh[0] * sh[1])[:7], sh)
            v = rng.normal(0, 1, x.size)
            g = h.create_group(n)
            for a, b in (("xpix", x.astype(np.float32)), ("ypix", y.astype(np.float32)), ("residual", v)):
                g.create_dataset(a, data=b)
            ref[n] = np.full(sh, np.nan)
            ref[n][x, y] = v
            names.append(n)
        h.create_dataset("epaths", data=np.array(names, dtype="S"))
        h.create_dataset("ebands", data=np.array(["B"] * len(names), dtype="S"))
        h.create_dataset("reference_coordinates", data=np.zeros(2))
    im, hd = Residuals(f).fill_images({}, headers={})
    expect(sorted(im) == sorted(names), "one image per exposure")
    for n in names:
        expect(np.array_equal(im[n], ref[n], equal_nan=True), f"image {n}")


@R.prop(n=8, tmax=10)
def to_disk(rng):
    """what a run writes for a patch: the chain, and the residuals of its last position when asked for"""
    import types
    w = fix.World(rng, nbands=int(rng.integers(1, 3)))
    for k, e in enumerate(w.exposures):
        e.name = f"{e.band}/exp{k}"
    p = w.patch(w.cat(rng, 2))
    chain = rng.normal(0, 1, (int(rng.integers(1, 5)), 6))
    at = {tuple(q): [rng.normal(0, 1, int(m)) for m in p.exposure_N] for q in chain}
    done = []
    out = types.SimpleNamespace(chain=chain, dump_to_h5=lambda f: done.append(f))
    model = types.SimpleNamespace(patch=p, residuals=lambda q: at[tuple(q)])
    root = os.path.join(scratch("d"), "patch3")
    want, given = bool(rng.random() < .7), bool(rng.random() < .4)
    res = [rng.normal(0, 1, int(m)) for m in p.exposure_N] if given else None
    cfg = types.SimpleNamespace(write_residuals=want) if want or rng.random() < .5 else types.SimpleNamespace()
    write_to_disk(out, root, model, cfg, residual=res)
    expect(done == [root + "_samples.h5"], f"chain files {done}")
    f = root + "_residuals.h5"
    expect(os.path.exists(f) == want, "residual file")
    if want:
        res = at[tuple(chain[-1])] if res is None else res
        with h5py.File(f, "r") as h:
            for i, n in enumerate(p.epaths):
                close(h[n]["residual"][:], res[i], 0, 0, f"residual of {n}")


R.main()
