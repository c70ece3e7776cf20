"""P13 runtime contracts: metadata handed to the kernel (astrometry, PSF, layout, memory)."""
import os
import subprocess
import numpy as np
from oracles.common import *
PKG = setup(kernel=True)
from oracles import fix
from forcepho.proposal import CPUProposer
import forcepho.proposal as fp
R = Run()


def true_jac(w, ra, dec):
    """d(pixel)/d(ra, dec degrees) of the WCS, finite differences in float64"""
    h = 0.02 / 3600
    J = np.zeros((2, 2))
    for k, (a, b) in enumerate(((h, 0), (0, h))):
        p1 = np.array(w.world_to_pixel_values(ra + a, dec + b), dtype=float)
        p0 = np.array(w.world_to_pixel_values(ra - a, dec - b), dtype=float)
        J[:, k] = (p1 - p0) / (2 * h)
    return J


def check_meta(p, w, cat, abs_pos):
    ns, ne = len(cat), p.n_exp
    expect(p.n_sources == ns, f"n_sources {p.n_sources} for {ns} sources")
    for a, sh in (("D", (ne, ns, 2, 2)), ("CW", (ne, ns, 2, 2)), ("crpix", (ne, ns, 2)), ("crval", (ne, ns, 2)), ("G", (ne,))):
        x = getattr(p, a)
        expect(x.shape == sh and x.dtype == p.meta_dtype, f"{a} {x.shape} {x.dtype}")
        expect(x.flags.c_contiguous, f"{a} contiguous")
    es = [e for b in w.allbands for e in p.exposures if e.band == b]
    zero = np.asarray(p.patch_reference_coordinates, dtype=float)
    for i in range(ns):
        s = p.scene.sources[i]
        # source coordinates and reference coordinates add up to the true position
        close([s.ra + zero[0], s.dec + zero[1]], abs_pos[i], 1e-13, 1e-11, "source position relative to the reference")
        for j, e in enumerate(es):
            J = true_jac(e.wcs, *abs_pos[i])
            sc = np.sqrt(abs(np.linalg.det(J)))
            close(p.CW[j, i] / sc, J / sc, 0, 3e-4, f"CW exposure {j} source {i}")
            Dt = J @ np.diag([1 / np.cos(np.deg2rad(abs_pos[i][1])), 1]) / 3600
            sd = np.sqrt(abs(np.linalg.det(Dt)))
            close(p.D[j, i] / sd, Dt / sd, 0, 3e-4, f"D exposure {j} source {i}")
            # the linear map puts the source on its true pixel
            pix = p.CW[j, i].astype(float) @ (np.array([s.ra, s.dec]) - p.crval[j, i]) + p.crpix[j, i]
            tru = np.array(e.wcs.world_to_pixel_values(*abs_pos[i]), dtype=float)
            close(pix, tru, 0, 2e-3, f"pixel position exposure {j} source {i}")
    same(p.G, np.ones(ne, p.meta_dtype), "flux calibration")
    close(p.rad2, np.array(w.spl[3]) ** 2, 1e-6, 1e-9, "squared radii")
    expect(p.n_radii == len(w.spl[3]), "n_radii")
    same(p.n_psf_per_source, [len(w.psf[b][0]) for b in p.bandlist], "n_psf_per_source")
    tot = 0
    for j, e in enumerate(es):
        expect(p.psfgauss_start[j] == tot, f"psfgauss_start[{j}]")
        n = len(w.psf[e.band][0])
        for i in range(ns):
            got = p.psfgauss[tot:tot + n]
            for c in ("amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy", "sersic_bin"):
                close(got[c].astype(float), w.psf[e.band][0][c].astype(float), 1e-6, 1e-9, f"psf {c} of exposure {j}")
            tot += n
    expect(len(p.psfgauss) == tot, "number of psf gaussians")


@R.prop(n=40, tmax=20)
def metadata(rng):
    w = fix.World(rng, sip=bool(rng.random() < 0.4))
    n = int(rng.integers(1, 6))
    cat = w.cat(rng, n, size=1.5)
    pos = np.array([cat["ra"], cat["dec"]]).T.copy()
    kw = {"meta_dtype": np.float64} if rng.random() < 0.2 else {}
    p = w.patch(cat, **kw)
    check_meta(p, w, cat, pos)
    # repacking for another scene replaces everything
    n2 = int(rng.integers(1, 6))
    cat2 = w.cat(rng, n2, size=1.5)
    pos2 = np.array([cat2["ra"], cat2["dec"]]).T.copy()
    d0 = p.data.copy()
    sc2 = p.set_scene(cat2)
    p.pack_meta(sc2)
    check_meta(p, w, cat2, pos2)
    same(p.data, d0, "pixel data untouched by metadata packing")
    # absolute coordinates can be restored
    p.unzerocoords(p.scene)
    close([[s.ra, s.dec] for s in p.scene.sources], pos2, 1e-13, 1e-11, "restored coordinates")


@R.prop(n=10, tmax=6)
def reference_coordinates(rng):
    """an explicit reference is honoured"""
    w = fix.World(rng)
    cat = w.cat(rng, int(rng.integers(1, 5)))
    p = w.patch(None)
    sc = p.set_scene(cat)
    z = [w.ra0 + 1e-4, w.dec0 - 2e-4]
    r = p.zerocoords(sc, sky_zero=z)
    close(r, z, 0, 0, "returned reference")
    close(p.patch_reference_coordinates, z, 0, 0, "stored reference")
    close([[s.ra, s.dec] for s in sc.sources], np.array([cat["ra"] - z[0], cat["dec"] - z[1]]).T, 0, 1e-10, "offsets")


CPP = r'''
#include <cstddef>
#include <cstdio>
#include "header.hh"
#include "patch.cc"
#include "proposal.cu"
#include "common_kernel.cc"
#define P(T,f) printf(#T " " #f " %zu %zu\n", offsetof(T,f), sizeof(((T*)0)->f));
int main(){
P(Patch,data)P(Patch,ierr)P(Patch,xpix)P(Patch,ypix)P(Patch,residual)P(Patch,exposure_start)P(Patch,exposure_N)
P(Patch,band_start)P(Patch,band_N)P(Patch,n_sources)P(Patch,n_radii)P(Patch,rad2)P(Patch,D)P(Patch,crpix)P(Patch,crval)
P(Patch,CW)P(Patch,G)P(Patch,n_psf_per_source)P(Patch,psfgauss)P(Patch,psfgauss_start)
P(Source,ra)P(Source,dec)P(Source,q)P(Source,pa)P(Source,nsersic)P(Source,rh)P(Source,fluxes)P(Source,mixture_amplitudes)
P(Source,damplitude_drh)P(Source,damplitude_dnsersic)
P(PSFSourceGaussian,amp)P(PSFSourceGaussian,xcen)P(PSFSourceGaussian,ycen)P(PSFSourceGaussian,Cxx)P(PSFSourceGaussian,Cyy)
P(PSFSourceGaussian,Cxy)P(PSFSourceGaussian,sersic_radius_bin)
printf("Patch size %zu 0\n", sizeof(Patch));printf("Source size %zu 0\n", sizeof(Source));
printf("PSFSourceGaussian size %zu 0\n", sizeof(PSFSourceGaussian));
printf("E elem %zu %zu\n", sizeof(*((Patch*)0)->band_start), sizeof(*((Patch*)0)->exposure_start));
printf("E elem2 %zu %zu\n", sizeof(*((Patch*)0)->data), sizeof(*((Patch*)0)->D));
}
'''


@R.prop(deterministic=True)
def struct_layout(rng):
    """numpy dtypes and C structs agree field by field"""
    d = scratch("lay")
    with open(os.path.join(d, "l.cc"), "w") as f:
        f.write(CPP)
    src = os.path.join(PKG, "forcepho", "src")
    r = subprocess.run(["g++", "-w", "-std=c++11", "-I" + src, os.path.join(d, "l.cc"), "-o", os.path.join(d, "l")],
                       capture_output=True, text=True)
    if r.returncode:
        raise Gap("layout probe does not compile")
    lay = {}
    for ln in subprocess.run([os.path.join(d, "l")], capture_output=True, text=True).stdout.splitlines():
        t, f, o, s = ln.split()
        lay[t, f] = (int(o), int(s))
    w = fix.World(rng, nbands=1)
    cat = w.cat(rng, 2)
    p = w.patch(cat)
    p.send_to_device()
    T = {"Patch": p.patch_struct_dtype, "Source": p.scene.get_proposal().dtype, "PSFSourceGaussian": p.psfgauss.dtype}
    for (t, f), (o, s) in lay.items():
        if t == "E":
            continue
        dt = T[t]
        if f == "size":
            expect(dt.itemsize == o, f"sizeof({t}) {o} in C, {dt.itemsize} in numpy")
            continue
        g = "sersic_bin" if f == "sersic_radius_bin" else f
        expect(dt.fields[g][1] == o and dt.fields[g][0].itemsize == s, f"{t}.{f}: C ({o},{s}) numpy ({dt.fields[g][1]},{dt.fields[g][0].itemsize})")
    b, e = lay["E", "elem"]
    expect(p.band_start.dtype.itemsize == b and p.band_N.dtype.itemsize == b, "band index element size")
    expect(p.exposure_start.dtype.itemsize == e and p.exposure_N.dtype.itemsize == e, "exposure index element size")
    a, c = lay["E", "elem2"]
    expect(all(getattr(p, k).dtype.itemsize == a for k in ("data", "ierr", "xpix", "ypix", "residual")), "pixel element size")
    expect(all(getattr(p, k).dtype.itemsize == c for k in ("D", "CW", "crpix", "crval", "G", "rad2")), "meta element size")


ASAN = r'''
import sys, os
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
os.environ["VERIF_TMP"] = sys.argv[3]
import numpy as np
from oracles import fix
from forcepho.proposal import CPUProposer
for k in range(int(sys.argv[4])):
    rng = np.random.default_rng([int(sys.argv[5]), 77, k])
    w = fix.World(rng)
    n = int(rng.choice([1, 2, 5, 15, 30]))
    p = w.patch(w.cat(rng, n, size=1.5), return_residual=True)
    p.send_to_device()
    CPUProposer(p).evaluate_proposal(p.scene.get_proposal(), unpack=True)
print("DONE")
'''


@R.prop(deterministic=True)
def memory_safety(rng):
    """kernel built with AddressSanitizer: no access outside of the packed arrays"""
    import shutil
    import sysconfig
    d = scratch("asan")
    pk = os.path.join(d, "pkg")
    shutil.copytree(PKG, pk, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    src = os.path.join(pk, "forcepho", "src")
    inc = subprocess.run([os.sys.executable, "-m", "pybind11", "--includes"], capture_output=True, text=True).stdout.split()
    r = subprocess.run(["g++", "-O1", "-g", "-fsanitize=address", "-std=c++11", "-w", "-shared", "-fPIC", "-I" + src, *inc,
                        os.path.join(src, "compute_gaussians_kernel.cc"), "-o",
                        os.path.join(src, "compute_gaussians_kernel" + sysconfig.get_config_var("EXT_SUFFIX"))], capture_output=True)
    if r.returncode:
        raise Gap("asan build")
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    scr = os.path.join(d, "s.py")
    open(scr, "w").write(ASAN)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:allocator_may_return_null=1",
               PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", VERIF_TMP=d)
    env.pop("PYTHONPATH", None)
    n = 10 if R.tier == "quick" else 60
    try:
        r = subprocess.run([os.sys.executable, "-W", "ignore", scr, here, pk, d, str(n), str(R.seed)], capture_output=True, text=True,
                           env=env, timeout=400)
    except subprocess.TimeoutExpired:
        raise Gap("asan run timed out")
    if "AddressSanitizer" in r.stderr and "compute_gaussians" in r.stderr:
        raise_fail(r.stderr[:1500], "memory_safety")
    if "DONE" not in r.stdout:
        raise Gap("asan run: " + r.stderr[-500:])


class FakeCuda:
    """device memory as a dictionary of byte copies"""
    def __init__(self):
        self.mem, self.next, self.bad = {}, 4096, []

    def put(self, b):
        c = self

        class Alloc:
            def __init__(a):
                a.ptr = c.next
                c.next += len(b) + 4096
                c.mem[a.ptr] = bytearray(b)

            def __int__(a):
                return a.ptr
            __index__ = __int__

            def free(a):
                if c.mem.pop(a.ptr, None) is None:
                    c.bad.append("freed twice")
        return Alloc()

    def to_device(self, arr):
        return self.put(np.ascontiguousarray(arr).tobytes())

    def mem_alloc(self, n):
        return self.put(bytes(int(n)))

    def from_device(self, ptr, shape, dtype):
        return np.frombuffer(bytes(self.mem[int(ptr)]), dtype=dtype).reshape(shape).copy()


@R.prop(n=6, tmax=8)
def cuda_memory(rng):
    """patches for CUDA devices (device memory emulated): the structure on the device leads to live copies of the arrays"""
    import forcepho.patches.device_patch as dp
    w = fix.World(rng)
    cat = w.cat(rng, int(rng.integers(1, 5)), size=1.5)
    q = w.patch(cat)
    G = type("GP", (dp.GPUPatchMixin, type(q)), {})
    p = q
    p.__class__ = G
    p.return_residual = True
    c = FakeCuda()
    old = getattr(dp, "cuda", None)
    dp.cuda = c
    try:
        dt = p.patch_struct_dtype

        def check(tag, data=None, res=None):
            st = np.frombuffer(bytes(c.mem[int(p.device_patch)]), dtype=dt)[0]
            for k in dt.names:
                if dt[k] != p.ptr_dtype:
                    expect(st[k] == getattr(p, k), f"{tag}: {k}")
                    continue
                expect(int(st[k]) in c.mem, f"{tag}: {k} does not point at live device memory")
                m = bytes(c.mem[int(st[k])])
                if k == "residual":
                    expect(len(m) == p.xpix.nbytes, f"{tag}: size of the residual")
                    if res is not None:
                        expect(int(st[k]) == res, f"{tag}: residual pointer")
                elif k == "data" and data is not None:
                    expect(int(st[k]) == data, f"{tag}: data pointer")
                else:
                    expect(m == np.ascontiguousarray(getattr(p, k)).tobytes(), f"{tag}: {k} on the device is not the packed array")
            expect(st["data"] != st["residual"], f"{tag}: data and residual share memory")
            expect(len(c.mem) == sum(dt[k] == p.ptr_dtype for k in dt.names) + 1, f"{tag}: device memory leaks")
            return int(st["data"]), int(st["residual"])
        p.send_to_device()
        a, b = check("sent")
        c.mem[b][:] = np.arange(p.xpix.size, dtype=p.pix_dtype).tobytes()
        p.pack_meta(p.set_scene(w.cat(rng, int(rng.integers(1, 5)), size=1.5)))
        p.swap_on_device()
        check("swapped", b, a)
        same(p.retrieve_array("data"), np.arange(p.xpix.size, dtype=p.pix_dtype), "retrieved data")
        p.pack_meta(p.set_scene(w.cat(rng, int(rng.integers(1, 5)), size=1.5)))
        p.replace_device_meta_ptrs()
        p.send_patchstruct_to_device()
        check("meta replaced", b, a)
        p.free()
        expect(not c.mem, "device memory not freed")
        expect(not c.bad, f"{c.bad}")
    finally:
        if old is None:
            del dp.cuda
        else:
            dp.cuda = old


@R.prop(n=30, tmax=5)
def static_metadata(rng):
    """the patch made of postage stamps carries the astrometry, calibration, radii and PSF mixtures of its sources"""
    p, stamps, scene, ub, nper, nr, dt = fix.static_setup(rng)
    ne, ns = len(stamps), len(scene.sources)
    expect(p.n_sources == ns and p.n_radii == nr, "numbers of sources and radii")
    close(p.rad2, scene.sources[0].radii ** 2, 1e-6, 0, "squared radii")
    same(p.n_psf_per_source, scene.npsf_per_source, "psf gaussians per source")
    s0 = scene.sources[0]
    close(p.G, s0.stamp_zps, 1e-6, 0, "flux calibration")
    at = 0
    for e in range(ne):
        npsf = int(scene.npsf_per_source[ub.index(stamps[e].band)])
        expect(int(p.psfgauss_start[e]) == at, f"psf start of exposure {e}: {p.psfgauss_start[e]}, expected {at}")
        for k, s in enumerate(scene.sources):
            for a, v in (("D", s.stamp_scales), ("CW", s.stamp_cds), ("crpix", s0.stamp_crpixs), ("crval", s0.stamp_crvals)):
                close(getattr(p, a)[e, k], v[e], 1e-6, 1e-7, f"{a} of source {k} in exposure {e}")
            exp = [((g.amplitudes[i], *g.means[i], g.covariances[i][0, 0], g.covariances[i][1, 1], g.covariances[i][0, 1]), r)
                   for r, g in enumerate(s.stamp_psfs[e]) for i in range(g.n_gauss)]
            expect(len(exp) == npsf, "harness")
            for i, (par, r) in enumerate(exp):
                close(p.psfgauss["gauss_params"][at + i], par, 1e-6, 1e-7, f"psf gaussian {i} of source {k} in exposure {e}")
                expect(int(p.psfgauss["sersic_bin"][at + i]) == r, f"radius bin of psf gaussian {i}")
            at += npsf
    expect(len(p.psfgauss) >= at, "psf list length")


R.main()
