"""P20 runtime contracts: configuration precedence."""
import os
import sys
import io
import contextlib
from argparse import ArgumentParser, Namespace
import numpy as np
from oracles.common import *
setup(kernel=False)
from forcepho import config as C
R = Run()

INT = ["alpha", "beta_two", "gamma"]
FLT = ["tol", "radius_x"]
STR = ["name", "path_a"]
LST = ["dpos", "sersic_range", "wlist"]
STORES = ["pixelstorefile", "metastorefile", "psfstorefile"]


def mkparser(rng):
    p = ArgumentParser()
    d = {}
    for k in INT:
        d[k] = int(rng.integers(-9, 9)); p.add_argument("--" + k, type=int, default=d[k])
    for k in FLT:
        d[k] = float(rng.normal()); p.add_argument("--" + k, type=float, default=d[k])
    for k in STR:
        d[k] = "def_" + k; p.add_argument("--" + k, type=str, default=d[k])
    for k in LST:
        d[k] = [float(x) for x in rng.normal(0, 1, 2)]; p.add_argument("--" + k, type=float, nargs="*", default=d[k])
    for k in STORES:
        d[k] = k + ".h5"; p.add_argument("--" + k, type=str, default=d[k])
    p.add_argument("--pix_dtype", type=str, default="float32"); d["pix_dtype"] = "float32"
    p.add_argument("--maybe", type=float, default=None); d["maybe"] = None
    p.add_argument("--store_directory", type=str, default=""); d["store_directory"] = ""
    p.add_argument("--config_file", type=str, default=None); d["config_file"] = None
    return p, d


def value(rng, k):
    if k in INT:
        return int(rng.integers(-99, 99))
    if k in FLT:
        return round(float(abs(rng.normal())), 5)
    if k in LST:
        return [round(float(abs(x)), 4) for x in rng.normal(0, 1, 2)]
    if k == "pix_dtype":
        return str(rng.choice(["float32", "float64", "int32"]))
    if k == "store_directory":
        return "/some/dir%d" % rng.integers(1, 9)
    if k == "maybe":
        return round(float(abs(rng.normal())), 4)
    return ("~/" if k in STR and rng.random() < .15 else "") + "%s_%d" % (k, rng.integers(0, 99)) + ("/$VERIF_X/z" if rng.random() < .3 else "")


def finish(d):
    """what the documentation says happens to the merged values"""
    d = dict(d)
    if d.get("store_directory"):
        for s in STORES:
            if d.get(s) is not None:
                d[s] = os.path.join(d["store_directory"], d[s])
    for k, v in d.items():
        if isinstance(v, str):
            v = v.replace("$VERIF_X", os.environ["VERIF_X"])
            d[k] = v
        if isinstance(v, list):
            d[k] = np.array(v)
        if "dtype" in k:
            d[k] = {"float32": np.float32, "float64": np.float64, "int32": np.int32}[v]
    return d


def compare(got, exp, extra=("bounds_kwargs",)):
    got = dict(vars(got))
    bk = got.pop("bounds_kwargs", None)
    expect(set(got) == set(exp), f"options {set(got) ^ set(exp)}")
    for k, v in exp.items():
        g = got[k]
        if isinstance(v, np.ndarray):
            expect(isinstance(g, np.ndarray), f"{k} is {type(g)}")
            same(g, v, k)
        elif isinstance(v, type):
            expect(np.dtype(g) == np.dtype(v), f"{k}={g} expected {v}")
        else:
            expect(g == v and type(g) is type(v), f"{k}={g!r} expected {v!r}")
    want = {k: exp[k] for k in ("sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale")
            if exp.get(k) is not None}
    expect(bk is not None and set(bk) == set(want), f"bounds keywords {bk}")
    for k in want:
        same(bk[k], want[k], "bounds " + k)


@R.prop(n=150, tmax=12)
def precedence(rng):
    import yaml
    os.environ["VERIF_X"] = "expanded"
    p, d = mkparser(rng)
    allk = [k for k in d if k != "config_file"]
    exp = dict(d)
    argv = ["prog"]
    mode = rng.integers(0, 3)       # no file, file by default, file on the command line
    f = None
    if mode:
        y = {}
        for k in rng.permutation(allk)[: int(rng.integers(0, len(allk)))]:
            y[str(k)] = value(rng, k)
        if rng.random() < .3:
            y["only_in_yaml"] = 5
        if rng.random() < .3:
            y["maybe"] = None
        f = os.path.join(scratch("cfg"), "c.yml")
        yaml.safe_dump(y, open(f, "w"))
        if not y:
            y = {"gamma": 3}
            yaml.safe_dump(y, open(f, "w"))
        exp.update({k: v for k, v in y.items() if v is not None})
        if mode == 2:
            argv += ["--config_file", f]
        else:
            p.set_defaults(config_file=f)
        exp["config_file"] = f
    cl = [str(k) for k in rng.permutation(allk)[: int(rng.integers(0, 6))]]
    for k in cl:
        v = value(rng, k)
        if rng.random() < .25:
            v = d[k] if d[k] not in (None, "") else v    # equal to the default, still given by the user
            if k in FLT:
                v = abs(v)
            if k in LST:
                v = [abs(x) for x in v]
            if k in INT:
                v = abs(v)
        if k in INT:
            v = abs(v)
        exp[k] = v
        if isinstance(v, list):
            argv += ["--" + k] + [repr(x) for x in v]
        elif rng.random() < .3:
            argv += [f"--{k}={v}"]
        else:
            argv += ["--" + k, str(v)]
    a0 = list(argv)
    with contextlib.redirect_stdout(io.StringIO()):
        got = C.parse_all(p, argv)
    expect(argv == a0, "argv modified")
    compare(got, finish(exp))


@R.prop(n=60, tmax=3)
def bounds_settings(rng):
    """every bounds setting that is given reaches the bounds, and nothing else does"""
    d = {}
    for k in ("sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"):
        r = rng.random()
        if r < .7:
            d[k] = np.sort(rng.normal(0, 1, 2)) if k.endswith("_range") else float(rng.choice([0., rng.uniform(.1, 9)]))
        elif r < .85:
            d[k] = None
    other = {"npix": 3, "nsig": 4, "q_range": [0, 1], "alpha": 2.}
    ns = Namespace(**d, **other)
    got = C.make_bounds_kwargs(ns)
    want = {k: x for k, x in d.items() if x is not None}
    expect(set(got) == set(want), f"bounds keywords {sorted(got)} expected {sorted(want)}")
    for k in want:
        same(got[k], want[k], "bounds " + k)
    expect(set(vars(ns)) == set(d) | set(other), "the configuration is changed")


@R.prop(n=60, tmax=5)
def yaml_and_args(rng):
    import yaml
    os.environ["VERIF_X"] = "expanded"
    keys = INT + FLT + STR + LST + STORES + ["pix_dtype", "store_directory"]
    y = {k: value(rng, k) for k in keys if rng.random() < .7}
    if not y:
        raise Skip
    exp = dict(y)
    args = None
    if rng.random() < .7:
        args = Namespace(**{k: (None if rng.random() < .3 else value(rng, k)) for k in keys if rng.random() < .4})
        exp.update({k: v for k, v in vars(args).items() if v is not None})
        for k in vars(args):
            exp.setdefault(k, None)
            if exp[k] is None:
                del exp[k]
    arg0 = None if args is None else dict(vars(args))
    f = os.path.join(scratch("cfg"), "c.yml")
    yaml.safe_dump(y, open(f, "w"))
    src = f if rng.random() < .6 else dict(y)
    with contextlib.redirect_stdout(io.StringIO()):
        got = C.read_config(src, args)
    if args is not None:
        expect(vars(args) == arg0, "arguments modified")
    compare(got, finish(exp))


@R.prop(n=20, tmax=5)
def main_parser(rng):
    """every documented option of the real parser can be overridden from both sources"""
    import yaml
    fits = bool(rng.random() < .5)
    p = C.main_config_parser(FITS=fits)
    d = vars(p.parse_args([]))
    p2 = C.main_config_parser(FITS=fits)
    p2.add_argument("--config_file", type=str, default=None)
    acts = {a.dest: a for a in p._actions if a.dest in d}
    exp = dict(d)
    f = None

    def val(a):
        t = a.type or str
        def one():
            return {int: int(rng.integers(0, 9)), float: round(float(rng.uniform(0, 9)), 3), str: "s%d" % rng.integers(0, 99)}[t]
        if "dtype" in a.dest:
            return str(rng.choice(["float32", "float64"]))
        if a.nargs in ("*", "+"):
            return [one() for _ in range(2)]
        if isinstance(a.nargs, int):
            return [one() for _ in range(a.nargs)]
        return one()
    names = list(acts)
    argv = ["prog"]
    if rng.random() < .7:
        y = {k: val(acts[k]) for k in rng.permutation(names)[:8]}
        y = {str(k): v for k, v in y.items()}
        f = os.path.join(scratch("cfg"), "c.yml")
        yaml.safe_dump(y, open(f, "w"))
        exp.update(y)
        argv += ["--config_file", f]
    for k in rng.permutation(names)[:6]:
        v = val(acts[k])
        exp[str(k)] = v
        argv += ["--" + str(k)] + ([str(x) for x in v] if isinstance(v, list) else [str(v)])
    exp["config_file"] = f
    os.environ["VERIF_X"] = "expanded"
    with contextlib.redirect_stdout(io.StringIO()):
        got = C.parse_all(p2, argv)
    compare(got, finish(exp))


R.main()
