"""P20: configuration precedence, then paths and types."""
import itertools
from ve.spec import *

M = "forcepho.config"
TRUSTED = ["argparse: parse_args(argv, namespace) sets exactly the given options (and, for an absent attribute, the default)",
           "yaml.load returns the mapping in the file", "os.path.expandvars / os.path.join / numpy.array / numpy.sctypeDict as documented"]
BOUNDED = ["update_config / new_args / parse_all: three generic options, each absent, None or set in every layer (options are treated one by one)",
           "rectify_config: one option of every kind (text, list, dtype, number, None), stores present or absent",
           "make_bounds_kwargs: every present/absent/None combination of the bounds settings (complete)"]
ABSENT = object()
NS = lambda **k: S.Obj(None, "Namespace", **k)


def layer(v, tag, st):
    """a namespace over options o0..o2 in the given states"""
    return {f"o{k}": (None if x == "none" else v.real(f"{tag}{k}")) for k, x in enumerate(st) if x != "absent"}


def same(a, b):
    if is_z3(a) and is_z3(b):
        return a == b
    return type(a) is type(b) and a == b if not (is_z3(a) or is_z3(b)) else False


def allsame(pairs):
    return land(*[same(a, b) for a, b in pairs])


@contract(M + ":update_config", bounded=True)
def updating(v):
    """every option set in the second namespace wins; None and absent options leave the first; nothing is lost"""
    for a in itertools.product(("absent", "none", "set"), repeat=3):
        for b in itertools.product(("absent", "none", "set"), repeat=3):
            A, B = layer(v, "a", a), layer(v, "b", b)

            def th():
                c, d = NS(**A), NS(**B)
                return v.call(M + ":update_config", c, d), d

            def post(r):
                c, d = r
                want = dict(A)
                want.update({k: x for k, x in B.items() if x is not None})
                v.eq("options", sorted(c.a), sorted(want))
                v.ob("values", allsame((c.a.get(k), x) for k, x in want.items()))
                v.ob("second-namespace-kept", sorted(d.a) == sorted(B) and allsame((d.a[k], B[k]) for k in B))
            v.run(th, post)

    def th():
        return v.call(M + ":update_config", NS(o0=1), None)
    v.run(th, lambda c: v.eq("no-update", c.a, {"o0": 1}))


@contract(M + ":new_args", bounded=True)
def given(v):
    """exactly the options given on the command line, even when they repeat the default"""
    for st in itertools.product((False, True), repeat=3):
        dv = {f"o{k}": v.real(f"d{k}") for k in range(3)}
        for form in ("other", "default"):
            cl = {f"o{k}": (v.real(f"c{k}") if form == "other" else dv[f"o{k}"]) for k in range(3) if st[k]}
            argv = S.SList(["--given"])

            def parse(av, namespace=None):
                ns = NS() if namespace is None else namespace
                g = {} if N.np_len(av) == 0 else cl
                for k, x in dv.items():
                    if k not in ns.a:
                        ns.set(k, x)
                for k, x in g.items():
                    ns.set(k, x)
                return ns

            def th():
                p = S.Obj(None, "parser", parse_args=parse, _actions=S.SList([]))
                return v.call(M + ":new_args", p, argv)

            def post(r):
                v.eq("only-given-options", sorted(r.a), sorted(cl))
                v.ob("their-values", allsame((r.a.get(k), x) for k, x in cl.items()))
            v.run(th, post)


@contract(M + ":make_bounds_kwargs")
def bounds(v):
    """complete: each setting is passed on unchanged exactly when it is present"""
    fields = ["sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"]
    for st in itertools.product((0, 1), repeat=len(fields)):
        for missing in ("absent", "none"):
            cf = {f: v.real(f) for f, s in zip(fields, st) if s}
            other = {f: None for f, s in zip(fields, st) if not s} if missing == "none" else {}

            def th():
                return v.call(M + ":make_bounds_kwargs", NS(outbase="x", maxactive=3, **cf, **other))

            def post(r):
                v.eq("settings", sorted(r.d), sorted(cf))
                v.ob("unchanged", allsame((r.d.get(k), x) for k, x in cf.items()))
            v.run(th, post)




@contract(M + ":rectify_config", M + ":make_bounds_kwargs", bounded=True)
def rectifying(v):
    """store names get the directory, text is expanded, lists become arrays, dtype names types; all else unchanged"""
    v.stub("os.path:expandvars", lambda I, x: expand(x))
    v.stub("numpy:array", lambda I, x, *a, **k: S.Obj(None, "array", of=x))

    def expand(x):
        if not isinstance(x, str):
            raise PyRaise("TypeError", "expandvars")
        return f"expanded({x})"
    stores = ["pixelstorefile", "metastorefile", "psfstorefile"]
    for sd in (ABSENT, "", "dir"):
        for have in itertools.product((False, True), repeat=3):
            num = v.real("num")
            l1, l2 = S.SList([v.real("p"), v.real("q")]), S.SList(["F1", "F2"])
            cf = {"outbase": "out", "num": num, "nothing": None, "zero": 0, "empty": "", "dpos": l1, "bandlist": l2, "pix_dtype": "float32",
                  "meta_dtype": "float64", "flag": True}
            if sd is not ABSENT:
                cf["store_directory"] = sd
            for s, h in zip(stores, have):
                if h:
                    cf[s] = s + "-name"

            def th():
                return v.call(M + ":rectify_config", NS(**cf))

            def post(c):
                a = c.a
                v.eq("options", sorted(a), sorted(list(cf) + ["bounds_kwargs"]))
                text = {k: x for k, x in cf.items() if isinstance(x, str) and "dtype" not in k}
                for k, x in text.items():
                    if k in stores and sd == "dir":
                        x = f"dir/{x}"
                    v.eq("text-expanded", a.get(k), f"expanded({x})")
                v.ob("numbers-kept", land(same(a.get("num"), num), a.get("zero") == 0 and a.get("nothing", 1) is None and a.get("flag") is True))
                for k, l in (("dpos", l1), ("bandlist", l2)):
                    x = a.get(k)
                    v.soft("lists-become-arrays", isinstance(x, S.Obj) and x.name == "array" and x.a["of"] is l)
                for k in ("pix_dtype", "meta_dtype"):
                    v.ob("dtype-names-become-types", isinstance(a.get(k), N.DType) and a[k].name == cf[k])
                b = a["bounds_kwargs"]
                v.eq("bounds-settings", list(b.d), ["dpos"])
                v.soft("bounds-value-is-the-array", b.d["dpos"] is a["dpos"])
            v.run(th, post)


@contract(M + ":parse_all", bounded=True)
def precedence(v):
    """command line over file over defaults; the file named on the command line, else by default"""
    seen = {}
    v.stub(M + ":rectify_config", lambda I, c: (seen.setdefault("rect", []).append(c), c)[1])
    for cf in (ABSENT, "cl.yml"):   # an option given on the command line has a value
        for df in (ABSENT, None, "def.yml"):
            for st in itertools.product((0, 1), repeat=2):
                D = {"o0": v.real("d0"), "o1": v.real("d1"), "o2": None, "o3": v.real("d3")}
                Y = {k: v.real("y" + k[1]) for k, s in zip(("o0", "o1"), st) if s}
                Y.update({"o3": None, "new": v.real("ynew")})
                C = {k: v.real("c" + k[1]) for k in ("o0", "o2")}
                if df is not ABSENT:
                    D["config_file"] = df
                if cf is not ABSENT:
                    C["config_file"] = cf
                name = cf if cf not in (ABSENT, None) else df if df not in (ABSENT, None) else None

                def new(I, p, argv):
                    seen["argv"] = list(argv.v)
                    return NS(**C)

                def yml(I, f):
                    seen["file"] = f
                    return NS(**Y)
                v.stub(M + ":new_args", new)
                v.stub(M + ":yaml_to_namespace", yml)

                def th():
                    seen.clear()
                    p = S.Obj(None, "parser", parse_args=lambda a: NS(**D))
                    return v.call(M + ":parse_all", p, S.SList(["prog", "--a", "1"]))

                def post(c):
                    want = dict(D)
                    if name is not None:
                        want.update({k: x for k, x in Y.items() if x is not None})
                    want.update({k: x for k, x in C.items() if x is not None})
                    v.eq("program-name-dropped", seen.get("argv"), ["--a", "1"])
                    v.eq("configuration-file", seen.get("file"), name)
                    v.eq("options", sorted(c.a), sorted(want))
                    v.ob("values", allsame((c.a.get(k), x) for k, x in want.items()))
                    v.eq("rectified", len(seen.get("rect", [])), 1)
                v.run(th, post)


@contract(M + ":read_config", bounded=True)
def reading(v):
    """options given as arguments override the file"""
    v.stub(M + ":rectify_config", lambda I, c: c)
    Y = {"o0": v.real("y0"), "o1": v.real("y1")}
    C = {"o1": v.real("c1"), "o2": v.real("c2"), "o0": None}
    v.stub(M + ":yaml_to_namespace", lambda I, f: NS(**Y))

    def th():
        return v.call(M + ":read_config", "file.yml", args=NS(**C))

    def post(c):
        v.ob("merged", sorted(c.a) == ["o0", "o1", "o2"] and allsame(((c.a["o0"], Y["o0"]), (c.a["o1"], C["o1"]), (c.a["o2"], C["o2"]))))
    v.run(th, post)
