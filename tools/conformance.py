"""Differential test of the engine's Python/NumPy semantics against CPython/NumPy on tools/conf/cases.py.
usage: python3-vt tools/conformance.py [name ...].  Prints one line per case; exit 1 on a disagreement."""
import json, os, subprocess, sys, tempfile, shutil
sys.setrecursionlimit(10000)
from fractions import Fraction
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SRC = os.path.join(ROOT, "tools", "conf", "cases.py")


def expand(dst):
    """one function per returned expression, so that one unsupported expression hides no other"""
    import ast, copy
    t = ast.parse(open(SRC).read())
    out = []
    for f in t.body:
        last = f.body[-1] if isinstance(f, ast.FunctionDef) else None
        if isinstance(last, ast.Return) and isinstance(last.value, ast.Tuple) and f.name[:2] in ("t_", "n_"):
            for k, e in enumerate(last.value.elts):
                g = copy.deepcopy(f)
                g.name = f"{f.name}__{k}"
                g.body[-1] = ast.copy_location(ast.Return(copy.deepcopy(e)), last)
                out.append(g)
        else:
            out.append(f)
    t.body = out
    open(dst, "w").write(ast.unparse(ast.fix_missing_locations(t)))
    return {g.name: ast.unparse(g.body[-1])[:110] for g in out if isinstance(g, ast.FunctionDef)}
REAL = r'''
import sys, json, importlib.util, numpy as np
s = importlib.util.spec_from_file_location("cases", sys.argv[1]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
def enc(v):
    if isinstance(v, (bool, np.bool_)): return ["b", bool(v)]
    if isinstance(v, (int, np.integer)): return ["n", str(int(v))]
    if isinstance(v, (float, np.floating)): return ["n", "%d/%d" % float(v).as_integer_ratio()]
    if isinstance(v, str): return ["s", v]
    if v is None: return ["none"]
    if isinstance(v, np.ndarray): return ["a", list(v.shape), [enc(x) for x in v.ravel().tolist()]]
    if isinstance(v, tuple): return ["t", [enc(x) for x in v]]
    if isinstance(v, list): return ["l", [enc(x) for x in v]]
    if isinstance(v, dict): return ["d", [[enc(k), enc(x)] for k, x in v.items()]]
    return ["?", str(type(v))]
out = {k: enc(f()) for k, f in list(vars(m).items()) if k[:2] in ("t_", "n_") and callable(f)}
json.dump(out, sys.stdout)
'''


def main():
    from ve import terms as T, state as S, npmodel as N
    from ve.spec import V
    from ve.terms import Unsupported, is_z3, cmp
    import itertools, z3
    d = tempfile.mkdtemp()
    os.makedirs(d + "/forcepho")
    open(d + "/forcepho/__init__.py", "w").close()
    text = expand(d + "/forcepho/cases.py")
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", REAL, d + "/forcepho/cases.py"], capture_output=True, text=True)
    if r.returncode:
        sys.exit(r.stderr)
    want = json.loads(r.stdout)
    bad = []
    n_ok = n_uns = 0

    def cmpv(v, got, w, path):
        """list of disagreements"""
        k = w[0]
        if k in ("b", "n"):
            if isinstance(got, S.Nd) and got.ndim == 0:
                got = got.at()
            if not N.is_scalar(got):
                return [f"{path}: {got!r} is not {w}"]
            x = w[1] if k == "b" else Fraction(w[1])
            if not is_z3(got):
                return [] if Fraction(got) == Fraction(x) else [f"{path}: {got} is not {w[1]}"]
            if k == "n":
                x = z3.RatVal(x.numerator, x.denominator) if not z3.is_int(got) or x.denominator != 1 else z3.IntVal(x.numerator)
            o = v.P.prove("c", got == x, v.I.hyps()) if k == "n" or z3.is_bool(got) else None
            return [] if o and o.status == "proved" else [f"{path}: {str(got)[:80]} is not {w[1]} ({o and o.status})"]
        if k == "s":
            return [] if isinstance(got, str) and got == w[1] else [f"{path}: {got!r} is not {w[1]!r}"]
        if k == "none":
            return [] if got is None else [f"{path}: {got!r} is not None"]
        if k == "a":
            if not isinstance(got, S.Nd):
                return [f"{path}: {got!r} is not an array"]
            sh = [T.conc_of(s) if is_z3(s) else s for s in got.shape]
            if len(sh) == len(w[1]) and any(is_z3(a) for a in sh):
                st = {v.P.prove("c", T.to_int(a) == b, v.I.hyps()).status for a, b in zip(sh, w[1])}
                if st != {"proved"}:
                    return [f"{path}: shape {sh} is not {w[1]}"] if "refuted" in st else ["unsupported symbolic shape"]
                sh = w[1]
            if sh != w[1]:
                return [f"{path}: shape {sh} is not {w[1]}"]
            return sum([cmpv(v, got.at(*ix), e, f"{path}{list(ix)}") for ix, e in zip(itertools.product(*map(range, sh)), w[2])], [])
        if k in ("t", "l"):
            if isinstance(got, S.Seq) and not is_z3(got.n):
                got = [got.at(i) for i in range(got.n)]
            got = got.v if isinstance(got, S.SList) else got
            if not isinstance(got, (tuple, list)):
                return [f"{path}: {got!r} is not a {k}"]
            if len(got) != len(w[1]):
                return [f"{path}: {len(got)} entries, not {len(w[1])}"]
            return sum([cmpv(v, g, e, f"{path}.{i}") for i, (g, e) in enumerate(zip(got, w[1]))], [])
        if k == "d":
            if not isinstance(got, S.SDict) or len(got.d) != len(w[1]):
                return [f"{path}: {got!r} is not {w}"]
            return sum([cmpv(v, a, e[0], f"{path}.key") + cmpv(v, b, e[1], f"{path}[{a}]") for (a, b), e in zip(got.d.items(), w[1])], [])
        return [f"{path}: {w}"]

    for name in want:
        if len(sys.argv) > 1 and not any(name.startswith(a) for a in sys.argv[1:]):
            continue
        v = V(d, 1, "quick", name)
        mark = S.TR.mark()
        try:
            res = []
            v.run(lambda: v.call("forcepho.cases:" + name), lambda r: res.append(cmpv(v, r, want[name], "")))
            if not res:
                r = ["no path returned: " + "; ".join(map(str, v.unsupported))[:300]]
                r = ["unsupported " + r[0]] if v.unsupported else r
            else:
                r = sum(res, [])
        except Unsupported as e:
            r = ["unsupported " + str(e)]
        except N.PyRaise as e:
            r = [f"raised {e}"]
        except Exception as e:
            import traceback
            r = [f"engine error {type(e).__name__} {e} @ " + traceback.format_tb(e.__traceback__)[-1].strip().replace("\n", " ")]
        S.TR.undo(mark)
        uns = any(x.startswith(("unsupported", "engine error")) for x in r)
        if uns:
            n_uns += 1
        elif r:
            bad.append(name)
        else:
            n_ok += 1
        if r:
            print(("UNSUPPORTED " if uns else "DIFFERS ") + name + "   " + text[name], *r[:12], sep="\n    ")
    print(f"{n_ok} agree, {n_uns} outside the engine's subset, {len(bad)} differ: {bad}")
    shutil.rmtree(d)
    sys.exit(1 if bad else 0)


main()
