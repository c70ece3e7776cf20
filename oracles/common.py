"""Shared harness of the runtime contracts (bounded; the real code runs)."""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
_tmp = os.environ.get("VERIF_TMP") or tempfile.mkdtemp(prefix="verif_or_")
if not os.environ.get("VERIF_TMP"):
    import atexit
    atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
os.makedirs(_tmp, exist_ok=True)


def scratch(name=""):
    return tempfile.mkdtemp(prefix="s_" + name, dir=_tmp)


def setup(kernel=False, flags=("-O2",)):
    """copy the package sources of the current tree and (re)build the kernel"""
    pkg = os.path.join(_tmp, "pkg")
    if os.path.isdir(pkg):
        shutil.rmtree(pkg)
    shutil.copytree(os.path.join(REPO, "forcepho"), os.path.join(pkg, "forcepho"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    if kernel:
        import sysconfig
        suf = sysconfig.get_config_var("EXT_SUFFIX")
        inc = subprocess.run([sys.executable, "-m", "pybind11", "--includes"], capture_output=True, text=True,
                             check=True).stdout.split()
        src = os.path.join(pkg, "forcepho", "src")
        r = subprocess.run(["g++", *flags, "-std=c++11", "-w", "-shared", "-fPIC", "-I" + src, *inc,
                            os.path.join(src, "compute_gaussians_kernel.cc"), "-o",
                            os.path.join(src, "compute_gaussians_kernel" + suf)], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("kernel build failed:\n" + r.stderr[-2000:])
    sys.path.insert(0, pkg)
    return pkg


class Fail(AssertionError):
    pass


class Run:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--budget", type=float, default=20)
        ap.add_argument("--out")
        ap.add_argument("--replay")
        ap.add_argument("--only")
        self.a = ap.parse_args()
        self.seed, self.tier, self.budget = self.a.seed, self.a.tier, self.a.budget
        self.t0 = time.time()
        self.failures, self.checks, self.cases = [], {}, 0
        self.skipped = {}
        self.fns = []
        import numpy as np
        self.np = np

    def prop(self, n=20, weight=1.0, tmax=None, deterministic=False):
        """register a runtime contract: fn(rng) -> raises Fail (or AssertionError via expect)"""
        def deco(f):
            self.fns.append((f.__name__, f, n, weight, tmax, deterministic))
            return f
        return deco

    def main(self):
        np = self.np
        replay = None
        if self.a.replay:
            d = json.load(open(self.a.replay))
            replay = [(f["check"], f["case"]) for f in d["failures"]]
            ok = True
            tab = {f[0]: f[1] for f in self.fns}
            for name, case in replay:
                try:
                    tab[name](np.random.default_rng(case["rng"]))
                    print("replay", name, case, "-> holds")
                except Exception as e:
                    ok = False
                    print("replay", name, case, "-> FAILS:", e)
            sys.exit(0 if ok else 1)
        scale = 1 if self.tier == "quick" else 10
        for idx, (name, f, n, w, tmax, det) in enumerate(self.fns):
            if self.a.only and self.a.only not in name:
                continue
            cnt, bad = 0, 0
            tstart = time.time()
            lim = (tmax or 60) * scale
            total = 1 if det else n * scale
            for k in range(total):
                if time.time() - tstart > lim or time.time() - self.t0 > self.budget * 8:
                    break
                key = [self.seed, idx, k]
                rng = np.random.default_rng(key)
                cnt += 1
                try:
                    f(rng)
                except Skip:
                    cnt -= 1
                    self.skipped[name] = self.skipped.get(name, 0) + 1
                except Fail as e:
                    bad += 1
                    if bad <= 3:
                        self.failures.append({"check": name, "case": {"rng": key}, "detail": str(e)[:1500],
                                              "signature": getattr(e, "signature", name)})
                except Gap as e:
                    self.skipped[name] = self.skipped.get(name, 0) + 1
                except Exception as e:
                    bad += 1
                    if bad <= 3:
                        tb = traceback.format_exc()
                        if harness_error(e):
                            self.skipped[name + ":harness"] = tb[-400:]
                        else:
                            self.failures.append({"check": name, "case": {"rng": key}, "signature": name + ":exception",
                                                  "detail": f"{type(e).__name__}: {e}\n" + tb[-1200:]})
                if bad >= 3:
                    break
            self.checks[name] = cnt
            self.cases += cnt
            self.dump()
        self.dump()
        print(json.dumps({"failures": self.failures, "checks": self.checks, "skipped": self.skipped}, indent=1, default=str)
              if not self.a.out else "")

    def dump(self):
        if self.a.out:
            tmp = self.a.out + ".tmp"
            json.dump({"failures": self.failures, "checks": self.checks, "cases": self.cases, "skipped": self.skipped},
                      open(tmp, "w"), default=str)
            os.replace(tmp, self.a.out)


class Skip(Exception):
    """the generated input does not meet the precondition"""


class Gap(Exception):
    """the harness could not observe this (e.g. an internal name moved)"""


def harness_error(e):
    """an exception raised by the harness itself (innermost frame in /verif/oracles
    and an import/attribute problem) is not a finding"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None:
        mro = type(e.obj).__mro__        # a stand-in of the harness lacks what (rewritten) code asks of the real thing
        if not any(c.__module__.startswith("forcepho") for c in mro) and \
                any(c.__module__.startswith("oracles") or c.__module__ == "__main__" or c.__name__ == "SimpleNamespace" for c in mro):
            return True
    return "/oracles/" in fn and isinstance(e, (ImportError, AttributeError, NameError, TypeError, KeyError)) \
        and not isinstance(e, Fail)


def expect(cond, msg="", signature=None):
    if not cond:
        e = Fail(msg)
        if signature:
            e.signature = signature
        raise e


def close(a, b, rtol=1e-6, atol=1e-9, what="", signature=None):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    expect(a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}", signature)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=False)
    if not np.all(ok):
        j = np.argwhere(~ok)[0] if a.ndim else ()
        j = tuple(int(x) for x in j)
        raise_fail(f"{what}: at {j} got {a[j]!r} expected {b[j]!r} ({int((~ok).sum())} of {ok.size} differ)", signature)


def same(a, b, what="", signature=None):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}", signature)
    expect(bool(np.all(a == b)), f"{what}: {a!r:.200} != {b!r:.200}", signature)


def raise_fail(msg, signature=None):
    e = Fail(msg)
    if signature:
        e.signature = signature
    raise e
