"""setup_cmd: nothing to build; verify that the tools the checks need are there."""
import subprocess, sys
VT, PY = "/opt/veriftools/pyvenv/bin/python", "/opt/venv/bin/python"
ok = True
for cmd in ([VT, "-c", "import z3, cvc5, sympy"], [PY, "-c", "import numpy, scipy, astropy, h5py"], ["g++", "--version"], ["clang", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(cmd[0], cmd[-1][:30], "ok" if r.returncode == 0 else r.stderr[-300:])
    ok &= r.returncode == 0
sys.exit(0 if ok else 1)
