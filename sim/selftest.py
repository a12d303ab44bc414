"""Determinism self-test: the same seeds in other processes, in another order
and under another hash seed must give the same event logs."""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from .runner import VERIF


def ids():
    d = os.path.join(VERIF, "sim", "scen")
    return sorted(n[:-3].upper() for n in os.listdir(d) if n[0] == "c" and n[1:-3].isdigit() and n.endswith(".py"))


def _digests(pid, n, hashseed, start=0):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-m", "sim", "digests", pid, str(n), str(start)], cwd=VERIF, env=env,
                       capture_output=True, text=True, timeout=900)
    if p.returncode != 0:
        return {"error": p.stdout[-500:] + p.stderr[-1500:]}
    out = {}
    for line in p.stdout.splitlines():
        w = line.split(" ", 1)
        if w[0].isdigit():
            out[int(w[0])] = w[1]
    return out


def check_one(pid, n):
    a = _digests(pid, n, 0)
    if "error" in a:
        return pid, ["failed: " + a["error"]]
    bad = []
    b = _digests(pid, n, 4242)
    c = _digests(pid, n - n // 2, 0, n // 2)
    for name, o in (("other hash seed", b), ("other starting point", c)):
        if "error" in o:
            bad.append(name + " failed: " + o["error"])
            continue
        bad += ["run %d differs (%s): %s | %s" % (i, name, a[i], o[i]) for i in sorted(o) if a.get(i) != o[i]]
    return pid, bad


def main(args):
    n = int(args[0]) if args else 200
    which = args[1:] or ids()
    rc = 0
    with ThreadPoolExecutor(4) as ex:
        for pid, bad in ex.map(lambda p: check_one(p, n), which):
            print(pid, "deterministic over %d seeds x 3 processes" % n if not bad else "NOT DETERMINISTIC", flush=True)
            for b in bad[:5]:
                print("   ", b)
                rc = 2
    return rc


def setup():
    """Nothing to build: the checks import the working tree of /repo.  Make
    sure the interpreter and the packages are there."""
    import numpy, scipy, gmsh, bih   # noqa: F401
    print("interpreter", sys.executable, "numpy", numpy.__version__, "scipy", scipy.__version__)
    return main(["25"])
