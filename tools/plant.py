"""Development tool: plant a bug from a spec file, confirm it in a scratch copy
(demo, stable tests) and store it under seeded/.

usage: plant.py SPEC.py [ID...]       confirm and store
       plant.py --check [ID...]       run the property's quick check against stored bugs
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$d/demo.py"
"""


def copy(dst):
    subprocess.run(["git", "clone", "-q", "/repo", dst], check=True)


def stable(repo, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo + "/src", LC_ALL="C.UTF-8",
               MPLBACKEND="Agg", BROWSER="/bin/true", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                    "-c", "tests/pytest.ini", "--rootdir=" + repo, "--tb=no", "--show-capture=no", "-o", "junit_family=xunit2",
                    "--junitxml=" + out, "tests"], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    passed = set()
    for tc in ET.parse(out).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            passed.add(tc.get("classname") + "::" + tc.get("name"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - passed)


def demo(path, repo):
    try:
        p = subprocess.run(["sh", path], cwd=repo, capture_output=True, text=True, timeout=280)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, (p.stdout + p.stderr)[-600:]


def check(pid, repo, workers=8):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_WORKERS=str(workers))
    p = subprocess.run([os.path.join(V, "check"), "check", pid, "quick"], cwd=V, env=env, capture_output=True, text=True)
    return p.returncode, "\n".join(l[:300] for l in p.stdout.splitlines() if "class=" in l or "VIOLATION" in l or "HARNESS" in l or "runs=" in l)


def one(spec):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        copy(repo)
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            data = open(p, newline="").read()
            if "\r\n" in data:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if data.count(old) != 1:
                return spec["id"], "EDIT matches %d times: %r" % (data.count(old), old[:60])
            open(p, "w", newline="").write(data.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout
        sd = os.path.join(d, "seed")
        os.mkdir(sd)
        open(os.path.join(sd, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        open(os.path.join(sd, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
        r0 = demo(os.path.join(sd, "demo.sh"), "/repo")
        r1 = demo(os.path.join(sd, "demo.sh"), repo)
        if r0[0] != 0 or r1[0] == 0:
            return spec["id"], "DEMO unchanged=%r patched=%r" % (r0, r1)
        bad = stable(repo, os.path.join(d, "junit.xml"))
        if bad:
            return spec["id"], "TESTS see it: %s" % bad[:4]
        open(os.path.join(sd, "patch.diff"), "wb").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]},
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        dst = os.path.join(V, "seeded", spec["id"])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(sd, dst)
        return spec["id"], "PLANTED demo: %s" % r1[1].strip().splitlines()[-1][:160]
    finally:
        shutil.rmtree(d)


def checkone(id, workers=8):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        copy(repo)
        subprocess.run(["git", "apply", os.path.join(V, "seeded", id, "patch.diff")], cwd=repo, check=True)
        pid = json.load(open(os.path.join(V, "seeded", id, "meta.json")))["property"]
        rc, out = check(pid, repo, workers)
        return "%s %s %s\n%s" % ("CAUGHT" if rc == 1 else "MISSED" if rc == 0 else "ERROR", id, pid, out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            print(checkone(i), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        specs = [s for s in ns["SPECS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(one, specs):
                print(*r, flush=True)
