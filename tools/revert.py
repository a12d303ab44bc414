"""Development tool: revert each repair alone in a scratch clone, see that the
property's check reports the defect again, keep the minimised plan under regressions/.

usage: revert.py [HASH...]
"""
import json
import os
import re
import shutil
import subprocess
import sys

import plant

V = plant.V


def main(want):
    for line in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
        m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", line)
        pid, h, what = m.groups()
        if want and h not in want:
            continue
        repo = "/tmp/revert-" + h
        if os.path.exists(repo):
            shutil.rmtree(repo)
        plant.copy(repo)
        p = subprocess.run(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x", "revert", "--no-edit", h], capture_output=True, text=True)
        if p.returncode:
            print(h, pid, "CONFLICT", what, flush=True)
        else:
            rc, out = plant.check(pid, repo)
            m = re.search(r"replay=(\S+)", out)
            cls = re.search(r"class=(\S+)", out)
            print(h, pid, "CAUGHT" if rc == 1 else "*** MISSED rc=%d" % rc, cls and cls.group(1), what, flush=True)
            if rc == 1 and m and "/regressions/" not in m.group(1):
                to = os.path.join(V, "regressions", "%s-%s.json" % (pid, h))
                shutil.copy(m.group(1), to)
                q = subprocess.run([os.path.join(V, "check"), "exec", to], cwd=V, capture_output=True, text=True)
                if '"cls": null' not in q.stdout or '"harness": null' not in q.stdout:
                    print("    the minimised plan fails on the unchanged tree, not kept", flush=True)
                    os.remove(to)
        shutil.rmtree(repo)


if __name__ == "__main__":
    main(sys.argv[1:])
