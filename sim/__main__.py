import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}


def main(argv):
    from . import runner
    cmd = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(argv) > 2:
            tier = argv[2]
        kw = {}
        for a in argv[3:]:
            k, v = a.split("=")
            kw[k] = int(v)
        return runner.check(argv[1], tier, seed, **kw)
    if cmd == "exec":
        return runner.exec_file(argv[1])
    if cmd == "replay":
        return runner.replay(argv[1])
    if cmd == "digests":
        return runner.digests(argv[1], seed, int(argv[2]), start=int(argv[3]) if len(argv) > 3 else 0)
    if cmd == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    if cmd == "setup":
        from . import selftest
        return selftest.setup()
    print("unknown command", cmd)
    return 2


if __name__ == "__main__":
    changed = False
    for k, v in ENV.items():
        if os.environ.get(k) != v:
            os.environ[k] = v
            changed = True
    if "PYTHONHASHSEED" not in os.environ or os.environ["PYTHONHASHSEED"] == "random":
        os.environ["PYTHONHASHSEED"] = "0"
        changed = True
    if changed:
        os.execv(sys.executable, [sys.executable, "-m", "sim"] + sys.argv[1:])
    sys.exit(main(sys.argv[1:]))
