"""Batch runner: seeded search over many simulated runs on all cores, evidence,
shrinking, replay and the exit code of a check."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


def load(pid):
    core.use_repo()
    mod = importlib.import_module("sim.scen." + pid.lower())
    scen = mod.SCENARIO
    assert scen.ID == pid
    return scen


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(pid, seed, tier, wid, nworkers, total, deadline, conn, current, stop):
    try:
        _limits()
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        scen = load(pid)
        scen.setup()
        agg = dict(runs=0, nontrivial=0, steps=0, events=0, faults={}, probes={},
                   keys=set(), states=set(), samples=[], recheck=0, diverged=[], reused=0)
        i = wid
        while i < total and not stop.value and time.monotonic() < deadline:
            current[wid] = i
            plan = core.gen_plan(scen, seed, i, tier)
            # a plan must survive the JSON round trip, it is the replay file
            plan = json.loads(json.dumps(plan))
            out = core.execute_plan(scen, plan)
            agg["runs"] += 1
            agg["steps"] += out.steps
            agg["events"] += out.events
            for k, v in out.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in out.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            agg["states"] |= out.states
            if out.nontrivial:
                agg["nontrivial"] += 1
                agg["keys"].add(core.plan_key(plan))
                if len(agg["samples"]) < 1 and wid < 3:
                    agg["samples"].append(plan)
            if out.harness:
                conn.send(("harness", i, plan, out.harness))
                break
            if out.cls is not None:
                kn = known_match(pid, scen, plan, out)
                if kn is None:
                    conn.send(("violation", i, plan, out.cls, out.msg))
                    break
                agg["probes"]["known:" + kn] = agg["probes"].get("known:" + kn, 0) + 1
            if agg["runs"] % 37 == 1:
                # determinism recheck: the same plan again must give the same event log
                o2 = core.execute_plan(scen, plan)
                agg["recheck"] += 1
                if o2.digest != out.digest:
                    agg["diverged"].append(i)
            i += nworkers
        conn.send(("done", agg))
    except BaseException:
        try:
            conn.send(("harness", -1, None, traceback.format_exc()))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def known_list(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == pid]


def known_match(pid, scen, plan, out):
    """Name of the listed finding this violation is, or None."""
    ks = known_list(pid)
    if not ks:
        return None
    name = scen.known(plan, out)
    if name is not None and any(k["name"] == name for k in ks):
        return name
    return None


def git_head():
    try:
        return subprocess.run(["git", "-C", core.REPO, "rev-parse", "--short", "HEAD"],
                              capture_output=True, text=True, timeout=20).stdout.strip()
    except Exception:
        return ""


def fresh_exec(path, timeout=300):
    """Execute a replay file in a fresh interpreter. Returns (status, data):
    'ok'|'violation'|'harness'|'crash'|'timeout'."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    try:
        p = subprocess.run([sys.executable, "-m", "sim", "exec", path], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", None
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("RESULT "):
            d = json.loads(line[7:])
            if d["harness"]:
                return "harness", d
            return ("violation" if d["cls"] else "ok"), d
    if p.returncode < 0:
        return "crash", {"signal": -p.returncode}
    return "harness", {"harness": p.stdout[-2000:] + p.stderr[-3000:]}


def write_replay(pid, seed, index, plan, cls, msg, original, before=()):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-s%d-i%d.json" % (pid, seed, index))
    d = {"property": pid, "seed": seed, "index": index, "class": cls, "message": msg,
         "plan": plan, "original_ops": len(original.get("ops", [])),
         "minimised_ops": len(plan.get("ops", [])), "repo_head": git_head(),
         "how_to_replay": "cd /verif && ./check replay " + path}
    if before:
        # plans run before in the same process, the violation needs what they left behind
        d["before"] = list(before)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def _with_history(scen, seed, tier, idx, nworkers, plan, cls, msg, wall=240):
    """A violation that needs the state left in the process by earlier runs: find
    a short sequence of runs that shows it in a fresh process."""
    end = time.monotonic() + wall
    pid = scen.ID
    hist = []
    for j, i in enumerate(range(idx % nworkers, idx, nworkers)):
        p = json.loads(json.dumps(core.gen_plan(scen, seed, i, tier)))
        hist += [p, p] if j % 37 == 0 else [p]

    def shows(before, pl=plan):
        left = end - time.monotonic()
        if left < 1:
            return False
        path = write_replay(pid, seed, idx, pl, cls, msg, plan, before)
        st, d = fresh_exec(path, timeout=left)
        return st == "violation" and d["cls"] == cls

    n, found = 1, None
    while found is None:
        if shows(hist[-n:]):
            found = hist[-n:]
        elif n >= len(hist):
            return None
        n *= 4
    # fewer runs before
    k = len(found)
    while k >= 1:
        i = 0
        while i < len(found):
            t = found[:i] + found[i + k:]
            if t and shows(t):
                found = t
            else:
                i += k
        k //= 2
    # fewer operations in each of them
    for q in list(range(len(found))) + [None]:
        cur = plan if q is None else found[q]
        k = len(cur.get("ops", []))
        while k >= 1:
            i = 0
            while i < len(cur["ops"]):
                t = dict(cur, ops=cur["ops"][:i] + cur["ops"][i + k:])
                if q is None:
                    ok = shows(found, t)
                else:
                    ok = shows(found[:q] + [t] + found[q + 1:], plan)
                if ok:
                    cur = t
                    if q is None:
                        plan = t
                    else:
                        found[q] = t
                else:
                    i += k
            k //= 2
    return write_replay(pid, seed, idx, plan, cls, msg, plan, found)


def check(pid, tier, seed, runs=None, wall=None, workers=None):
    t0 = time.monotonic()
    scen = load(pid)
    total = runs or (scen.QUICK_RUNS if tier == "quick" else scen.THOROUGH_RUNS)
    wall = wall or (scen.QUICK_WALL if tier == "quick" else scen.THOROUGH_WALL)
    nworkers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    nworkers = max(1, min(nworkers, total))
    print("check property=%s tier=%s VERIF_SEED=%d runs<=%d workers=%d wall<=%ds"
          % (pid, tier, seed, total, nworkers, wall), flush=True)
    # listed findings first: each must still fail exactly as recorded
    for k in known_list(pid):
        st, d = fresh_exec(os.path.join(VERIF, k["plan"]))
        if st == "violation" and d["cls"] == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
        else:
            print("note: listed finding %s no longer reproduces (%s)" % (k["name"], st))
    # regression histories: minimised plans of repaired defects and of planted bugs
    regress = _regressions(pid)
    # processes are forked: load the code under test once per worker, not here
    ctx = mp.get_context("fork")
    deadline = time.monotonic() + wall
    stop = ctx.Value("b", 0, lock=False)
    current = ctx.Array("q", [-1] * nworkers, lock=False)
    procs, conns = [], []
    for w in range(nworkers):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(pid, seed, tier, w, nworkers, total, deadline, s, current, stop))
        p.start()
        s.close()
        procs.append(p)
        conns.append(r)
    aggs, violations, harness, crashed = [], [], [], []
    pending = dict(enumerate(conns))
    last = {w: (-1, time.monotonic()) for w in pending}
    import multiprocessing.connection as mpc
    while pending:
        ready = mpc.wait(list(pending.values()), timeout=1.0)
        for w, c in list(pending.items()):
            if c in ready:
                try:
                    m = c.recv()
                except EOFError:
                    # the worker died without a verdict
                    crashed.append((w, current[w]))
                    del pending[w]
                    continue
                if m[0] == "done":
                    aggs.append(m[1])
                    del pending[w]
                elif m[0] == "violation":
                    violations.append(m[1:])
                    stop.value = 1
                elif m[0] == "harness":
                    harness.append(m[1:])
                    stop.value = 1
                    if m[1] == -1:
                        del pending[w]
            else:
                cur = current[w]
                if last[w][0] != cur:
                    last[w] = (cur, time.monotonic())
                elif time.monotonic() - last[w][1] > 120:
                    procs[w].kill()
                    crashed.append((w, cur))
                    del pending[w]
        if violations or harness:
            # give the others a moment to finish their current run
            deadline2 = time.monotonic() + 20
            while pending and time.monotonic() < deadline2:
                for c in mpc.wait(list(pending.values()), timeout=1.0):
                    w = [k for k, v in pending.items() if v is c][0]
                    try:
                        m = c.recv()
                    except EOFError:
                        del pending[w]
                        continue
                    if m[0] == "done":
                        aggs.append(m[1])
                        del pending[w]
                    elif m[0] == "violation":
                        violations.append(m[1:])
                    elif m[0] == "harness":
                        harness.append(m[1:])
                        if m[1] == -1:
                            del pending[w]
            break
    for p in procs:
        if p.is_alive() and pending:
            p.kill()
        p.join(timeout=10)
    search_wall = time.monotonic() - t0

    result = None
    if crashed and not violations:
        for w, idx in crashed:
            if idx < 0:
                harness.append((idx, None, "worker died before its first run"))
                continue
            plan = json.loads(json.dumps(core.gen_plan(scen, seed, idx, tier)))
            path = write_replay(pid, seed, idx, plan, "process-crash", "interpreter died", plan)
            st, d = fresh_exec(path, timeout=200)
            if st == "crash":
                plan2 = _shrink_crash(pid, seed, idx, plan)
                path = write_replay(pid, seed, idx, plan2, "process-crash",
                                    "the interpreter is killed by signal %s" % d["signal"], plan)
                result = (path, "process-crash", "the interpreter is killed by signal %s" % d["signal"])
                break
            harness.append((idx, plan, "worker died or stalled in run %d, fresh run: %s" % (idx, st)))
    for name, rplan in regress:
        if result or violations:
            break
        st, d = fresh_exec(name)
        if st == "violation":
            result = (name, d["cls"], d["msg"])
        elif st == "crash":
            result = (name, "process-crash", "killed by signal %s" % d["signal"])
        elif st != "ok":
            harness.append((-1, None, "regression plan %s: %s %s" % (name, st, d)))
    if violations and result is None:
        violations.sort(key=lambda v: v[0])
        for idx, plan, cls, msg in violations[:4]:
            scen.setup()
            small, execs = core.shrink(scen, plan, cls)
            o = core.execute_plan(scen, small)
            if o.cls != cls:
                small, o = plan, core.execute_plan(scen, plan)
            path = write_replay(pid, seed, idx, small, cls, o.msg or msg, plan)
            st, d = fresh_exec(path)
            if st == "violation":
                result = (path, d["cls"], d["msg"])
                break
            # state leaked between runs in one process: fall back to the full plan
            path = write_replay(pid, seed, idx, plan, cls, msg, plan)
            st, d = fresh_exec(path)
            if st == "violation":
                result = (path, d["cls"], d["msg"])
                break
            harness.append((idx, plan, "violation %s (%s) did not replay in a fresh process: %s" % (cls, msg, st)))
        if result is None:
            idx, plan, cls, msg = violations[0]
            path = _with_history(scen, seed, tier, idx, nworkers, plan, cls, msg)
            if path:
                st, d = fresh_exec(path)
                if st == "violation":
                    result = (path, d["cls"], d["msg"])
    tot = _merge(aggs)
    nviol = 1 if result else 0
    wall_s = time.monotonic() - t0
    _evidence(scen, tier, seed, tot, nviol, wall_s, search_wall, nworkers, harness, len(regress))
    print("runs=%d distinct_nontrivial=%d steps=%d states=%d faults=%s wall=%.1fs"
          % (tot["runs"], len(tot["keys"]), tot["steps"], len(tot["states"]),
             json.dumps(tot["faults"], sort_keys=True), wall_s), flush=True)
    if result:
        path, cls, msg = result
        print("class=%s %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if harness:
        for h in harness[:3]:
            print("HARNESS-ERROR run=%s\n%s" % (h[0], h[-1]), flush=True)
        return 2
    if tot["runs"] == 0:
        print("HARNESS-ERROR nothing was run")
        return 2
    if tot["diverged"]:
        print("note: %d of %d re-executed runs gave another event log: %s"
              % (len(tot["diverged"]), tot["recheck"], tot["diverged"][:5]))
    print("OK property=%s held on everything explored" % pid, flush=True)
    return 0


def _regressions(pid):
    d = os.path.join(VERIF, "regressions")
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.startswith(pid + "-") and n.endswith(".json"):
                p = os.path.join(d, n)
                out.append((p, None))
    return out


def _shrink_crash(pid, seed, idx, plan):
    cur = plan
    tmp = os.path.join(REPLAYS, "%s-shrink.json" % pid)
    t_end = time.monotonic() + 60
    n = max(1, len(cur.get("ops", [])) // 2)
    while n >= 1 and time.monotonic() < t_end:
        i = 0
        while i < len(cur["ops"]) and time.monotonic() < t_end:
            cand = dict(cur)
            cand["ops"] = cur["ops"][:i] + cur["ops"][i + n:]
            with open(tmp, "w") as f:
                json.dump({"property": pid, "plan": cand}, f)
            if fresh_exec(tmp, timeout=30)[0] == "crash":
                cur = cand
            else:
                i += n
        if n == 1:
            break
        n //= 2
    if os.path.exists(tmp):
        os.unlink(tmp)
    return cur


def _merge(aggs):
    tot = dict(runs=0, nontrivial=0, steps=0, events=0, faults={}, probes={}, keys=set(),
               states=set(), samples=[], recheck=0, diverged=[])
    for a in aggs:
        for k in ("runs", "nontrivial", "steps", "events", "recheck"):
            tot[k] += a[k]
        for k in ("faults", "probes"):
            for n, v in a[k].items():
                tot[k][n] = tot[k].get(n, 0) + v
        tot["keys"] |= a["keys"]
        tot["states"] |= a["states"]
        tot["samples"] += a["samples"]
        tot["diverged"] += a["diverged"]
    return tot


def _short(plan, limit=1800):
    s = json.dumps(plan, sort_keys=True)
    if len(s) <= limit:
        return plan
    return {"truncated_plan": s[:limit]}


def _evidence(scen, tier, seed, tot, nviol, wall_s, search_wall, nworkers, harness, nregress):
    os.makedirs(EVID, exist_ok=True)
    rate = tot["runs"] / max(search_wall, 1e-6) * 3600
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["keys"]),
        "rule": scen.RULE,
        "samples": [_short(p) for p in sorted(tot["samples"], key=lambda p: p["index"])[:3]],
        "simulated_runs_per_hour": int(rate),
        "seeds_per_hour": int(rate),
        "simulated_time": {"unit": "steps of the code under test (function entries and jumps) "
                                   "plus simulated clock ticks where the scenario has a clock",
                           "total": tot["steps"]},
        "recorded_events": tot["events"],
        "faults_fired": dict(sorted(tot["faults"].items())),
        "probes_hit": dict(sorted(tot["probes"].items())),
        "distinct_states": {"measure": scen.STATE_MEASURE if hasattr(scen, "STATE_MEASURE") else
                            "distinct hashes of the observed state after each operation",
                            "count": len(tot["states"])},
        "determinism_recheck": {"reexecuted": tot["recheck"], "diverged": len(tot["diverged"])},
        "regression_plans_replayed": nregress,
        "workers": nworkers,
        "components": {"real": scen.REAL, "stub": scen.STUB},
    }
    if not cov["samples"]:
        cov["samples"] = ["no completed run"]
    ev = {"property": scen.ID, "tier": tier, "seed": seed, "level": scen.LEVEL,
          "coverage": cov, "assumptions": scen.ASSUME, "wall_s": round(wall_s, 3),
          "violations": nviol}
    tmp = os.path.join(EVID, scen.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, scen.ID + ".json"))


def exec_file(path):
    """Execute one replay file in this process and print RESULT."""
    with open(path) as f:
        d = json.load(f)
    scen = load(d["property"])
    _limits()
    scen.setup()
    for p in d.get("before", []):
        core.execute_plan(scen, p)
    o = core.execute_plan(scen, d["plan"])
    print("RESULT " + json.dumps({"cls": o.cls, "msg": o.msg, "harness": o.harness, "digest": o.digest}))
    return 0


def replay(path, verbose=True):
    with open(path) as f:
        d = json.load(f)
    scen = load(d["property"])
    _limits()
    scen.setup()
    for p in d.get("before", []):
        o = core.execute_plan(scen, p, keep_log=True)
        for l in o.log:
            print("  " + l)
        print("  -- next run in the same process")
    o = core.execute_plan(scen, d["plan"], keep_log=True)
    for l in o.log:
        print("  " + l)
    if o.harness:
        print("HARNESS-ERROR " + o.harness)
        return 2
    if o.cls:
        print("class=%s %s" % (o.cls, o.msg))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation: digest=%s" % o.digest)
    return 0


def digests(pid, seed, n, tier="quick", start=0):
    scen = load(pid)
    scen.setup()
    for i in range(start, start + n):
        plan = json.loads(json.dumps(core.gen_plan(scen, seed, i, tier)))
        o = core.execute_plan(scen, plan)
        print(i, o.digest, o.cls, (o.harness or "")[-200:].replace("\n", "|"))
    return 0
