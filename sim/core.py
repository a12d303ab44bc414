"""Core of the deterministic simulator.

A *plan* is a JSON value that fully determines one execution: configuration,
operations and injected faults.  A scenario generates plans from a seeded PRNG
(`gen`) and executes them (`execute`).  Nothing else may be drawn from anywhere
while a plan executes, so a plan file is a replay file.
"""
import copy
import hashlib
import json
import os
import random
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def use_repo():
    """Make `import bgem` take the current working tree of the repository."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True


class Violation(Exception):
    """The property is broken.  `cls` is the violation class kept by the
    shrinker, `msg` the human readable description."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself failed: never a verdict."""


class StepBudget(BaseException):
    """The code under test used more simulated steps than any legal run."""


class Injected(Exception):
    """Default injected failure (a user callback, a collaborator)."""


class InjectedBase(BaseException):
    """Injected cancellation (stands for KeyboardInterrupt and friends)."""


def derive_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


# --------------------------------------------------------------------------
# Simulated step clock: counts function entries and jumps executed in the code
# under test.  It is the simulated time of a run and bounds every call.
# --------------------------------------------------------------------------
class Monitor:
    TOOL = 3

    def __init__(self):
        self.prefix = SRC + os.sep
        self.steps = 0
        self.limit = None
        self.line_hook = None
        self._on = False

    def start(self):
        if self._on:
            return
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-sim")
        E = m.events
        m.register_callback(self.TOOL, E.PY_START, self._py_start)
        m.register_callback(self.TOOL, E.JUMP, self._jump)
        m.register_callback(self.TOOL, E.LINE, self._line)
        m.set_events(self.TOOL, E.PY_START | E.JUMP)
        self._on = True

    def lines(self, hook):
        """Install (or remove, None) a hook called before every line of the
        code under test."""
        E = sys.monitoring.events
        self.line_hook = hook
        ev = E.PY_START | E.JUMP
        if hook is not None:
            ev |= E.LINE
        sys.monitoring.set_events(self.TOOL, ev)
        sys.monitoring.restart_events()

    def _py_start(self, code, off):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepBudget()

    def _jump(self, code, off, dst):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepBudget()

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        h = self.line_hook
        if h is not None:
            h(code, line)


MON = Monitor()


class Ctx:
    """What a running plan sees: event log, counters, guarded calls."""

    CALL_STEPS = 5_000_000

    def __init__(self, keep_log=False):
        self._h = hashlib.sha256()
        self.events = 0
        self.log_lines = [] if keep_log else None
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0

    # -- recording ---------------------------------------------------------
    def log(self, *parts):
        line = " ".join(p if isinstance(p, str) else repr(p) for p in parts)
        self.events += 1
        self._h.update(line.encode("utf-8", "backslashreplace"))
        self._h.update(b"\n")
        if self.log_lines is not None:
            self.log_lines.append(line)

    def digest(self):
        return self._h.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, value):
        """Record a state reached (bounded memory: 8-byte hash)."""
        b = value if isinstance(value, bytes) else repr(value).encode()
        self.states.add(hashlib.blake2b(b, digest_size=8).digest())

    # -- verdicts ----------------------------------------------------------
    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def expect(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    # -- guarded calls into the code under test -----------------------------
    def run(self, fn, *args, **kw):
        """Call with a step budget; let exceptions through."""
        saved = MON.limit
        MON.limit = MON.steps + self.CALL_STEPS
        try:
            return fn(*args, **kw)
        except StepBudget:
            raise Violation("no-termination", "%s used more than %d simulated steps"
                            % (getattr(fn, "__name__", "call"), self.CALL_STEPS))
        finally:
            MON.limit = saved

    def call(self, what, fn, *args, **kw):
        """Call in a fault free context: any exception is a violation."""
        try:
            return self.run(fn, *args, **kw)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("exception:%s:%s" % (what, type(e).__name__),
                            "%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], where(e)))

    def attempt(self, fn, *args, **kw):
        """Call where failing is allowed: returns (value, exception)."""
        try:
            return self.run(fn, *args, **kw), None
        except (Violation, HarnessError):
            raise
        except (Exception, InjectedBase) as e:
            return None, e


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for f in tb[-4:]:
        out.append("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name))
    return " < ".join(reversed(out))


class Scenario:
    """One property.  Subclasses define gen and execute."""
    ID = None
    QUICK_RUNS = 2000
    THOROUGH_RUNS = 60000
    QUICK_WALL = 60
    THOROUGH_WALL = 780
    LEVEL = "exploration"
    RULE = ""
    REAL = []
    STUB = []
    ASSUME = []
    NEEDS_PROCESS = False

    def setup(self):
        """Once per process."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def nontrivial(self, plan, ctx):
        return len(plan.get("ops", [])) >= 3

    def known(self, plan, violation):
        return None

    def simplify_op(self, op):
        return generic_simplify(op)

    def simplify_config(self, conf):
        """Smaller configurations.  Meshes lose whole entities: other numbers in an
        element would make it something else, or nonsense."""
        rest = {k: v for k, v in conf.items() if k != "meshes"}
        out = [dict(c[1], meshes=conf["meshes"]) if "meshes" in conf else c[1] for c in generic_simplify(["c", rest])]
        for i, mesh in enumerate(conf.get("meshes", [])):
            for part in ("els", "phys"):
                for j in range(len(mesh.get(part, []))):
                    less = dict(mesh, **{part: mesh[part][:j] + mesh[part][j + 1:]})
                    out.append(dict(conf, meshes=conf["meshes"][:i] + [less] + conf["meshes"][i + 1:]))
        return out


def generic_simplify(op):
    """Smaller variants of one operation: numbers toward zero, lists shorter."""
    out = []

    def rec(value, rebuild, depth):
        if isinstance(value, bool):
            if value:
                out.append(rebuild(False))
        elif isinstance(value, int):
            if value > 0:
                out.append(rebuild(0))
                if value > 3:
                    out.append(rebuild(value // 2))
                if value > 1:
                    out.append(rebuild(value - 1))
            elif value < 0:
                out.append(rebuild(0))
                out.append(rebuild(-value))
        elif isinstance(value, list):
            for i in range(len(value)):
                rec(value[i], lambda v, i=i: rebuild(value[:i] + [v] + value[i + 1:]), depth + 1)
        elif isinstance(value, dict):
            for k in sorted(value):
                rec(value[k], lambda v, k=k: rebuild({**value, k: v}), depth + 1)

    rec(op[1:] if op else op, lambda v: [op[0]] + v, 0)
    return out[:60]


class Outcome:
    __slots__ = ("cls", "msg", "harness", "digest", "events", "steps", "faults",
                 "probes", "states", "nontrivial", "log")


def execute_plan(scen, plan, keep_log=False):
    """Run one plan; classify the outcome."""
    ctx = Ctx(keep_log)
    MON.start()
    s0 = MON.steps
    out = Outcome()
    out.cls = out.msg = out.harness = None
    try:
        scen.execute(copy.deepcopy(plan), ctx)  # a plan is data: code that edits its arguments must not edit it
    except Violation as v:
        out.cls, out.msg = v.cls, v.msg
        ctx.log("VIOLATION", v.cls)
    except StepBudget:
        out.cls, out.msg = "no-termination", "step budget exceeded outside a guarded call"
    except (KeyboardInterrupt, SystemExit):
        raise
    except (HarnessError, MemoryError, OSError, ImportError) as e:
        out.harness = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    except Exception as e:
        # what the code under test handed back cannot be interpreted
        out.cls = "uninterpretable:" + type(e).__name__
        out.msg = "the observed state makes no sense: %s: %s [%s]" % (type(e).__name__, str(e)[:300], where(e))
        ctx.log("VIOLATION", out.cls)
    except BaseException as e:
        out.harness = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    finally:
        MON.limit = None
        if MON.line_hook is not None:
            MON.lines(None)
    out.digest = ctx.digest()
    out.events = ctx.events
    out.steps = MON.steps - s0 + ctx.simtime
    out.faults = ctx.faults
    out.probes = ctx.probes
    out.states = ctx.states
    out.log = ctx.log_lines
    out.nontrivial = bool(out.cls is None and scen.nontrivial(plan, ctx))
    return out


def gen_plan(scen, seed, index, tier):
    rng = random.Random(derive_seed(scen.ID, seed, index))
    plan = scen.gen(rng, tier)
    plan["property"] = scen.ID
    plan["seed"] = seed
    plan["index"] = index
    return plan


def plan_key(plan):
    p = {k: v for k, v in plan.items() if k not in ("seed", "index")}
    return hashlib.blake2b(json.dumps(p, sort_keys=True).encode(), digest_size=8).digest()


def shrink(scen, plan, cls, max_exec=1500, execute=None, wall=60):
    """Delta-debug the plan keeping the violation class."""
    import time
    t_end = time.monotonic() + wall
    count = [0]

    def still(p):
        if count[0] >= max_exec or time.monotonic() > t_end:
            return False
        count[0] += 1
        o = (execute or execute_plan)(scen, p)
        return o.cls == cls

    cur = json.loads(json.dumps(plan))
    if "ops" not in cur:
        return cur, count[0]
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        # drop chunks of operations
        n = max(1, len(cur["ops"]) // 2)
        while n >= 1:
            i = 0
            while i < len(cur["ops"]):
                cand = dict(cur)
                cand["ops"] = cur["ops"][:i] + cur["ops"][i + n:]
                if still(cand):
                    cur = cand
                    changed = True
                else:
                    i += n
            if n == 1:
                break
            n //= 2
        # simplify arguments
        i = 0
        while i < len(cur["ops"]):
            progress = True
            tries = 0
            while progress and tries < 20:
                progress = False
                tries += 1
                for op in scen.simplify_op(cur["ops"][i]):
                    if op == cur["ops"][i]:
                        continue
                    cand = dict(cur)
                    cand["ops"] = cur["ops"][:i] + [op] + cur["ops"][i + 1:]
                    if still(cand):
                        cur = cand
                        progress = changed = True
                        break
            i += 1
        # simplify configuration
        if isinstance(cur.get("config"), dict):
            for conf in scen.simplify_config(cur["config"]):
                cand = dict(cur)
                cand["config"] = conf
                if still(cand):
                    cur = cand
                    changed = True
        if count[0] >= max_exec or time.monotonic() > t_end:
            break
    return cur, count[0]
