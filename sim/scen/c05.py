"""C05/C06/C07: the undo history against a reference history, with failing
user code injected (C06) and several stacks switched (C07)."""
from ..core import Scenario, Violation
from . import undo_model as um


def gen_ops(rng, n, faults, depth=0, stacks=1):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.36:
            op = {"k": "do", "reg": rng.randrange(um.NREG), "val": rng.randrange(1, 100),
                  "text": rng.randrange(len(um.TEXTS)), "style": rng.randrange(6),
                  "nested": rng.random() < 0.2}
            if rng.random() < 0.15:
                op["doc"] = rng.choice(["pos", "kw"])
            if faults and rng.random() < 0.12:
                op["fail"] = rng.choice(["do", "undo", "redo"])
                op["exc"] = rng.choice("EBKS")
        elif r < 0.50 and depth < 3:
            op = {"k": "group", "desc": rng.choice(["grp", "G {count}", "", "n={count} items"]),
                  "ops": gen_ops(rng, rng.randrange(0, 5), faults, depth + 1, stacks)}
            if faults and rng.random() < 0.25:
                op["raise_at"] = rng.randrange(0, len(op["ops"]) + 1)
                op["exc"] = rng.choice("EBKS")
            if faults and rng.random() < 0.3:
                op["catch"] = True
        elif depth > 0:
            if stacks > 1 and rng.random() < 0.25:
                op = {"k": "switch", "to": rng.randrange(stacks)}
            else:
                op = {"k": "do", "reg": rng.randrange(um.NREG), "val": rng.randrange(1, 100),
                      "text": rng.randrange(len(um.TEXTS)), "style": rng.randrange(6), "nested": False}
                if faults and rng.random() < 0.1:
                    op["fail"] = rng.choice(["do", "undo", "redo"])
                    op["exc"] = rng.choice("EBKS")
        elif r < 0.70:
            op = {"k": "undo"}
        elif r < 0.84:
            op = {"k": "redo"}
        elif r < 0.89:
            op = {"k": "save"}
        elif r < 0.905:
            op = {"k": "clear"}
        elif r < 0.94:
            op = {"k": "toggle"}
        elif r < 0.96 and faults:
            op = {"k": "cbfail", "which": rng.choice(["do", "undo"]), "exc": rng.choice("ES")}
        elif stacks > 1:
            op = {"k": "switch", "to": rng.randrange(stacks)}
        else:
            op = {"k": "undo"}
        ops.append(op)
    return ops


class Machine:
    def __init__(self, ctx, nstacks):
        from bgem import undo
        from bgem.polygons import polygons
        self.undo, self.pd = undo, polygons
        self.ctx = ctx
        self.regs = [0] * um.NREG
        self.mregs = [0] * um.NREG
        self.fail = {}
        self.uid = 0
        self.action = um.make_undoable(undo, self.regs, None, self.fail)
        self.stacks = [undo.Stack() for _ in range(nstacks)]
        self.models = [um.MStack() for _ in range(nstacks)]
        self.seen = [[0, 0] for _ in range(nstacks)]
        self.cbfail = [{} for _ in range(nstacks)]
        for i, s in enumerate(self.stacks):
            s.docallback = lambda i=i: self.cb(i, 0)
            s.undocallback = lambda i=i: self.cb(i, 1)
        self.cur = 0
        self.items = {}
        undo.setstack(self.stacks[0])
        if nstacks == 1:
            assert undo.stack() is self.stacks[0]

    def cb(self, i, kind):
        self.seen[i][kind] += 1
        f = self.cbfail[i].pop("undo" if kind else "do", None)
        if f:
            self.ctx.fault("callback-raises")
            raise um.EXC[f]("callback")

    @property
    def st(self):
        return self.stacks[self.cur]

    @property
    def m(self):
        return self.models[self.cur]

    # -- one operation; returns the exception type name the model predicts ---
    def do(self, op, top):
        k = op["k"]
        ctx = self.ctx
        if k == "do":
            self.uid += 1
            uid = self.uid
            text = um.TEXTS[op["text"]]
            style = op["style"]
            f = {}
            if op.get("fail") == "do":
                f["do"] = op["exc"]
            elif op.get("fail") == "undo":
                f["armed_undo"] = op["exc"]
            elif op.get("fail") == "redo":
                f["redo_later"] = op["exc"]
            self.fail[uid] = f
            m = self.m
            expect_exc = None
            if op.get("fail") == "do":
                expect_exc = um.EXC[op["exc"]]
                ctx.fault("do-raises")
            else:
                a = um.MAct(op["reg"], op["val"], "" if style == 0 else text, None)
                a.uid = uid
                a.text_once = style == 5
                a.exc = op.get("exc")
                a.fail_undo = op.get("fail") == "undo"
                a.fail_redo = op.get("fail") == "redo"
                a.do(self.mregs)
                if m.record(a):
                    cf = self.cbfail[self.cur].get("do")
                    if cf:
                        expect_exc = um.EXC[cf]
            # the document itself may be handed to the action as an argument
            args, kw = (uid, op["reg"], op["val"], text, style, op["nested"]), {}
            if op.get("doc") == "pos":
                args += (self.regs,)
            elif op.get("doc") == "kw":
                kw["doc"] = self.regs
            ret = self.invoke(lambda: self.action(*args, **kw), expect_exc, "do")
            if "redo_later" in f:
                f["armed_redo"] = f.pop("redo_later")
            if expect_exc is None:
                want = {0: None, 1: None, 2: ("ret", uid), 3: (("a", uid), ("b", uid)), 4: None, 5: None}[style]
                ctx.expect(ret == want, "return-value", lambda: "action returned %r, its generator yielded %r" % (ret, want))
        elif k == "many":
            # a long working session: n actions of the same kind
            for i in range(op["n"]):
                self.do({"k": "do", "reg": (op["reg"] + i) % um.NREG, "val": op["val"] + i, "text": i % len(um.TEXTS),
                         "style": i % 6, "nested": False}, False)
            ctx.probe("long-session")
        elif k in ("undos", "redos"):
            for _ in range(op["n"]):
                self.move(k[:-1])
        elif k == "group":
            self.group(op)
        elif k == "undo":
            self.move("undo")
        elif k == "redo":
            self.move("redo")
        elif k == "save":
            self.call(self.st.savepoint, "savepoint")
            self.m.saved = self.m.top()
        elif k == "clear":
            if self.m.recording:
                self.call(self.st.clear, "clear")
                self.m.clear()
        elif k == "toggle":
            self.m.recording = not self.m.recording
            self.call(self.pd.enable_undo if self.m.recording else self.pd.disable_undo, "toggle")
            self.ctx.probe("toggled")
        elif k == "cbfail":
            self.cbfail[self.cur][op["which"]] = op["exc"]
        elif k == "switch":
            self.cur = op["to"] % len(self.stacks)
            self.undo.setstack(self.stacks[self.cur])
            self.ctx.probe("switched")
        else:
            raise AssertionError(k)
        if top:
            self.observe(op)

    def call(self, fn, what):
        return self.ctx.call(what, fn)

    def invoke(self, fn, expect_exc, what):
        if expect_exc is None:
            return self.ctx.call(what, fn)
        _, e = self.ctx.attempt(fn)
        if e is None:
            self.ctx.fail("swallowed:" + what, "%s swallowed the %s raised by user code" % (what, expect_exc.__name__))
        self.ctx.expect(type(e) is expect_exc, "wrong-exception:" + what,
                        lambda: "%s raised %r instead of the user's %s" % (what, e, expect_exc.__name__))
        return None

    def group(self, op):
        ctx = self.ctx
        owner = self.cur
        m = self.models[owner]
        g = um.MGroup(op["desc"])
        raise_at = op.get("raise_at")
        exc = um.EXC[op["exc"]] if raise_at is not None else None
        state = {"inner": None}

        def body():
            with self.undo.group(op["desc"]):
                self.enter(owner, g)
                try:
                    for i, o in enumerate(op["ops"]):
                        if raise_at == i:
                            ctx.fault("group-body-raises")
                            raise exc("group body")
                        self.do(o, False)
                    if raise_at is not None and raise_at >= len(op["ops"]):
                        ctx.fault("group-body-raises")
                        raise exc("group body end")
                finally:
                    self.leave(owner, g, state)

        expect = exc
        _, e = ctx.attempt(body)
        # the model group was closed inside the body; account for it now
        m.groups_open = None
        if exc is None or not state.get("failed"):
            pass
        if e is not None:
            cbf = state.get("cb_expected")
            if exc is not None and type(e) is exc:
                pass
            elif cbf is not None and type(e) is cbf:
                pass
            else:
                raise Violation("exception:group:%s" % type(e).__name__,
                                "group raised %r" % (e,))
        else:
            if exc is not None:
                ctx.fail("swallowed:group", "the group swallowed %s raised in its body" % exc.__name__)
            if state.get("cb_expected") is not None:
                ctx.fail("swallowed:callback", "the failing docallback was swallowed")

    def enter(self, owner, g):
        self.models[owner].groups.append(g)

    def leave(self, owner, g, state):
        import sys
        m = self.models[owner]
        m.groups.remove(g)
        failed = sys.exc_info()[0] is not None
        state["failed"] = failed
        if failed and not g.items:
            return
        cf = self.cbfail[owner].get("do")
        if m.record(g) and cf:
            state["cb_expected"] = um.EXC[cf]

    def move(self, which):
        m, ctx = self.m, self.ctx
        src, dst = (m.undos, m.redos) if which == "undo" else (m.redos, m.undos)
        expect = None
        if src:
            item = src.pop()
            try:
                getattr(item, which)(self.mregs)
            except um.ModelFail:
                expect = um.EXC[_failing(item, which)]
                ctx.fault(which + "-raises")
                m.clear()
                if m.recording is False:
                    ctx.probe("failed-move-while-disabled")
            else:
                dst.append(item)
                cf = self.cbfail[self.cur].get("do" if which == "redo" else "undo")
                if which == "redo":
                    m.n_do += 1
                else:
                    m.n_undo += 1
                if cf:
                    expect = um.EXC[cf]
        self.invoke(getattr(self.st, which), expect, which)

    def observe(self, op):
        ctx = self.ctx
        k = op["k"]
        ctx.expect(self.undo.stack() is self.stacks[self.cur], "active-stack", "stack() is not the stack that was set")
        ctx.expect(self.regs == self.mregs, "document:" + k,
                   lambda: "after %s the document is %r, the linear history says %r" % (k, self.regs, self.mregs))
        for i, (s, m) in enumerate(zip(self.stacks, self.models)):
            obs = dict(canundo=s.canundo(), canredo=s.canredo(), undocount=s.undocount(), redocount=s.redocount(),
                       undotext=s.undotext(), redotext=s.redotext(), haschanged=s.haschanged())
            want = dict(canundo=bool(m.undos), canredo=bool(m.redos), undocount=len(m.undos), redocount=len(m.redos),
                        undotext=("Undo " + m.undos[-1].label()).strip() if m.undos else None,
                        redotext=("Redo " + m.redos[-1].label()).strip() if m.redos else None,
                        haschanged=m.haschanged())
            for key in want:
                ctx.expect(obs[key] == want[key], "observe:" + key,
                           lambda: "after %s stack %d reports %s=%r, the history says %r" % (k, i, key, obs[key], want[key]))
            ctx.expect(self.seen[i] == [m.n_do, m.n_undo], "callbacks",
                       lambda: "after %s callbacks (do, undo) fired %r times, expected %r" % (k, self.seen[i], [m.n_do, m.n_undo]))
        ctx.log(k, self.regs, [(m.undos and m.undos[-1].label(), len(m.undos), len(m.redos), m.haschanged()) for m in self.models])
        ctx.state((tuple(self.regs), tuple((len(m.undos), len(m.redos), m.recording) for m in self.models)))


def _failing(item, which):
    if item.group:
        items = reversed(item.items) if which == "undo" else item.items
        for a in items:
            r = _failing(a, which)
            if r:
                return r
        return None
    return item.exc if (item.fail_undo if which == "undo" else item.fail_redo) else None


def execute(plan, ctx, nstacks):
    from bgem import undo
    saved = undo.stack()
    try:
        m = Machine(ctx, nstacks)
        for op in plan["ops"]:
            m.do(op, True)
        # drain: everything recorded can be undone to the start and redone
        if plan["config"].get("drain", True):
            for i in range(nstacks):
                if any(f for f in m.cbfail[i]):
                    m.cbfail[i].clear()
            for i in range(nstacks):
                m.do({"k": "switch", "to": i}, True)
                for which in ("undo", "redo"):
                    left = True
                    for i in range(10000):
                        left = m.m.undos if which == "undo" else m.m.redos
                        if not left:
                            break
                        m.do({"k": which}, i < 60 or len(left) < 3)
                    m.observe({"k": "drain"})
    finally:
        undo.setstack(saved)


def simplify(op):
    """Smaller variants of an operation."""
    out = []
    if op["k"] == "group":
        out.append({"k": "do", "reg": 0, "val": 1, "text": 0, "style": 0, "nested": False})
        for i in range(len(op["ops"])):
            out.append({**op, "ops": op["ops"][:i] + op["ops"][i + 1:]})
        if "raise_at" in op:
            o = dict(op)
            o.pop("raise_at"), o.pop("exc")
            out.append(o)
        for i, s in enumerate(op["ops"]):
            for v in simplify(s):
                out.append({**op, "ops": op["ops"][:i] + [v] + op["ops"][i + 1:]})
        if op["desc"]:
            out.append({**op, "desc": ""})
    elif op["k"] in ("many", "undos", "redos"):
        for n in (op["n"] // 2, op["n"] - 10, op["n"] - 1):
            if 0 < n < op["n"]:
                out.append({**op, "n": n})
    elif op["k"] == "do":
        if "doc" in op:
            out.append({k: v for k, v in op.items() if k != "doc"})
        for key, v in (("nested", False), ("style", 0), ("text", 0), ("reg", 0)):
            if op[key] != v:
                out.append({**op, key: v})
        if "fail" in op:
            o = dict(op)
            o.pop("fail"), o.pop("exc")
            out.append(o)
    return out


class C05(Scenario):
    ID = "C05"
    QUICK_RUNS = 60000
    THOROUGH_RUNS = 3000000
    FAULTS = False
    STACKS = 1
    RULE = ("random histories of actions (all four return styles, undo bodies that call undoables), nested groups, "
            "undo, redo, savepoint, clear, recording switched off and on, actions that take the document as an argument, "
            "sessions of up to about 1800 actions; non-trivial = at least 3 operations; "
            "distinct = distinct plan")
    REAL = ["bgem.undo (Stack, undoable, group)", "bgem.polygons.polygons.enable_undo/disable_undo"]
    STUB = ["the document edited by the actions (a register vector)"]
    ASSUME = ["recording is not switched and the stack is not cleared, undone or redone inside an open group",
              "undoable bodies do not call other undoables in their do part"]
    STATE_MEASURE = "distinct (document, depth of undo and redo history, recording flag)"

    def gen(self, rng, tier):
        n = rng.choice([3, 6, 10, 16, 30])
        ops = gen_ops(rng, n, self.FAULTS, 0, self.STACKS)
        if rng.random() < 0.012:
            # long sessions: histories of tens to more than a thousand actions
            size = int(10 ** rng.uniform(1.3, 3.25))
            for _ in range(rng.randrange(1, 4)):
                kind = rng.random()
                if kind < 0.5:
                    op = {"k": "many", "n": size, "reg": rng.randrange(um.NREG), "val": rng.randrange(1, 100)}
                    if rng.random() < 0.25:
                        op = {"k": "group", "desc": "n={count} items", "ops": [op]}
                else:
                    op = {"k": rng.choice(["undos", "redos"]), "n": max(1, int(size * rng.uniform(0.2, 1.1)))}
                ops.insert(rng.randrange(len(ops) + 1), op)
            ops.insert(0, {"k": "many", "n": size, "reg": 0, "val": 1})
        return {"config": {"drain": True}, "ops": ops}

    def execute(self, plan, ctx):
        execute(plan, ctx, self.STACKS)

    def nontrivial(self, plan, ctx):
        if self.FAULTS:
            return sum(ctx.faults.values()) > 0
        return len(plan["ops"]) >= 3

    def simplify_op(self, op):
        return simplify(op)


SCENARIO = C05()
