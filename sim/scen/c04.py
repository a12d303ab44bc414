"""C04: undo and redo bring back exactly the observable state, for every
history of edits, groups, undo and redo over one or two documents."""
from ..core import Scenario
from . import poly


def homeless(s):
    return {"points": {i: p[:3] + p[4:] for i, p in s["points"].items()}, "segments": s["segments"],
            "polygons": {i: p[:2] + p[3:] for i, p in s["polygons"].items()}}


class C04(Scenario):
    ID = "C04"
    QUICK_RUNS = 5000
    THOROUGH_RUNS = 200000
    QUICK_WALL = 50
    RULE = ("editing histories on one or two documents sharing the undo stack, edits partly wrapped in undo groups, attribute "
            "changes, undo and redo by single actions or whole edits, new edits after undo; a snapshot of everything "
            "observable (ids, coordinates, topology, holes, free points, attributes) is taken whenever an action is recorded "
            "and compared after each undo and redo; later edits are checked against the bare geometry; non-trivial = at least "
            "3 undo/redo steps over at least 3 recorded actions")
    REAL = ["bgem.undo", "bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = []
    ASSUME = ["as for C01", "move_points and merge_points are not recorded by the undo system and are not used here"]
    STATE_MEASURE = "distinct (undo depth, topology) reached"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        conf["docs"] = rng.choice([1, 1, 2])
        n = rng.choice([4, 8, 14, 24])
        ops = []
        p_undo = rng.choice([0.2, 0.4])
        edits = poly.gen_edits(rng, conf, n) if rng.random() > 0.06 else poly.gen_wedge(rng, conf)
        if edits[0][0] == "raw":
            conf["docs"] = 1
        for op in edits:
            d = rng.randrange(conf["docs"])
            if rng.random() < 0.12:
                ops.append(["group", d, [op] + (poly.gen_edits(rng, conf, rng.randrange(0, 3)) if op[0] != "raw" else [])])
            else:
                ops.append(["edit", d, op])
            if rng.random() < 0.25:
                ops.append(["attr", rng.randrange(conf["docs"]), rng.randrange(3), rng.randrange(50), rng.randrange(100)])
            while rng.random() < p_undo:
                ops.append([rng.choice(["undo", "undo", "redo"]), rng.randrange(1, 7), rng.randrange(2)])
        ops.append(["undo", 100, 0])
        ops.append(["redo", 100, 0])
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        from bgem import undo
        from bgem.polygons import polygons
        saved = undo.stack()
        st = undo.Stack()
        undo.setstack(st)
        try:
            polygons.enable_undo()
            self.go(plan, ctx, undo, st)
        finally:
            undo.setstack(saved)

    def go(self, plan, ctx, undo, st):
        conf = plan["config"]
        docs = [poly.Editor(ctx, conf) for _ in range(max(1, conf.get("docs", 1)))]
        ctx.expect(st.undocount() == 0, "creation-recorded", "creating a decomposition is recorded as an undoable action")
        snap = lambda: [poly.snapshot(d.pd) for d in docs]
        snaps = {0: snap()}
        whole = {0}            # depths at which no edit is half done

        def recorded():
            n = st.undocount()
            for k in [k for k in snaps if k >= n]:
                del snaps[k]
                whole.discard(k)
            snaps[n] = snap()
        st.docallback = recorded

        def check(what):
            n = st.undocount()
            now = poly.observe(ctx, what, snap)
            ctx.expect(n in snaps, "depth", lambda: "after %s %d actions can be undone, none was recorded there" % (what, n))
            for d, (a, b) in enumerate(zip(snaps[n], now)):
                if n not in whole:
                    # half done edit: the point that will split a segment has
                    # no settled home yet
                    a, b = homeless(a), homeless(b)
                ctx.expect(a == b, "state-" + what, lambda: "after %s to depth %d document %d differs (recorded -> now): %s" % (what, n, d, poly.diff(a, b)))

        def move(what, steps, by_edit):
            for _ in range(steps):
                if not (st.canundo() if what == "undo" else st.canredo()):
                    break
                saved_cb = st.docallback
                st.docallback = lambda: None
                n = st.undocount()
                try:
                    ctx.call(what, st.undo if what == "undo" else st.redo)
                finally:
                    st.docallback = saved_cb
                ctx.probe(what)
                if poly.DEBUG:
                    d = docs[0].pd
                    print(what, n, st.undotext(), [(s_.id, s_.point_ids(), [w.id for w in s_.wire], s_.polygons()[0].id, s_.polygons()[1].id) for s_ in d.segments.values()])
                    print(d)
                ctx.expect(st.undocount() == n + (1 if what == "redo" else -1), "count", lambda: "%s changed the depth from %d to %d" % (what, n, st.undocount()))
                check(what)
                ctx.log(what, st.undocount())

        def settle():
            """Leave half done edits behind before editing again."""
            while st.undocount() not in whole:
                move("undo", 1, 0)

        for op in plan["ops"]:
            k = op[0]
            if k in ("undo", "redo"):
                if op[2]:
                    for _ in range(op[1]):
                        n = st.undocount()
                        move(k, 1, 1)
                        while st.undocount() not in whole and st.undocount() != n and (st.canundo() if k == "undo" else st.canredo()):
                            move(k, 1, 1)
                else:
                    move(k, op[1], 0)
                continue
            settle()
            d = docs[op[1] % len(docs)]
            n0 = st.undocount()
            try:
                if k == "edit":
                    rec = d.apply(op[2])
                    poly.check_effect(d, rec)
                    ctx.probe("op:" + rec["kind"])
                elif k == "group":
                    with undo.group("edits"):
                        for o in op[2]:
                            try:
                                d.apply(o)
                            except poly.Skip:
                                pass
                    ctx.probe("group")
                    ctx.expect(st.undocount() == n0 + 1, "group-count", lambda: "a group of edits was recorded as %d actions" % (st.undocount() - n0))
                elif k == "attr":
                    m = [d.pd.points, d.pd.segments, d.pd.polygons][op[2] % 3]
                    i = d.pick(sorted(m), op[3])
                    ctx.call("set_attr", d.pd.set_attr, m[i], "a%d" % op[4])
                    ctx.expect(m[i].attr == "a%d" % op[4], "set-attr", "set_attr did not set the attribute")
                    ctx.probe("attr")
            except poly.Skip as e:
                ctx.probe("skip:" + str(e))
            n = st.undocount()
            ctx.expect(n >= n0, "count", "an edit removed undoable actions")
            now = poly.observe(ctx, k, snap)
            if n == n0:
                check("unrecorded " + k)
            whole.add(n)
            ctx.expect(snaps.get(n) == now, "unrecorded-change", lambda: "%s changed the document after its last recorded action" % k)
            ctx.log(k, n, sorted(now[0]["segments"].items()))
            ctx.state((n, repr(now)))
        settle()
        for d in docs:
            d.check_valid("history")
        ctx.probe("actions", st.undocount())

    def nontrivial(self, plan, ctx):
        p = ctx.probes
        return p.get("undo", 0) + p.get("redo", 0) >= 3 and p.get("actions", 0) + p.get("undo", 0) >= 3

    def simplify_op(self, op):
        from ..core import generic_simplify
        out = []
        if op[0] == "group":
            for i in range(len(op[2])):
                out.append(["group", op[1], op[2][:i] + op[2][i + 1:]])
            if len(op[2]) == 1:
                out.append(["edit", op[1], op[2][0]])
            return out
        if op[0] == "edit":
            return [["edit", 0, op[2]]] * (op[1] != 0) + [["edit", op[1], o] for o in generic_simplify(op[2])]
        return generic_simplify(op)


SCENARIO = C04()
