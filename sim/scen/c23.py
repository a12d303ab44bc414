"""C23: a drawing saved at any moment of its history and rebuilt after a crash
from the saved description alone is the drawing that was saved."""
import json

from ..core import Scenario
from . import poly


def describe(pd, rng):
    """What an application stores: points, segments as pairs of points, and
    polygons as lists of segments along their boundaries, holes and free
    points.  Everything is renumbered, in any order."""
    pts, segs, polys = list(pd.points), list(pd.segments), list(pd.polygons)
    for l in (pts, segs, polys):
        if rng.random() < 0.5:
            rng.shuffle(l)
    pi = {p: k for k, p in enumerate(pts)}
    si = {s: k for k, s in enumerate(segs)}

    def walk(wire):
        l = [si[s.id] for s, side in wire.segments()]
        # the first two segments tell the direction, they have to differ
        starts = [k for k in range(len(l)) if l[k] != l[(k + 1) % len(l)]]
        if starts:
            k = rng.choice(starts)
            l = l[k:] + l[:k]
        return l

    out = []
    for i in polys:
        q = pd.polygons[i]
        holes = [walk(w) for w in q.outer_wire.childs if w.polygon is q]
        free = sorted(pi[p.id] for p in q.free_points)
        if rng.random() < 0.5:
            rng.shuffle(holes)
            rng.shuffle(free)
        out.append([walk(q.outer_wire), holes, free, q.attr])
    return json.dumps({"points": [[float(v) for v in pd.points[i].xy] + [pd.points[i].attr] for i in pts],
                       "segments": [[[pi[v.id] for v in pd.segments[i].vtxs], pd.segments[i].attr] for i in segs],
                       "polygons": out}), (pi, si, {p: k for k, p in enumerate(polys)})


class C23(Scenario):
    ID = "C23"
    QUICK_RUNS = 5000
    THOROUGH_RUNS = 200000
    QUICK_WALL = 40
    RULE = ("editing histories in which the drawing is saved (description of points, segments and polygons with boundaries, holes "
            "and free points, in any order and numbering) and crashes happen: the drawing is lost and rebuilt from the last saved "
            "description with the deserialization functions, the history goes on; the rebuilt drawing is compared with the "
            "snapshot taken at saving and with faces rebuilt in exact arithmetic, every later edit is checked like those on a "
            "drawing that was never lost; non-trivial = a drawing with a bounded face was rebuilt and edited")
    REAL = ["bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = ["the application's file: JSON text kept in memory (the durable state of the simulated crash)"]
    ASSUME = ["as for C01", "boundaries are listed so that the first two segments differ (the direction of a boundary that starts "
              "with a dead end segment there and back can not be told)"]
    STATE_MEASURE = "distinct topologies rebuilt"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        conf["undo"] = rng.random() < 0.3
        n = rng.choice([4, 8, 14, 22, 30])
        ops = []
        p = rng.choice([0.1, 0.25])
        for op in poly.gen_edits(rng, conf, n):
            ops.append(op)
            if rng.random() < 0.15:
                ops.append(["attr", rng.randrange(3), rng.randrange(50), rng.randrange(100)])
            if rng.random() < p:
                ops.append(["save", rng.randrange(1 << 30)])
            if rng.random() < p:
                ops.append(["crash"])
            if rng.random() < 0.1:
                ops += [["save", rng.randrange(1 << 30)], ["crash"]]
        ops += [["save", rng.randrange(1 << 30)], ["crash"]] + poly.gen_edits(rng, conf, 3)
        if conf["undo"]:
            ops.append(["unwind"])
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        from bgem import undo
        from bgem.polygons import polygons
        saved_stack = undo.stack()
        st = undo.Stack()
        undo.setstack(st)
        try:
            if plan["config"].get("undo"):
                polygons.enable_undo()
            else:
                polygons.disable_undo()
            self.go(plan, ctx, st)
        finally:
            undo.setstack(saved_stack)

    def go(self, plan, ctx, stack):
        w = poly.Editor(ctx, plan["config"])
        self.last = None       # (text, snapshot, maps) of the last save
        rebuilt = None         # snapshot and depth of the last rebuild
        for op in plan["ops"]:
            k = op[0]
            if k == "save":
                import random
                text, maps = poly.observe(ctx, "describe", describe, w.pd, random.Random(op[1]))
                self.last = (text, poly.snapshot(w.pd), maps)
                ctx.fault("save")
                continue
            if k == "crash":
                stack.clear()
                w.pd = self.rebuild(ctx, w) if self.last else ctx.call("create", lambda: w.mod.PolygonDecomposition(w.tol))
                w.recent = []
                ctx.fault("crash-restart")
                st, ref, fp = w.check_valid("rebuild")
                stack.clear()
                rebuilt = poly.snapshot(w.pd)
                ctx.log(k, sorted(st.points.items()), sorted(st.segments.items()), sorted(fp.items(), key=str))
                if len(fp) > 1:
                    ctx.probe("rebuilt-faces")
                if any(ref.face_holes[f] for f in ref.outer_walks):
                    ctx.probe("rebuilt-hole")
                ctx.state((sorted(st.segments.items()), sorted(st.points)))
                continue
            if k == "unwind":
                if rebuilt is None or not plan["config"].get("undo"):
                    continue
                while stack.canundo():
                    ctx.call("undo", stack.undo)
                now = poly.snapshot(w.pd)
                ctx.expect(now == rebuilt, "undo-to-rebuilt", lambda: "undoing all edits after a rebuild: %s" % poly.diff(rebuilt, now))
                w.check_valid("undo")
                ctx.probe("unwound")
                continue
            try:
                if k == "attr":
                    m = [w.pd.points, w.pd.segments, w.pd.polygons][op[1] % 3]
                    ctx.call("set_attr", w.pd.set_attr, m[w.pick(sorted(m), op[2])], "a%d" % op[3])
                    continue
                rec = w.apply(op)
            except poly.Skip as e:
                ctx.probe("skip:" + str(e))
                continue
            poly.check_effect(w, rec)
            w.check_valid(rec["kind"])
            ctx.log(k)
            if rebuilt is not None:
                ctx.probe("edit-after-rebuild")

    def rebuild(self, ctx, w):
        text, want, (pi, si, qi) = self.last
        d = json.loads(text)
        pd = ctx.call("create", lambda: w.mod.PolygonDecomposition(w.tol))
        pts = [ctx.call("add_point", pd.add_point, p[:2]) for p in d["points"]]
        segs = [ctx.call("make_segment", pd.make_segment, [pts[a].id, pts[b].id]) for (a, b), attr in d["segments"]]
        polys = []
        for outer, holes, free, attr in d["polygons"]:
            q = ctx.call("make_polygon", pd.make_polygon, [segs[k].id for k in outer], [[segs[k].id for k in h] for h in holes],
                         [pts[k].id for k in free])
            polys.append(q)
        ctx.call("set_wire_parents", pd.set_wire_parents)
        for objs, items in ((pts, d["points"]), (segs, d["segments"]), (polys, d["polygons"])):
            for o, it in zip(objs, items):
                o.attr = it[-1]
        now = poly.observe(ctx, "rebuild", poly.snapshot, pd)
        mp = {i: pts[k].id for i, k in pi.items()}
        ms = {i: segs[k].id for i, k in si.items()}
        mq = {i: polys[k].id for i, k in qi.items()}
        walk = lambda wk: poly.planar.canon([(ms[s], side) for s, side in wk])
        exp = {"points": {mp[i]: (x, y, f, None if q is None else mq[q], a) for i, (x, y, f, q, a) in want["points"].items()},
               "segments": {ms[i]: (mp[a], mp[b], tuple(mq[q] for q in qs), t) for i, (a, b, qs, t) in want["segments"].items()},
               "polygons": {mq[i]: (walk(o), tuple(sorted(walk(h) for h in hs)), tuple(sorted(mp[p] for p in fr)), t)
                            for i, (o, hs, fr, t) in want["polygons"].items()}}
        ctx.expect(now == exp, "rebuilt-differs", lambda: "the rebuilt drawing is not the saved one (saved -> rebuilt): %s" % poly.diff(exp, now))
        return pd

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("rebuilt-faces", 0) > 0 and ctx.probes.get("edit-after-rebuild", 0) > 0

    def simplify_op(self, op):
        from ..core import generic_simplify
        return [] if op[0] in ("save", "crash", "unwind") else generic_simplify(op)


SCENARIO = C23()
