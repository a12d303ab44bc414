"""C02: drawing does exactly what was asked: snapping, splitting and point
placement after any history, also when the tolerance (zoom) changes."""
from ..core import Scenario
from . import poly


class C02(Scenario):
    ID = "C02"
    QUICK_RUNS = 8000
    THOROUGH_RUNS = 300000
    QUICK_WALL = 45
    RULE = ("editing histories with deletions and id reuse, points dropped within half a tolerance of existing points and "
            "segments or well away from everything, lines through vertices, along and across segments, tolerance changes in "
            "between; each operation's effect on points and segments is predicted from the bare geometry; non-trivial = at "
            "least 3 operations took effect and one snapped to something existing")
    REAL = ["bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = []
    ASSUME = ["features are either within half the tolerance of each other or more than four tolerances apart",
              "new_segment is called for points whose connecting line meets nothing, as its documentation asks"]
    STATE_MEASURE = "distinct (points, segments) after an operation"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        if rng.random() < 0.06:
            return {"config": conf, "ops": poly.gen_wedge(rng, conf)}
        n = rng.choice([4, 8, 14, 22, 35])
        ops = []
        for op in poly.gen_edits(rng, conf, n):
            r = rng.random()
            if r < 0.12:
                ops.append(["onpt", rng.randrange(50), rng.randrange(-3, 4), rng.randrange(-3, 4)])
            elif r < 0.24:
                ops.append(["onseg", rng.randrange(50), rng.randrange(1, 7), rng.randrange(-4, 5)])
            elif r < 0.28:
                ops.append(["tol", rng.randrange(4)])
            elif r < 0.31:
                ops.append(["wipe"])
            ops.append(op)
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        w = poly.Editor(ctx, plan["config"])
        base = w.tol
        for op in plan["ops"]:
            if op[0] == "tol":
                w.tol = base * [1.0, 0.25, 5.0, 20.0][op[1] % 4]
                ctx.call("set_tolerance", w.pd.set_tolerance, w.tol)
                ctx.probe("tolerance-change")
                continue
            if op[0] == "wipe":
                # remove everything, the lookups are empty again
                for i in w.point_ids():
                    ctx.call("delete_point", w.pd.delete_point, w.pd.points[i])
                st = w.state()
                ctx.expect(not st.points and not st.segments, "wipe", "deleting every point left %r %r" % (st.points, st.segments))
                ctx.probe("wiped")
                continue
            try:
                rec = w.apply(op)
            except poly.Skip as e:
                ctx.probe("skip:" + str(e))
                continue
            ctx.probe("op:" + rec["kind"])
            poly.check_effect(w, rec)
            if rec["kind"] == "add_point" and rec["pred"][0] == "free":
                self.check_home(ctx, w, rec)
            st = w.state()
            ctx.log(rec["kind"], sorted(st.points.items()), sorted(st.segments.items()))
            ctx.state((sorted(st.points), sorted(st.segments.items())))

    def check_home(self, ctx, w, rec):
        """A new free point belongs to the polygon that contains it."""
        st, ref = poly.reference(ctx, w.pd, "add_point")
        pt = rec["ret"]
        f = ref.locate(ref.pts[pt.id])

        def look():
            want = w.pd.outer_polygon if f is None else w.pd.segments[ref.walks[f][0][0]].polygons()[ref.walks[f][0][1]]
            ctx.expect(pt.poly is want and pt in want.free_points, "point-home",
                       lambda: "free point %d at %r put into polygon %r, it lies in %r" % (pt.id, st.points[pt.id], pt.poly.id, want.id))
        poly.observe(ctx, "home", look)

    def nontrivial(self, plan, ctx):
        p = ctx.probes
        return sum(v for k, v in p.items() if k.startswith("op:")) >= 3 and \
            p.get("snap-point", 0) + p.get("snap-segment", 0) + p.get("line-through-vertex", 0) > 0


SCENARIO = C02()
