"""C01: after any editing history the decomposition is a valid subdivision."""
from ..core import Scenario
from . import poly


def samples(w, rng_ints, st):
    out = []
    for (a, b) in rng_ints:
        x, y = w.coord(a / 8.0 + 0.01, b / 8.0 + 0.013)
        if all(poly.seg_dist((x, y), *st.xy(s))[0] > 4 * w.tol for s in st.segments):
            out.append((x, y))
    return out


class C01(Scenario):
    ID = "C01"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 200000
    QUICK_WALL = 45
    RULE = ("random editing histories (free points, points on points and segments, lines crossing, touching and overlapping "
            "existing ones, rings, direct segments, deletions) on a scaled and shifted grid; after every operation the whole "
            "subdivision is compared with faces rebuilt from the bare segments in exact arithmetic; non-trivial = at least 3 "
            "operations took effect and at least two polygons existed at some time")
    REAL = ["bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = []
    ASSUME = ["features are either within half the tolerance of each other or more than four tolerances apart "
              "(inputs in between are skipped, their snapping is a matter of taste)",
              "new_segment is called for points whose connecting line meets nothing, as its documentation asks"]
    STATE_MEASURE = "distinct topologies (points, segments, polygon sides) after an operation"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        if rng.random() < 0.06:
            return {"config": conf, "ops": [op + [[]] for op in poly.gen_wedge(rng, conf, True)]}
        n = rng.choice([4, 8, 14, 22, 35])
        ops = poly.gen_edits(rng, conf, n)
        for op in ops:
            op.append([[rng.randrange(-4, 8 * conf["grid"] + 4), rng.randrange(-4, 8 * conf["grid"] + 4)]
                       for _ in range(2)] if rng.random() < 0.3 else [])
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        w = poly.Editor(ctx, plan["config"])
        for op in plan["ops"]:
            try:
                rec = w.apply(op[:-1])
            except poly.Skip as e:
                ctx.probe("skip:" + str(e))
                continue
            ctx.probe("op:" + rec["kind"])
            st = w.state()
            st, ref, fp = w.check_valid(rec["kind"], samples(w, op[-1], st))
            ctx.log(rec["kind"], sorted(st.points.items()), sorted(st.segments.items()), sorted(fp.items(), key=str))
            ctx.state((sorted(st.segments.items()), sorted(st.points)))
            if len(fp) > 1:
                ctx.probe("bounded-faces")
            if any(ref.face_holes[f] for f in ref.outer_walks):
                ctx.probe("hole-in-face")
            if any(len(v) > 1 for f, v in ref.face_holes.items() if f is not None):
                ctx.probe("two-holes-in-face")
        self.finish(w, ctx)

    def finish(self, w, ctx):
        pass

    def nontrivial(self, plan, ctx):
        return sum(v for k, v in ctx.probes.items() if k.startswith("op:")) >= 3 and ctx.probes.get("bounded-faces", 0) > 0

    def simplify_op(self, op):
        from ..core import generic_simplify
        out = []
        if op[-1]:
            out.append(op[:-1] + [[]])
        out += [o + [op[-1]] for o in generic_simplify(op[:-1])]
        return out


SCENARIO = C01()
