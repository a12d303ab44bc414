"""C08: the bounding box lookup never misses a candidate, whatever was added,
replaced and removed before the query."""
import math
from ..core import Scenario


def rbox(rng, span, kind):
    x = rng.randrange(-span, span + 1)
    y = rng.randrange(-span, span + 1)
    if kind == 0:
        w = h = 0
    elif kind == 1:
        w, h = rng.randrange(1, 4), rng.randrange(1, 4)
    elif kind == 2:
        w, h = rng.randrange(1, 2 * span), rng.randrange(1, 2 * span)
    else:
        w, h = rng.choice([(0, rng.randrange(1, span + 1)), (rng.randrange(1, span + 1), 0)])
    return [x, y, x + w, y + h]


class C08(Scenario):
    ID = "C08"
    QUICK_RUNS = 16000
    THOROUGH_RUNS = 600000
    RULE = ("random histories of add / replace / remove with reused and far-away ids (growing the table), small and huge, "
            "degenerate and overlapping boxes on a lattice scaled by a random power of two, interleaved with both kinds of "
            "query; every query is compared with a scan over the live boxes; in some plans hundreds of objects; "
            "non-trivial = something was removed")
    REAL = ["bgem.polygons.aabb_lookup (AABB_Lookup, make_aabb)"]
    STUB = []
    ASSUME = ["coordinates stay far below the lookup's `infinity` (1e50)"]
    STATE_MEASURE = "distinct sets of live (id, box)"

    def gen(self, rng, tier):
        span = rng.choice([2, 5, 20, 1000])
        n = rng.choice([4, 8, 15, 40])
        nid = rng.choice([1, 3, 8, 30])
        conf = {"scale": rng.choice([0, 0, -7, 10]), "init": rng.choice([1, 2, 4, 128]),
                "margin": rng.choice([0, 0, 1, 3])}
        ops = []
        if rng.random() < 0.03:
            return {"config": conf, "ops": self.long(rng, span)}
        pq = rng.choice([0.3, 0.5])
        for _ in range(n):
            r = rng.random()
            if r < pq / 2:
                ops.append(["near", rng.randrange(-span - 3, span + 4), rng.randrange(-span - 3, span + 4)])
            elif r < pq:
                ops.append(["hit"] + rbox(rng, span, rng.randrange(4)))
            elif r < pq + 0.25 * (1 - pq) + 0.1:
                ops.append(["rm", rng.randrange(nid)])
            else:
                i = rng.randrange(nid)
                if rng.random() < 0.03:
                    i += rng.choice([7, 130, 600])
                pts = rng.random() < 0.4
                b = rbox(rng, span, rng.choice([0, 1, 1, 2, 3]))
                ops.append(["add", i] + b + [1 if pts else 0])
        ops.append(["near", 0, 0])
        ops.append(["hit", -span, -span, span, span])
        return {"config": conf, "ops": ops}

    def long(self, rng, span):
        """A table that grows over many objects and is thinned out."""
        ops = []
        for _ in range(rng.randrange(2, 6)):
            n = rng.choice([50, 200, 700])
            if rng.random() < 0.6:
                ops.append(["fill", rng.randrange(0, 300), n, rng.randrange(1 << 30), span])
            else:
                ops.append(["thin", rng.randrange(0, 300), n, rng.choice([1, 1, 2, 3])])
            for _ in range(2):
                if rng.random() < 0.5:
                    ops.append(["near", rng.randrange(-span - 3, span + 4), rng.randrange(-span - 3, span + 4)])
                else:
                    ops.append(["hit"] + rbox(rng, span, rng.randrange(4)))
        return ops

    def expand(self, ops):
        import random
        for op in ops:
            if op[0] == "fill":
                r = random.Random(op[3])
                for i in range(op[1], op[1] + op[2]):
                    yield ["add", i] + rbox(r, max(1, op[4]), r.choice([0, 1, 1, 2, 3])) + [0]
            elif op[0] == "thin":
                for i in range(op[1], op[1] + op[2], max(1, op[3])):
                    yield ["rm", i]
            else:
                yield op

    def execute(self, plan, ctx):
        import numpy as np
        from bgem.polygons import aabb_lookup
        c = plan["config"]
        sc = 2.0 ** c["scale"]
        lk = ctx.call("create", lambda: aabb_lookup.AABB_Lookup(init_size=max(1, c["init"])))
        live = {}
        for op in self.expand(plan["ops"]):
            k = op[0]
            if k == "add":
                i, (x0, y0, x1, y1), pts = op[1], [v * sc for v in op[2:6]], op[6]
                x0, x1 = min(x0, x1), max(x0, x1)
                y0, y1 = min(y0, y1), max(y0, y1)
                if pts:
                    m = c["margin"] * sc
                    box = ctx.call("make_aabb", aabb_lookup.make_aabb, [[x0, y1], [x1, y0]], m)
                    want = [x0 - m, y0 - m, x1 + m, y1 + m]
                    ctx.expect([float(v) for v in box] == want, "make_aabb",
                               lambda: "make_aabb gave %r for %r" % (list(box), want))
                else:
                    box = np.array([x0, y0, x1, y1])
                    want = [x0, y0, x1, y1]
                if i in live:
                    ctx.probe("replace")
                ctx.call("add_object", lk.add_object, i, box)
                live[i] = want
            elif k == "rm":
                i = op[1]
                if i not in live:
                    continue
                ctx.call("rm_object", lk.rm_object, i)
                del live[i]
                ctx.probe("removed")
                if not live:
                    ctx.probe("emptied")
            elif k == "hit":
                q = [v * sc for v in op[1:5]]
                q = [min(q[0], q[2]), min(q[1], q[3]), max(q[0], q[2]), max(q[1], q[3])]
                got = [int(v) for v in ctx.call("intersect_candidates", lk.intersect_candidates, np.array(q))]
                want = sorted(i for i, b in live.items()
                              if b[0] <= q[2] and q[0] <= b[2] and b[1] <= q[3] and q[1] <= b[3])
                miss = [i for i in want if i not in got]
                extra = [i for i in got if i not in want]
                ctx.expect(not miss, "intersect-missed", lambda: "box %r: live boxes %r intersect it and are not reported" % (q, miss))
                ctx.expect(not extra, "intersect-extra", lambda: "box %r: %r reported, not live or not intersecting" % (q, extra))
                ctx.log("hit", sorted(got))
            elif k == "near":
                p = (op[1] * sc, op[2] * sc)
                got = [int(v) for v in ctx.call("closest_candidates", lk.closest_candidates, np.array(p))]
                stale = [i for i in got if i not in live]
                ctx.expect(not stale, "closest-stale", lambda: "point %r: %r reported but not live" % (p, stale))
                dmin, dmax = {}, {}
                for i, b in live.items():
                    dx = max(b[0] - p[0], 0, p[0] - b[2])
                    dy = max(b[1] - p[1], 0, p[1] - b[3])
                    dmin[i] = math.hypot(dx, dy)
                    dmax[i] = math.hypot(max(abs(p[0] - b[0]), abs(p[0] - b[2])), max(abs(p[1] - b[1]), abs(p[1] - b[3])))
                for i in live:
                    others = [dmax[j] for j in live if j != i]
                    bound = min(others) if others else math.inf
                    if dmin[i] < bound * (1 - 1e-12):
                        ctx.expect(i in got, "closest-missed",
                                   lambda: "point %r: object %d (box %r) may be the closest one and is not a candidate %r"
                                           % (p, i, live[i], got))
                ctx.log("near", sorted(got))
            if len(live) < 60 or k in ("near", "hit"):
                ctx.state(sorted((i, tuple(b)) for i, b in live.items()))

    def nontrivial(self, plan, ctx):
        return len(plan["ops"]) >= 2 and ctx.probes.get("removed", 0) > 0


SCENARIO = C08()
