"""C09: moving points keeps the drawing valid, found and editable."""
from ..core import Scenario
from . import poly, planar
from .poly import dist, seg_dist, Skip


def moved(st, ids, d):
    out = poly.State.__new__(poly.State)
    out.points = {i: ((q[0] + d[0], q[1] + d[1]) if i in ids else q) for i, q in st.points.items()}
    out.segments = dict(st.segments)
    return out


def margin(st, tol):
    """Distance classes: everything that does not touch is well apart."""
    inc = {}
    for s, v in st.segments.items():
        for x in v:
            inc.setdefault(x, set()).add(s)
    items = sorted(st.points.items())
    for k, (i, p) in enumerate(items):
        for j, q in items[k + 1:]:
            if abs(p[0] - q[0]) < 8 * tol and abs(p[1] - q[1]) < 8 * tol:
                return False
        for s, v in st.segments.items():
            if i not in v:
                a, b = st.xy(s)
                if a == b or seg_dist(p, a, b)[0] < 8 * tol:
                    return False
    return True


def shape_of(ref, st):
    """Combinatorial structure: boundary walks, nesting, places of free points."""
    face = {f: ref.canon_walk(f) for f in ref.outer_walks}
    face[None] = None
    inc = {v for s in st.segments.values() for v in s}
    return (sorted(face[f] for f in ref.outer_walks),
            sorted((ref.canon_walk(w), face[f] or ()) for w, f in ref.hole_face.items()),
            sorted((i, face[ref.locate(ref.pts[i])] or ()) for i in st.points if i not in inc))


def legal(st0, st1, tol):
    """The move keeps the topology and all gaps."""
    if not margin(st1, tol):
        return False
    try:
        a = planar.Planar(st0.points, st0.segments)
        b = planar.Planar(st1.points, st1.segments)
    except planar.NotPlanar:
        return False
    return shape_of(a, st0) == shape_of(b, st1)


def collisions(st0, st1, ids, tol):
    """What the moved points and their segments meet among the other segments:
    'clear' collisions and whether anything at all comes near."""
    clear, near = [], []
    fixed = {s: v for s, v in st0.segments.items() if not (set(v) & ids)}
    movs = {s: v for s, v in st0.segments.items() if set(v) & ids}

    def meet(a, b, c, d, what):
        l, m = dist(a, b), dist(c, d)
        if l < tol or m < tol:
            return
        for e in (c, d):
            # the end of a segment exactly on the line, parallel or not
            if seg_dist(e, a, b)[0] <= 1e-12 * l and min(dist(e, a), dist(e, b)) > 8 * tol:
                clear.append(what + ("vertex",))
        it = poly.intersect(a, b, c, d)
        k = 8 * tol
        if it is not None and k < it[0] * l < l - k and k < it[1] * m < m - k:
            clear.append(what)
        if min(seg_dist(a, c, d)[0], seg_dist(b, c, d)[0], seg_dist(c, a, b)[0], seg_dist(d, a, b)[0]) < k or \
                (it is not None and -k < it[0] * l < l + k and -k < it[1] * m < m + k):
            near.append(what)
    for s, (u, v) in fixed.items():
        c, d = st0.points[u], st0.points[v]
        for i in ids:
            meet(st0.points[i], st1.points[i], c, d, ("point", i, s))
        for t, (x, y) in movs.items():
            if not ({x, y} & {u, v}):
                meet(st1.points[x], st1.points[y], c, d, ("segment", t, s))
            else:
                # common fixed vertex: only an overlap can be a matter of taste
                w = ({x, y} & {u, v}).pop()
                o, q = (x if y == w else y), (u if v == w else v)
                p = st0.points[w]
                v1, v2 = [(e[0] - p[0], e[1] - p[1]) for e in (st1.points[o], st0.points[q])]
                if abs(v1[0] * v2[1] - v1[1] * v2[0]) < 1e-3 * dist(st1.points[o], p) * dist(st0.points[q], p):
                    # almost parallel, where they meet is decided by rounding
                    near.append(("parallel", t, s))
                l, e = dist(st1.points[o], p), st0.points[q]
                if l > tol and seg_dist(e, p, st1.points[o])[0] <= 1e-12 * l and min(dist(e, p), dist(e, st1.points[o])) > 8 * tol:
                    # the other segment lies in the moved one
                    clear.append(("covered", t, s))
                for a, b, e in ((st1.points[o], p, st0.points[q]), (st0.points[q], p, st1.points[o])):
                    if dist(b, e) > tol and seg_dist(a, b, e)[0] < 8 * tol:
                        near.append(("overlap", t, s))
    return clear, near


class C09(Scenario):
    ID = "C09"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 150000
    QUICK_WALL = 50
    RULE = ("random editing histories with moves of single points, segments, whole components and random sets, and merges of two points; a move is done when "
            "the same topology is valid at the new place; afterwards everything is checked as for any edit: the subdivision, "
            "what later points and lines snap to and cross; non-trivial = a move took effect and an edit followed")
    REAL = ["bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = []
    ASSUME = ["features are either within half the tolerance of each other or more than four tolerances apart",
              "move_points is called for moves that keep the topology, as its documentation asks"]
    STATE_MEASURE = "distinct placements of the points after a move"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        n = rng.choice([6, 12, 20])
        g = conf["grid"]
        edits = poly.gen_edits(rng, conf, n)
        if rng.random() < 0.5:
            edits = poly.ring(rng, g) + edits
        ops = []
        for op in edits:
            ops.append(["edit", op])
            while rng.random() < 0.3:
                r = rng.random()
                kind = rng.choice(["one", "one", "seg", "comp", "set", "last", "mixed"])
                step = rng.choice([1, 1, 2, 3, 8]) / rng.choice([8, 4, 2, 1])
                d = [rng.choice([-1, 0, 1, 1, 2]) * step, rng.choice([-1, 0, 1, -2]) * step]
                if r < 0.12:
                    ops.append(["drift", kind, rng.randrange(50), rng.randrange(1, 16), [rng.choice([-1, 0, 1]), rng.choice([-1, 1])], rng.choice([6, 12, 24])])
                    ops += [["probe", rng.choice([0, 3, 6, 6]), rng.randrange(50), rng.randrange(-3, 4)] for _ in range(rng.randrange(3))]
                elif r < 0.2:
                    ops.append(["merge", rng.choice(["seg", "seg", "near", "near", "free", "any"]), rng.randrange(50), rng.randrange(50), rng.randrange(2)])
                elif r > 0.93:
                    ops.append(["aim", rng.choice(["mixed", "mixed", kind]), rng.randrange(50), rng.randrange(1, 16), rng.randrange(50), rng.randrange(1, 7)])
                elif r > 0.9:
                    ops.append(["aim", "one", rng.randrange(50), rng.randrange(1, 16), rng.randrange(50), rng.choice([5, 6])])
                else:
                    ops.append(["move" if r < 0.8 else "check", kind, rng.randrange(50), rng.randrange(1, 16), d])
                if rng.random() < 0.5:
                    ops.append(["probe", rng.randrange(7), rng.randrange(50), rng.randrange(-3, 4)])
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        Moves(plan, ctx).run()

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("edit-after-move", 0) > 0


class Moves:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.w = poly.Editor(ctx, plan["config"])
        self.moved = []
        self.old = []

    def run(self):
        ctx = self.ctx
        for op in self.plan["ops"]:
            try:
                getattr(self, "op_" + op[0])(op)
            except Skip as e:
                ctx.probe("skip:" + str(e))

    def edit(self, op):
        rec = self.w.apply(op)
        self.w.check_valid(rec["kind"])
        poly.check_effect(self.w, rec)
        st = self.w.state()
        self.ctx.log(rec["kind"], sorted(st.points.items()), sorted(st.segments.items()))
        if self.moved:
            self.ctx.probe("edit-after-move")

    def op_edit(self, op):
        self.edit(op[1])

    def op_probe(self, op):
        """Edits at the places points were moved to and from."""
        w, ctx = self.w, self.ctx
        st = w.state()
        live = [i for i in self.moved if i in st.points]
        i = w.pick(live, op[2])
        k = op[1]
        if k <= 1:
            x, y = st.points[i]
            rec = w.add_point((x + 0.1 * op[3] * w.tol, y))
        elif k == 2:
            rec = w.add_point(w.pick(self.old, op[2]))
        elif k == 3:
            inc = [s for s, v in st.segments.items() if i in v]
            a, b = st.xy(w.pick(inc, op[2]))
            rec = w.add_point(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
        elif k == 4:
            x, y = st.points[i]
            rec = w.add_line((x - 0.37 * w.scale, y - 0.11 * w.scale), (x + 0.74 * w.scale, y + 0.22 * w.scale))
        elif k == 6:
            # a line from one side that ends just behind the segment
            inc = [s for s, v in st.segments.items() if i in v]
            a, b = st.xy(w.pick(inc, op[2]))
            l = dist(a, b)
            n = ((a[1] - b[1]) / l, (b[0] - a[0]) / l)
            m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            f, e = 0.23 * w.scale, 5 * w.tol
            if op[3] % 2:
                f, e = -f, -e
            rec = w.add_line((m[0] + f * n[0], m[1] + f * n[1]), (m[0] - e * n[0], m[1] - e * n[1]))
        else:
            inc = [s for s, v in st.segments.items() if i in v]
            a, b = st.xy(w.pick(inc, op[2]))
            m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            rec = w.add_line((m[0] - 0.31 * w.scale, m[1] - 0.17 * w.scale), (m[0] + 0.62 * w.scale, m[1] + 0.34 * w.scale))
        w.check_valid(rec["kind"])
        poly.check_effect(w, rec)
        ctx.probe("probe-%d" % k)
        ctx.probe("edit-after-move")

    def select(self, st, op):
        w = self.w
        ids = sorted(st.points)
        kind = op[1]
        if kind == "one":
            return {w.pick(ids, op[2])}
        if kind == "last":
            return {ids[-1]} if ids else w.pick([], 0)
        if kind == "seg":
            return set(st.segments[w.pick(sorted(st.segments), op[2])])
        if kind == "set":
            w.pick(ids, 0)
            return {i for k, i in enumerate(ids) if op[3] >> (k % 4) & 1} or {ids[0]}
        if kind == "mixed":
            # a free point and one with segments
            inc = {v for s in st.segments.values() for v in s}
            return {w.pick([i for i in ids if i not in inc], op[2] // 3), w.pick(sorted(inc), op[3] + op[2])}
        comp = {w.pick(ids, op[2])}
        grow = True
        while grow:
            grow = False
            for v in st.segments.values():
                if len(comp & set(v)) == 1:
                    comp |= set(v)
                    grow = True
        return comp

    def prepare(self, op):
        w = self.w
        st = w.state()
        if not margin(st, w.tol):
            raise Skip("close features")
        ids = self.select(st, op)
        d = (op[4][0] * w.scale, op[4][1] * w.scale)
        if d == (0.0, 0.0):
            raise Skip("no displacement")
        return st, ids, d, moved(st, ids, d)

    def op_move(self, op):
        w, ctx = self.w, self.ctx
        st, ids, d, st1 = self.prepare(op)
        if not legal(st, st1, w.tol):
            raise Skip("move breaks the topology")
        before = poly.snapshot(w.pd)
        pts = [w.pd.points[i] for i in sorted(ids)]
        ctx.call("move_points", w.pd.move_points, pts, d)
        now = poly.snapshot(w.pd)
        for i in before["points"]:
            if i in ids:
                b = before["points"][i]
                before["points"][i] = st1.points[i] + b[2:]
        ctx.expect(now == before, "move-effect", lambda: "after moving points %r by %r: %s" % (sorted(ids), d, poly.diff(before, now)))
        w.check_valid("move")
        self.old += [st.points[i] for i in sorted(ids)]
        self.moved += [i for i in sorted(ids) if i not in self.moved]
        ctx.probe("moved-" + op[1])
        ctx.state(sorted(st1.points.items()))
        ctx.log("move", sorted(ids), d)

    def op_merge(self, op):
        """Two points become one, or nothing happens."""
        w, ctx = self.w, self.ctx
        st = w.state()
        if not margin(st, w.tol):
            raise Skip("close features")
        ids = sorted(st.points)
        inc = {v for s in st.segments.values() for v in s}
        i = w.pick(ids, op[2])
        rest = [k for k in ids if k != i]
        if op[1] == "seg":
            i, j = st.segments[w.pick(sorted(st.segments), op[2])]
        elif op[1] == "near":
            j = w.pick(sorted(rest, key=lambda k: dist(st.points[k], st.points[i]))[:3], op[3])
        elif op[1] == "free":
            i = w.pick([k for k in ids if k not in inc], op[2])
            j = w.pick([k for k in ids if k != i], op[3])
        else:
            j = w.pick(rest, op[3])
        a, b = min(i, j), max(i, j)
        end = poly.State.__new__(poly.State)
        end.points = {k: q for k, q in st.points.items() if k != b}
        pairs = {}
        for s, v in st.segments.items():
            v = tuple(a if x == b else x for x in v)
            if v[0] != v[1]:
                pairs.setdefault(frozenset(v), s)
        end.segments = {s: tuple(v) for v, s in pairs.items()}
        if not margin(end, w.tol):
            raise Skip("merge makes close features")
        try:
            planar.Planar(end.points, end.segments)
            fits = True
        except planar.NotPlanar:
            fits = False
        before = poly.snapshot(w.pd)
        args = [w.pd.points[a], w.pd.points[b]]
        if op[4]:
            args.reverse()
        r = ctx.call("merge_points", w.pd.merge_points, *args)
        now = poly.snapshot(w.pd)
        got = w.state()
        if b in got.points:
            ctx.expect(r is args[1], "merge-result", "a refused merge does not return the second point")
            ctx.expect(now == before, "merge-refused", lambda: "a refused merge of points %d and %d changed the drawing: %s" % (a, b, poly.diff(before, now)))
            ctx.probe("merge-refused")
        else:
            ctx.expect(r is w.pd.points.get(a), "merge-result", "merged points do not return the point that is left")
            ctx.expect(fits, "merge-crossing", lambda: "merging points %d and %d makes segments cross" % (a, b))
            ctx.expect(got.points == end.points and sorted(map(sorted, got.segments.values())) == sorted(map(sorted, end.segments.values())), "merge-effect",
                       lambda: "merging points %d and %d of %r gives points %r, segments %r" % (a, b, st.segments, sorted(got.points), got.segments))
            ctx.expect(all(got.segments.get(s) == v for s, v in st.segments.items() if b not in v), "merge-effect", "segments away from the merged point were replaced")
            w.check_valid("merge")
            self.old.append(st.points[b])
            self.moved = [k for k in self.moved if k in got.points and k != a] + [a]
            ctx.probe("merged-" + op[1])
        ctx.log("merge", a, b, b in got.points)

    def op_drift(self, op):
        """Many moves, each of them shorter than the tolerance."""
        tol = self.w.tol / self.w.scale
        step = [0.7 * v * tol for v in op[4]]
        for k in range(op[5]):
            self.op_move([op[0], op[1], op[2], op[3], step])
        self.ctx.probe("drift")

    def op_aim(self, op):
        """Ask for a move that takes a free point across some segment."""
        w = self.w
        st = w.state()
        ids = self.select(st, op)
        inc = {v for s in st.segments.values() for v in s}
        i = (sorted(ids - inc) or sorted(ids))[0]
        turns = [(v[1 - v.index(i)], q) for v in st.segments.values() if i in v for u in st.segments.values()
                 if v[1 - v.index(i)] in u and i not in u for q in u if q not in v]
        if op[5] > 4 and turns and len(ids) == 1:
            # turn a segment onto another one at its other end, and beyond
            u, q = w.pick(turns, op[4])
            a, b, p = st.points[u], st.points[q], st.points[i]
            k = [2.0, 1.5][op[5] % 2]
            return self.op_check(op[:4] + [[(a[j] + k * (b[j] - a[j]) - p[j]) / w.scale for j in (0, 1)]])
        a, b = st.xy(w.pick(sorted(st.segments), op[4]))
        t = op[5] / 7.0
        p = st.points[i]
        d = [1.3 * (a[k] + t * (b[k] - a[k]) - p[k]) / w.scale for k in (0, 1)]
        self.op_check(op[:4] + [d])

    def op_check(self, op):
        """Asking whether a move is possible answers right and changes nothing."""
        w, ctx = self.w, self.ctx
        st, ids, d, st1 = self.prepare(op)
        before = poly.snapshot(w.pd)
        ok = ctx.call("check_displacment", w.pd.check_displacment, [w.pd.points[i] for i in sorted(ids)], d)
        now = poly.snapshot(w.pd)
        ctx.expect(now == before, "check-effect", lambda: "check_displacment changed the drawing: %s" % poly.diff(before, now))
        clear, near = collisions(st, st1, ids, w.tol)
        ctx.log("check", sorted(ids), d, bool(ok))
        if ok:
            ctx.expect(not clear, "check-missed", lambda: "moving points %r by %r is allowed, although it meets segments: %r" % (sorted(ids), d, clear[:3]))
            ctx.probe("check-yes")
        else:
            ctx.expect(near, "check-refused", lambda: "moving points %r by %r is refused, nothing is in the way" % (sorted(ids), d))
            ctx.probe("check-no")


SCENARIO = C09()
