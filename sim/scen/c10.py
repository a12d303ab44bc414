"""C10: merging drawings gives their common refinement with correct maps."""
from ..core import Scenario, Violation
from . import poly, planar
from .poly import dist, seg_dist, Skip


class Side:
    """Geometry of one input drawing, taken before the merge."""

    def __init__(self, ctx, pd, what):
        self.st, self.ref, self.poly_of = poly.check_valid(ctx, pd, what)
        self.face_poly = {p: f for f, p in self.poly_of.items()}
        self.snap = poly.snapshot(pd)


def crossings(sides, tol):
    """Proper crossings of segments of different drawings: [(xy, (k, s), (l, t))]."""
    out = []
    for k, A in enumerate(sides):
        for l in range(k + 1, len(sides)):
            B = sides[l]
            for s in A.st.segments:
                a, b = A.st.xy(s)
                for t in B.st.segments:
                    c, d = B.st.xy(t)
                    if min(a[0], b[0]) > max(c[0], d[0]) + tol or min(c[0], d[0]) > max(a[0], b[0]) + tol or \
                            min(a[1], b[1]) > max(c[1], d[1]) + tol or min(c[1], d[1]) > max(a[1], b[1]) + tol:
                        continue
                    it = poly.intersect(a, b, c, d)
                    if it is None or min(seg_dist(a, c, d)[0], seg_dist(b, c, d)[0], seg_dist(c, a, b)[0], seg_dist(d, a, b)[0]) < 0.3 * tol:
                        continue        # no crossing besides a common vertex
                    u, v = it
                    la, lb = dist(a, b), dist(c, d)
                    e = 1e-9
                    if -e < u < 1 + e and -e < v < 1 + e:
                        out.append(((a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])), (k, s), (l, t)))
    return out


def clear_cut(sides, tol, cross):
    """Skip inputs where it is a matter of taste whether two features meet."""
    pts = [q for S in sides for q in S.st.points.values()] + [c[0] for c in cross]
    clusters = []
    cells = {}
    size = 8 * tol
    for q in pts:
        c = (int(q[0] // size), int(q[1] // size))
        home = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for j in cells.get((c[0] + dx, c[1] + dy), ()):
                    d = dist(q, clusters[j])
                    if d < 0.3 * tol:
                        home = j
                    elif d < 4 * tol:
                        raise Skip("points near")
        if home is None:
            clusters.append(q)
            cells.setdefault(c, []).append(len(clusters) - 1)
    for S in sides:
        for s in S.st.segments:
            a, b = S.st.xy(s)
            if dist(a, b) < 8 * tol:
                raise Skip("short segment")
            lo = (min(a[0], b[0]) - 4 * tol, min(a[1], b[1]) - 4 * tol)
            hi = (max(a[0], b[0]) + 4 * tol, max(a[1], b[1]) + 4 * tol)
            for q in clusters:
                if lo[0] <= q[0] <= hi[0] and lo[1] <= q[1] <= hi[1]:
                    d, t = seg_dist(q, a, b)
                    if 0.3 * tol < d < 4 * tol:
                        raise Skip("point near segment")
    return clusters


def inner_point(ref, st, f, tol):
    """A point well inside a bounded face (input coordinates) or None."""
    best = None
    for h in ref.walks[f]:
        a, b = st.points[ref.origin(h)], st.points[ref.target(h)]
        l = dist(a, b)
        n = (-(b[1] - a[1]) / l, (b[0] - a[0]) / l)
        for w in (0.5, 0.31, 0.77):
            m = (a[0] + w * (b[0] - a[0]), a[1] + w * (b[1] - a[1]))
            # distance to the rest along the normal: the first hit
            hit = 4 * l
            for s in st.segments:
                if s == h[0]:
                    continue
                c, d = st.xy(s)
                it = poly.intersect(m, (m[0] + n[0], m[1] + n[1]), c, d)
                if it and it[0] > 0 and -1e-9 <= it[1] <= 1 + 1e-9:
                    hit = min(hit, it[0])
            p = (m[0] + 0.5 * hit * n[0], m[1] + 0.5 * hit * n[1])
            if ref.locate_xy(*p) != f:
                continue
            c = min(seg_dist(p, *st.xy(s))[0] for s in st.segments)
            if best is None or c > best[0]:
                best = (c, p)
    return best[1] if best and best[0] > 4 * tol else None


def check_merge(ctx, what, res, maps, sides, tol, self_first):
    """`res` is the common refinement of `sides` and `maps` tell where
    everything comes from."""
    E = ctx.expect
    st, ref, poly_of = poly.check_valid(ctx, res, what)
    face_poly = {p: f for f, p in poly_of.items()}
    cross = crossings(sides, tol)
    # points
    n_points = len(clear_cut(sides, tol, cross))
    E(len(st.points) == n_points, "merge-points",
      lambda: "%s: %d points, the inputs and their crossings have %d" % (what, len(st.points), n_points))
    E(len(maps) == len(sides), "merge-maps", lambda: "%s: %d maps for %d drawings" % (what, len(maps), len(sides)))
    for k, S in enumerate(sides):
        m0, m1, m2 = maps[k]
        for name, m, new, old in (("point", m0, st.points, S.st.points), ("segment", m1, st.segments, S.st.segments),
                                  ("polygon", m2, face_poly, S.face_poly)):
            for i, o in m.items():
                E(i in new, "merge-map-key", lambda: "%s: the %s map of drawing %d has key %r, there is no such %s" % (what, name, k, i, name))
                E(o in old, "merge-map-value", lambda: "%s: the %s map of drawing %d maps to %r, there is no such %s" % (what, name, k, o, name))
        for i, q in st.points.items():
            want = [o for o, p in S.st.points.items() if dist(p, q) < 2 * tol]
            E(m0.get(i) in want if want else i not in m0, "merge-map-point",
              lambda: "%s: point %d at %r of the result: map of drawing %d says %r, there it is %r" % (what, i, q, k, m0.get(i), want))
        left = {s: dist(*S.st.xy(s)) for s in S.st.segments}
        for i in st.segments:
            a, b = st.xy(i)
            mids = [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for t in (0.25, 0.5, 0.75)]
            want = [s for s in S.st.segments if all(seg_dist(m, *S.st.xy(s))[0] < 2 * tol for m in mids)]
            for s in want:
                left[s] -= dist(a, b)
            E(m1.get(i) in want if want else i not in m1, "merge-map-segment",
              lambda: "%s: segment %d %r-%r of the result: map of drawing %d says %r, it is a part of %r" % (what, i, a, b, k, m1.get(i), want))
        for s, v in left.items():
            E(abs(v) < 1e-6 * dist(*S.st.xy(s)) + 8 * tol, "merge-not-covered",
              lambda: "%s: segment %d of drawing %d is not covered (length left %g)" % (what, s, k, v))
    for i in st.segments:
        E(any(i in m[1] for m in maps), "merge-unasked", lambda: "%s: segment %d lies in no drawing" % (what, i))
    # polygons
    for p, f in face_poly.items():
        xy = None if f is None else inner_point(ref, st, f, tol)
        if f is not None and xy is None:
            ctx.probe("thin-face")
            continue
        for k, S in enumerate(sides):
            g = None if f is None else S.ref.locate_xy(*xy)
            want = S.poly_of[g]
            E(maps[k][2].get(p) == want, "merge-map-polygon",
              lambda: "%s: polygon %d of the result (around %r): map of drawing %d says %r, it lies in polygon %d there" % (what, p, xy, k, maps[k][2].get(p), want))
    if cross:
        ctx.probe("crossing")
    ctx.state((sorted(st.segments.items()), sorted(face_poly)))
    ctx.log(what, sorted(st.points.items()), sorted(st.segments.items()), [[sorted(d.items()) for d in m] for m in maps])


class C10(Scenario):
    ID = "C10"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 100000
    QUICK_WALL = 60
    RULE = ("several drawings made by random editing histories on one grid are merged again and again, in any order, results "
            "merged further, with edits between; each result is compared with the inputs' geometry: points, crossings, "
            "segments, and for every polygon the polygons of the inputs around one of its inner points; non-trivial = a merge "
            "of at least two non-empty drawings was judged")
    REAL = ["bgem.polygons (merge, polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = ["sys.stdout (progress messages; may fail as injected)"]
    ASSUME = ["features of different drawings are within a third of the merge tolerance or more than four tolerances apart"]
    STATE_MEASURE = "distinct topologies of merge results"

    def setup(self):
        import bgem.polygons.merge  # noqa

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        conf["grid"] = rng.choice([3, 4, 6, 8])
        small = conf["scale"] <= 100 and abs(conf["off"][0]) + abs(conf["off"][1]) < 30
        conf["mtol"] = rng.choice([None, 1e-8, 2e-5] if small else [2e-5])
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        ops = []
        for i in range(k):
            q = lambda: rng.randrange(0, conf["grid"] + 1)
            first = []
            r = rng.random()
            if r < 0.5:
                first += poly.ring(rng, conf["grid"])
            if r > 0.4:
                first += [["line", q(), q(), q(), q()] for _ in range(rng.choice([0, 1, 3]))]
            for op in first + poly.gen_edits(rng, conf, rng.choice([0, 1, 2, 4, 6, 10])):
                ops.append(["edit", i, op])
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.6:
                sel = [rng.randrange(8) for _ in range(rng.choice([1, 2, 2, 2, 3, 4]))]
                ops.append(["merge", sel, rng.random() < 0.5])
            elif r < 0.8:
                ops.append(["into", rng.randrange(8), rng.randrange(8), rng.random() < 0.4])
            else:
                ops.append(["badout", [rng.randrange(8), rng.randrange(8)], rng.randrange(3)])
            for _ in range(rng.choice([0, 0, 1, 3])):
                for op in poly.gen_edits(rng, conf, 1):
                    ops.append(["edit", rng.randrange(8), op])
        return {"config": conf, "ops": ops, "drawings": k}

    def execute(self, plan, ctx):
        Merge(plan, ctx).run()

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("merged", 0) > 0


class FailingOut:
    def __init__(self, after, ctx):
        self.after = after
        self.ctx = ctx

    def write(self, s):
        if self.after <= 0:
            self.ctx.fault("stdout-failed")
            raise OSError(28, "No space left on device")
        self.after -= 1

    def flush(self):
        pass


class Quiet:
    def write(self, s):
        pass

    def flush(self):
        pass


class Merge:
    def __init__(self, plan, ctx):
        from bgem.polygons import merge
        from bgem import undo
        self.merge, self.undo = merge, undo
        self.plan, self.ctx = plan, ctx
        self.conf = plan["config"]
        self.editors = [poly.Editor(ctx, self.conf) for _ in range(plan["drawings"])]

    def mtol(self):
        m = self.conf["mtol"]
        return 1e-10 if m is None else m * (self.conf["scale"] or 1.0)

    def args(self):
        return () if self.conf["mtol"] is None else (self.mtol(),)

    def side(self, i, what):
        return Side(self.ctx, self.editors[i].pd, what)

    def quiet(self, fn, *a, out=None):
        import sys
        saved = sys.stdout
        sys.stdout = out or Quiet()
        try:
            return fn(*a)
        finally:
            sys.stdout = saved

    def check_untouched(self, what, before, but=()):
        for i, e in enumerate(self.editors[:len(before)]):
            if i not in but:
                now = (poly.snapshot(e.pd), e.pd.tolerance)
                self.ctx.expect(now == before[i], "input-changed",
                                lambda: "%s changed drawing %d: %s" % (what, i, poly.diff(before[i][0], now[0])))

    def run(self):
        for op in self.plan["ops"]:
            before = [(poly.snapshot(e.pd), e.pd.tolerance) for e in self.editors]
            try:
                touched = getattr(self, "op_" + op[0])(op)
            except Skip as s:
                self.ctx.probe("skip:" + str(s))
                touched = ()
            self.check_untouched(op[0], before, touched)

    def op_edit(self, op):
        i = op[1] % len(self.editors)
        e = self.editors[i]
        rec = e.apply(op[2])
        if i >= self.plan["drawings"]:
            poly.check_valid(self.ctx, e.pd, "edit of a merge result: " + rec["kind"])
            poly.check_effect(e, rec)
            self.ctx.probe("edited-result")
        # the same object may be registered twice (merge of a single drawing)
        return [j for j, x in enumerate(self.editors) if x.pd is e.pd]

    def sides(self, idx, what):
        sides = [self.side(i, what) for i in idx]
        clear_cut(sides, self.mtol(), crossings(sides, self.mtol()))
        return sides

    def adopt(self, pd):
        e = poly.Editor(self.ctx, self.conf)
        e.pd = pd
        e.tol = e.tol
        pd.set_tolerance(e.tol)
        self.editors.append(e)

    def op_merge(self, op):
        ctx = self.ctx
        idx = [i % len(self.editors) for i in op[1]]
        sides = self.sides(idx, "merge")
        if sum(len(s.st.segments) for s in sides) > 60:
            raise Skip("large")
        what = "merge of drawings %r" % idx
        res, maps = self.quiet(ctx.call, "intersect_decompositions", self.merge.intersect_decompositions,
                               [self.editors[i].pd for i in idx], *self.args())
        check_merge(ctx, what, res, maps, sides, self.mtol(), False)
        n = sum(1 for s in sides if s.st.segments)
        ctx.probe("merge-of-%d" % len(idx))
        if n >= 2:
            ctx.probe("merged")
        if any(not s.st.segments for s in sides):
            ctx.probe("merge-empty")
        if len(idx) > 1:
            for i in idx:
                ctx.expect(res is not self.editors[i].pd, "merge-aliased", "the result of the merge is one of the inputs")
            if op[2]:
                self.adopt(res)
        return ()

    def op_into(self, op):
        """Merge one drawing into another one in place, maybe undo it."""
        ctx = self.ctx
        i, j = op[1] % len(self.editors), op[2] % len(self.editors)
        if i == j:
            raise Skip("same")
        sides = self.sides([i, j], "into")
        if sum(len(s.st.segments) for s in sides) > 60:
            raise Skip("large")
        pd = self.editors[i].pd
        tol = pd.tolerance
        st = self.undo.Stack() if op[3] else self.undo.stack()
        saved = self.undo.stack()
        before = poly.snapshot(pd)
        self.undo.setstack(st)
        try:
            with self.undo.group("merge"):
                res, ms, mo = self.quiet(ctx.call, "intersect_single", self.merge.intersect_single, pd, self.editors[j].pd, *self.args())
            if op[3] and st.canundo():
                after = poly.snapshot(pd)
                ctx.call("undo of merge", st.undo)
                now = poly.snapshot(pd)
                ctx.expect(now == before, "merge-undo", lambda: "undo of the merge: " + poly.diff(before, now))
                ctx.call("redo of merge", st.redo)
                now = poly.snapshot(pd)
                ctx.expect(now == after, "merge-redo", lambda: "redo of the merge: " + poly.diff(after, now))
                ctx.probe("merge-undone")
        finally:
            self.undo.setstack(saved)
        ctx.expect(res.tolerance == tol, "merge-tolerance", lambda: "the snapping tolerance is %r after the merge, it was %r" % (res.tolerance, tol))
        full = []
        for m, now, old in zip(ms, (res.points, res.segments, res.polygons), (sides[0].st.points, sides[0].st.segments, sides[0].face_poly)):
            d = {int(a): a for a in now if a in old}
            d.update(m)
            full.append(d)
        check_merge(ctx, "merge of drawing %d into %d" % (j, i), res, [full, [{a: b for a, b in m.items() if b is not None} for m in mo]], sides, self.mtol(), True)
        ctx.probe("merged-into")
        if all(s.st.segments for s in sides):
            ctx.probe("merged")
        return [k for k, x in enumerate(self.editors) if x.pd is pd]

    def op_badout(self, op):
        """The progress messages cannot be written: the inputs stay as they are."""
        ctx = self.ctx
        idx = [i % len(self.editors) for i in op[1]]
        sides = self.sides(idx, "merge")
        if sum(len(s.st.segments) for s in sides) > 60:
            raise Skip("large")
        r, e = self.quiet(ctx.attempt, self.merge.intersect_decompositions, [self.editors[i].pd for i in idx], *self.args(), out=FailingOut(2 * op[2], ctx))
        if e is not None and not isinstance(e, OSError):
            ctx.fail("exception:badout:" + type(e).__name__, "merge raised %r" % (e,))
        ctx.log("badout", type(e).__name__)
        return ()


SCENARIO = C10()
