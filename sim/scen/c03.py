"""C03: the reported polygon change is what happened, and an application that
only follows the reports always knows the polygons and their attributes."""
from ..core import Scenario
from . import planar, poly


class C03(Scenario):
    ID = "C03"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 300000
    QUICK_WALL = 45
    RULE = ("histories of direct segment insertion and deletion (plus points, lines and attribute changes in between); the "
            "report after each is checked against the faces before and after, computed from the bare segments in exact "
            "arithmetic, and replayed into a mirror of {polygon: attribute}; non-trivial = at least one polygon was added, "
            "removed, split or joined")
    REAL = ["bgem.polygons (polygons, decomp, point, segment, polygon, idmap, aabb_lookup)"]
    STUB = ["the application following the reports (a dictionary)"]
    ASSUME = ["reports are read after new_segment and delete_segment, as documented"]
    STATE_MEASURE = "distinct (report kind, number of polygons, holes)"

    def gen(self, rng, tier):
        conf = poly.gen_config(rng)
        n = rng.choice([6, 12, 20, 35])
        ops = []
        for op in poly.gen_edits(rng, conf, n):
            r = rng.random()
            if op[0] == "line" and r < 0.75:
                # same line, but drawn by end points and new_segment
                op = ["pseg"] + op[1:]
            ops.append(op)
            if rng.random() < 0.15:
                ops.append(["attr", rng.randrange(20), rng.randrange(100)])
            if rng.random() < 0.15:
                ops.append(["attr1", rng.randrange(2), rng.randrange(50), rng.randrange(100)])
        return {"config": conf, "ops": ops}

    def nontrivial(self, plan, ctx):
        return any(k.startswith("polygon-") for k in ctx.probes)

    def execute(self, plan, ctx):
        from bgem.polygons.decomp import PolygonChange
        w = poly.Editor(ctx, plan["config"])
        pd = w.pd
        t, a, b = ctx.call("report", pd.get_last_polygon_changes)
        ctx.expect((t, a, b) == (PolygonChange.add, pd.outer_polygon.id, pd.outer_polygon.id), "initial-report",
                   "initial report is %r" % ((t, a, b),))
        mirror = {int(pd.outer_polygon.id): "None"}
        for op in plan["ops"]:
            try:
                if op[0] == "attr":
                    ids = sorted(pd.polygons)
                    i = w.pick(ids, op[1])
                    ctx.call("set_attr", pd.set_attr, pd.polygons[i], "a%d" % op[2])
                    mirror[i] = repr("a%d" % op[2])
                    continue
                if op[0] == "attr1":
                    m = [pd.points, pd.segments][op[1] % 2]
                    i = w.pick(sorted(m), op[2])
                    ctx.call("set_attr", pd.set_attr, m[i], "b%d" % op[3])
                    ctx.expect(m[i].attr == "b%d" % op[3], "set-attr", "set_attr did not set the attribute")
                    continue
                st0, had = w.state(), self.lower(ctx, w)
                if op[0] == "pseg":
                    self.tracked(ctx, w, mirror, lambda: self.pseg(w, op))
                elif op[0] in ("seg", "dseg", "dlast"):
                    self.tracked(ctx, w, mirror, lambda: w.apply(op))
                else:
                    w.apply(op)
                    mirror = self.polys(ctx, w)
                self.check_lower(ctx, w, op[0], st0, had)
            except poly.Skip as e:
                ctx.probe("skip:" + str(e))

    def lower(self, ctx, w):
        return poly.observe(ctx, "attributes", lambda: [{int(i): o.attr for i, o in m.items()} for m in (w.pd.points, w.pd.segments)])

    def check_lower(self, ctx, w, what, st0, had):
        """Points and segments keep their attributes, the parts of a split
        segment carry the attribute of the whole."""
        st1, now = w.state(), self.lower(ctx, w)
        for kind, h, n in zip(("point", "segment"), had, now):
            for i, a in n.items():
                if i in h and (kind == "point" or set(st0.segments[i]) & set(st1.segments[i])):
                    ctx.expect(a == h[i], "lower-attribute", lambda: "after %s the attribute of %s %d changed from %r to %r" % (what, kind, i, h[i], a))
        for i, a in now[1].items():
            if i in st0.segments:
                continue
            p, q = st1.xy(i)
            mids = [(p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])) for t in (0.25, 0.5, 0.75)]
            on = [k for k in st0.segments if all(poly.seg_dist(m, *st0.xy(k))[0] < 0.6 * w.tol for m in mids)]
            if len(on) == 1 and poly.dist(p, q) > 8 * w.tol:
                ctx.probe("split-part")
                ctx.expect(a == had[1][on[0]], "split-attribute",
                           lambda: "after %s segment %d is a part of segment %d with attribute %r, its own is %r" % (what, i, on[0], had[1][on[0]], a))
            elif not on and what != "dseg":
                ctx.expect(a is None, "new-attribute", lambda: "after %s the new segment %d has attribute %r" % (what, i, a))

    def pseg(self, w, op):
        a, b = w.coord(op[1], op[2]), w.coord(op[3], op[4])
        ra, rb = None, None
        st = w.state()
        if w.predict_point(st, a)[0] == "seg" or w.predict_point(st, b)[0] == "seg":
            raise poly.Skip("would split")
        ra = w.add_point(a)["ret"]
        rb = w.add_point(b)["ret"]
        ids = w.point_ids()
        return w.apply(["seg", ids.index(ra.id), ids.index(rb.id)])

    def polys(self, ctx, w):
        return poly.observe(ctx, "polygons", lambda: {int(i): repr(p.attr) for i, p in w.pd.polygons.items()})

    def faces(self, ctx, w, what):
        """{polygon id: (exact area or None, key of one boundary)} and ref."""
        def f():
            st, ref = poly.reference(ctx, w.pd, what)
            out = {int(w.pd.outer_polygon.id): None}
            for o in ref.outer_walks:
                h = ref.walks[o][0]
                out[int(w.pd.segments[h[0]].polygons()[h[1]].id)] = o
            return st, ref, out
        return poly.observe(ctx, "faces", f)

    def tracked(self, ctx, w, mirror, edit):
        from bgem.polygons.decomp import PolygonChange as C
        pd = w.pd
        snap0 = poly.observe(ctx, "before", poly.snapshot, pd)
        rec = edit()      # may add points first: they change no polygon
        kind = rec["kind"]
        st0 = rec["before"]
        ref0 = planar.Planar(st0.points, st0.segments, check=False)
        t, a, b = ctx.call("report", pd.get_last_polygon_changes)
        st1, ref1, now = self.faces(ctx, w, kind)
        snap1 = poly.observe(ctx, "after", poly.snapshot, pd)
        ids0, ids1 = set(mirror), {int(i) for i in pd.polygons}
        E = ctx.expect
        what = lambda: "%s reported %s %r %r" % (kind, t, a, b)
        # polygons whose outer boundary is another one now
        changed = {i for i in ids0 & ids1 if set(snap0["polygons"][i][0]) != set(snap1["polygons"][i][0])}
        # what happened, from the geometry alone
        n0, n1 = len(ref0.outer_walks) + 1, len(ref1.outer_walks) + 1
        attrs = self.polys(ctx, w)
        ctx.log(kind, str(t), a, b, sorted(ids1))
        ctx.state((kind, str(t), n1, sum(len(v) for v in ref1.face_holes.values())))
        if n1 == n0 + 1:
            E(t in (C.add, C.split), "report-kind", lambda: what() + " but a polygon appeared")
            E(a in ids0 and b not in ids0 and ids1 == ids0 | {b}, "report-ids", lambda: what() + ": polygons before %r, after %r" % (sorted(ids0), sorted(ids1)))
            sid = rec["ret"].id
            sides = {int(q.id) for q in pd.segments[sid].polygons()}
            E(sides == {a, b}, "report-ids", lambda: what() + ": the new segment separates %r" % (sorted(sides),))
            E(changed <= {a}, "other-polygon", lambda: what() + " but the boundary of polygons %r changed" % (sorted(changed),))
            # split: the boundary of the cut polygon itself was touched; add: inside it
            va = rec["ids"][0]
            fa = self.face_between(ref0, ref1, sid, va)
            touched = ref0.area2[fa] > 0
            E((t == C.split) == touched, "report-kind", lambda: what() + ": the new polygon %s" % ("cuts the old one through" if touched else "lies inside the old one"))
            if t == C.add:
                # the new one is nested in the original
                E(b in pd.get_childs(a), "report-nesting", lambda: what() + ": not nested")
            want = dict(mirror)
            want[b] = mirror[a]
            E(attrs == want, "attribute", lambda: what() + ": attributes %r, following the reports gives %r" % (attrs, want))
            ctx.probe("polygon-" + ("split" if touched else "added"))
        elif n1 == n0 - 1:
            E(t in (C.remove, C.join), "report-kind", lambda: what() + " but a polygon vanished")
            E(a in ids0 and b in ids0 and a != b and ids1 == ids0 - {b}, "report-ids", lambda: what() + ": polygons before %r, after %r" % (sorted(ids0), sorted(ids1)))
            want = {k: v for k, v in mirror.items() if k != b}
            E(attrs == want, "attribute", lambda: what() + ": attributes %r, following the reports gives %r" % (attrs, want))
            # the deleted segment separated exactly these two
            walks = {ref0.walk_of[(rec["id"], 0)], ref0.walk_of[(rec["id"], 1)]}
            both_outer = all(ref0.area2[x] > 0 for x in walks)
            E((t == C.join) == both_outer, "report-kind", lambda: what() + ": the polygons %s" % ("are neighbours" if both_outer else "are nested"))
            pair = set(snap0["segments"][rec["id"]][2])
            E(pair == {a, b}, "report-ids", lambda: what() + ": the deleted segment separated %r" % (sorted(pair),))
            E(changed <= {a}, "other-polygon", lambda: what() + " but the boundary of polygons %r changed" % (sorted(changed),))
            ctx.probe("polygon-" + ("joined" if both_outer else "removed"))
        else:
            E(ids1 == ids0, "report-ids", lambda: what() + ": polygons before %r, after %r" % (sorted(ids0), sorted(ids1)))
            E(t in (C.none, C.shape), "report-kind", lambda: what() + " but no polygon appeared or vanished")
            E(attrs == mirror, "attribute", lambda: what() + ": attributes %r, expected %r" % (attrs, mirror))
            if t == C.none:
                E(not changed, "report-shape", lambda: what() + " but the outer boundary of polygons %r changed" % (sorted(changed),))
                ctx.probe("none")
            else:
                E(changed <= set(a), "report-shape", lambda: what() + " but the outer boundary of polygons %r changed" % (sorted(changed),))
                E(set(a) <= ids1 and len(a) > 0, "report-shape", lambda: what() + ": unknown polygons")
                fs = {self.face_poly(ref0, ref1, now, rec)}
                E(set(a) == fs, "report-shape", lambda: what() + ": the edit was inside polygon %r" % (sorted(fs),))
                ctx.probe("shape")
        mirror.clear()
        mirror.update(attrs)

    # helpers on the references ---------------------------------------------
    def face_between(self, ref0, ref1, sid, va):
        """Walk of ref0 cut by the new segment at va."""
        hs = ref1.ccw[va]
        k = [i for i, h in enumerate(hs) if h[0] == sid][0]
        nb = hs[(k - 1) % len(hs)]          # clockwise neighbour: face on its left holds the new segment
        return ref0.walk_of[nb]

    def face_poly(self, ref0, ref1, now, rec):
        inv = {f: i for i, f in now.items()}
        if rec["kind"] == "new_segment":
            return inv[ref1.face_of[(rec["ret"].id, 0)]]
        # deleted: the face that held it, found through a surviving neighbour
        s = rec["id"]
        for h in ref0.walks[ref0.walk_of[(s, 0)]]:
            if h in ref1.face_of:
                return inv[ref1.face_of[h]]
        return None


SCENARIO = C03()
