"""Shared world of the polygon scenarios: drives PolygonDecomposition through
its public operations, keeps away from inputs whose snapping is ambiguous, and
compares the result with the exact reference in planar.py."""
import math
from fractions import Fraction

from ..core import Violation, HarnessError
from . import planar

import os
DEBUG = bool(os.environ.get("POLY_DEBUG"))
SCALES = [1.0, 1.0, 100.0, 0.25, 1000.0, 0.004]
OFFSETS = [(0.0, 0.0), (0.0, 0.0), (-3.0, 7.5), (512.0, -300.25), (500000.0, 1200000.0), (-1040000.0, 600000.0)]


def seg_dist(p, a, b):
    """distance of p to segment ab and parameter."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
    tc = min(1.0, max(0.0, t))
    return math.hypot(p[0] - a[0] - tc * dx, p[1] - a[1] - tc * dy), tc


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def intersect(a, b, c, d):
    """Proper intersection parameters of segments ab and cd or None."""
    ux, uy = b[0] - a[0], b[1] - a[1]
    vx, vy = d[0] - c[0], d[1] - c[1]
    det = ux * vy - uy * vx
    if abs(det) < 1e-7 * (math.hypot(ux, uy) * math.hypot(vx, vy)):      # coordinates around 1e6 are rounded
        return None
    wx, wy = c[0] - a[0], c[1] - a[1]
    t = (wx * vy - wy * vx) / det
    s = (wx * uy - wy * ux) / det
    return t, s


class Skip(Exception):
    """The operation is outside the tested domain at this state."""


class State:
    """Observed state of a decomposition, through public attributes."""

    def __init__(self, pd):
        self.points = {int(i): (float(p.xy[0]), float(p.xy[1])) for i, p in pd.points.items()}
        self.segments = {int(i): (int(s.vtxs[0].id), int(s.vtxs[1].id)) for i, s in pd.segments.items()}

    def xy(self, seg):
        a, b = self.segments[seg]
        return self.points[a], self.points[b]


class World:
    def __init__(self, ctx, config, shared_attr=None):
        from bgem.polygons import polygons
        self.mod = polygons
        self.ctx = ctx
        self.scale = config.get("scale", 1.0) or 1.0
        self.off = config.get("off", [0.0, 0.0])
        self.tol = config.get("tolf", 2e-5) * self.scale
        self.pd = ctx.call("create", lambda: polygons.PolygonDecomposition(self.tol))
        self.recent = []

    def coord(self, gx, gy):
        return (gx * self.scale + self.off[0], gy * self.scale + self.off[1])

    # -- prediction with safety margins --------------------------------------
    def predict_point(self, st, p, extra=(), min_sep=4.0):
        """('pt', id) | ('seg', id, t, xy) | ('free',); raises Skip when the
        snapping of p is not clear cut."""
        tol = self.tol
        near = []
        for i, q in st.points.items():
            d = dist(p, q)
            if d < min_sep * tol:
                if d > 0.5 * tol:
                    raise Skip("point near")
                near.append(i)
        for q in extra:
            if dist(p, q) < min_sep * tol:
                raise Skip("point near new point")
        if len(near) > 1:
            raise Skip("two points near")
        if near:
            return ("pt", near[0])
        hits = []
        for s in st.segments:
            a, b = st.xy(s)
            d, t = seg_dist(p, a, b)
            if d < min_sep * tol:
                if d > 0.5 * tol:
                    raise Skip("segment near")
                l = dist(a, b)
                if min(t, 1 - t) * l < min_sep * tol:
                    raise Skip("segment end near")
                hits.append((s, t, (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))))
        if len(hits) > 1:
            raise Skip("two segments near")
        if hits:
            return ("seg",) + hits[0]
        return ("free",)

    def predict_line(self, st, a, b, own=()):
        """Points of the subdivision along a-b: list of (t, kind, id).  `own`
        are ids of points at the ends.  Raises Skip on unclear cases."""
        tol = self.tol
        l = dist(a, b)
        if l < 8 * tol:
            raise Skip("short line")
        marks = []
        for i, q in st.points.items():
            if i in own:
                continue
            d, t = seg_dist(q, a, b)
            if d < 4 * tol:
                if d > 0.3 * tol:
                    raise Skip("vertex near line")
                if min(t, 1 - t) * l < 4 * tol:
                    raise Skip("vertex near end")
                marks.append((t, "pt", i))
        on = {m[2] for m in marks} | set(own)
        for s in st.segments:
            c, d = st.xy(s)
            sa, sb = st.segments[s]
            if sa in on and sb in on:
                # both end points on the line: the segment is part of it
                continue
            # end points of the new line close to the segment?
            for e in (a, b):
                de, te = seg_dist(e, c, d)
                if de < 4 * tol and not (dist(e, c) < 0.5 * tol or dist(e, d) < 0.5 * tol):
                    if de > 0.3 * tol:
                        raise Skip("end near segment")
            if sa in on or sb in on:
                continue
            it = intersect(a, b, c, d)
            if it is None:
                continue
            t, u = it
            lt, lu = l, dist(c, d)
            if -8 * tol / lt < t < 1 + 8 * tol / lt and -8 * tol / lu < u < 1 + 8 * tol / lu:
                if min(t, 1 - t) * lt < 4 * tol:
                    # the end was snapped onto this segment (it becomes a vertex)
                    continue
                if min(u, 1 - u) * lu < 4 * tol:
                    raise Skip("intersection near a vertex")
                marks.append((t, "seg", s))
        marks.sort()
        for m, n in zip(marks, marks[1:]):
            if (n[0] - m[0]) * l < 4 * tol:
                raise Skip("close marks")
        return marks

    # -- operations ----------------------------------------------------------
    def state(self):
        return State(self.pd)

    def point_ids(self):
        return sorted(self.pd.points.keys())

    def seg_ids(self):
        return sorted(self.pd.segments.keys())

    def pick(self, ids, k):
        if not ids:
            raise Skip("nothing to pick")
        return ids[k % len(ids)]

    # -- the oracle ------------------------------------------------------------
    def check_valid(self, what, samples=()):
        """Compare the decomposition with the reference built from scratch."""
        return check_valid(self.ctx, self.pd, what, samples)


def observe(ctx, what, fn, *a):
    """Reading the state must not fail either."""
    return ctx.call("observe:" + what, fn, *a)


def check_valid(ctx, pd, what, samples=()):
    return observe(ctx, what, _check_valid, ctx, pd, what, samples)


def reference(ctx, pd, what):
    st = State(pd)
    try:
        return st, planar.Planar(st.points, st.segments)
    except planar.NotPlanar as e:
        raise Violation("not-planar", "after %s: %s" % (what, e))


def _check_valid(ctx, pd, what, samples):
    for kind, m in (("point", pd.points), ("segment", pd.segments), ("polygon", pd.polygons)):
        for i, o in m.items():
            ctx.expect(o.id == i, "id", lambda: "after %s: %s registered as %r has id %r" % (what, kind, i, o.id))
    for i, s in pd.segments.items():
        for v in s.vtxs:
            ctx.expect(v.id in pd.points and pd.points[v.id] is v, "dangling-vertex",
                       lambda: "after %s: segment %d ends in a point that is not in the decomposition" % (what, i))
    st, ref = reference(ctx, pd, what)
    # 1. the polygon of every segment side
    poly_face = {}
    outer = pd.outer_polygon
    ctx.expect(pd.polygons.get(outer.id) is outer, "outer-polygon", lambda: "after %s: the outer polygon is not registered" % what)
    poly_face[outer.id] = None
    face_poly = {None: outer.id}
    for sid, seg in sorted(pd.segments.items()):
        for side, poly in enumerate(seg.polygons()):
            f = ref.face_of[(sid, side)]
            pid = poly.id
            ctx.expect(pd.polygons.get(pid) is poly, "stale-polygon",
                       lambda: "after %s: segment %d side %d refers to polygon %r that is not in the decomposition" % (what, sid, side, pid))
            if f in face_poly:
                ctx.expect(face_poly[f] == pid, "wrong-side-polygon",
                           lambda: "after %s: segment %d side %d is in polygon %d, the face there is polygon %d" % (what, sid, side, pid, face_poly[f]))
            else:
                ctx.expect(pid not in poly_face, "merged-faces",
                           lambda: "after %s: polygon %d is reported for two different faces (segment %d side %d)" % (what, pid, sid, side))
                face_poly[f] = pid
                poly_face[pid] = f
    # 2. exactly one polygon per face
    ctx.expect(set(pd.polygons.keys()) == set(poly_face.keys()), "polygon-count",
               lambda: "after %s: polygons %r, the plane has faces %r" % (what, sorted(pd.polygons), sorted(poly_face)))
    # 3. boundaries, holes, orientation
    for pid, poly in sorted(pd.polygons.items()):
        f = poly_face[pid]
        ctx.expect(poly.is_outer_polygon() == (f is None), "outer-flag", lambda: "after %s: polygon %d outer flag" % (what, pid))
        walk = _walk(ctx, poly.outer_wire, what, ref)
        want = () if f is None else ref.canon_walk(f)
        ctx.expect(walk == want, "boundary", lambda: "after %s: polygon %d boundary %r, expected %r" % (what, pid, walk, want))
        vt = [int(v.id) for v in poly.vertices()]
        if f is not None:
            wv = [ref.target(h) for h in ref.walks[f]]
            ok = len(vt) == len(wv) and any(vt == wv[i:] + wv[:i] for i in range(len(wv)))
            ctx.expect(ok, "vertices", lambda: "after %s: polygon %d vertices %r, expected ccw %r" % (what, pid, vt, wv))
        else:
            ctx.expect(vt == [], "vertices", lambda: "after %s: outer polygon has vertices %r" % (what, vt))
        holes = sorted(_walk(ctx, w, what, ref) for w in poly.outer_wire.childs if w.polygon is poly)
        want = sorted(ref.canon_walk(w) for w in ref.face_holes[f])
        ctx.expect(holes == want, "holes", lambda: "after %s: polygon %d holes %r, expected %r" % (what, pid, holes, want))
    # 4. free points
    incident = {}
    for s, (a, b) in st.segments.items():
        incident.setdefault(a, set()).add(s)
        incident.setdefault(b, set()).add(s)
    free_of = {}
    for pid, poly in pd.polygons.items():
        for pt in poly.free_points:
            ctx.expect(pd.points.get(pt.id) is pt, "stale-free-point",
                       lambda: "after %s: polygon %d lists free point %r not in the decomposition" % (what, pid, pt.id))
            ctx.expect(pt.id not in free_of, "free-point-twice", lambda: "after %s: free point %d listed twice" % (what, pt.id))
            free_of[pt.id] = pid
    for i, pt in sorted(pd.points.items()):
        if i in incident:
            ctx.expect(not pt.is_free() and i not in free_of, "not-free", lambda: "after %s: point %d has segments and is listed as free" % (what, i))
            got = [(int(s.id), int(v)) for s, v in pt.segments()]
            want = [(h[0], 0 if h[1] == 1 else 1) for h in reversed(ref.ccw[i])]
            ok = len(got) == len(want) and any(got == want[k:] + want[:k] for k in range(len(want)))
            ctx.expect(ok, "point-segments", lambda: "after %s: segments around point %d are %r, expected clockwise %r" % (what, i, got, want))
        else:
            ctx.expect(pt.is_free(), "free", lambda: "after %s: isolated point %d is not free" % (what, i))
            want = face_poly[ref.locate(ref.pts[i])]
            ctx.expect(free_of.get(i) == want and pt.poly is pd.polygons[want], "free-point-polygon",
                       lambda: "after %s: free point %d at %r is kept in polygon %r, it lies in %r" % (what, i, st.points[i], free_of.get(i), want))
    # 5. nesting query and own consistency check
    for pid in sorted(pd.polygons):
        got = set(pd.get_childs(pid))
        want = {face_poly[f] for f in ref.descendants(poly_face[pid])}
        ctx.expect(got == want, "childs", lambda: "after %s: get_childs(%d)=%r, expected %r" % (what, pid, sorted(got), sorted(want)))
    anc = {pid: 0 for pid in pd.polygons}
    for pid in pd.polygons:
        for f in ref.descendants(poly_face[pid]):
            if face_poly[f] != pid:
                anc[face_poly[f]] += 1
    for pid, poly in sorted(pd.polygons.items()):
        # two boundaries per level, that of the enclosing polygon and that of its hole
        ctx.expect(poly.depth() == 2 * anc[pid], "depth",
                   lambda: "after %s: polygon %d has depth %r, it lies in %d polygons (two levels for each)" % (what, pid, poly.depth(), anc[pid]))
    # 6. point location
    for (x, y) in samples:
        f = ref.locate_xy(x, y)
        for pid, poly in sorted(pd.polygons.items()):
            got = bool(poly.contains_point([x, y]))
            ctx.expect(got == (poly_face[pid] == f), "contains-point",
                       lambda: "after %s: polygon %d contains_point(%r)=%r, the point lies in polygon %d" % (what, pid, (x, y), got, face_poly[f]))
    pd.decomp.check_consistency()
    return st, ref, face_poly


def _walk(ctx, wire, what, ref):
    out = []
    n = 2 * len(ref.segs) + 2
    for seg, side in wire.segments():
        out.append((int(seg.id), int(side)))
        if len(out) > n:
            ctx.fail("endless-boundary", "after %s: a boundary walk never closes" % what)
    return planar.canon(out)


def snapshot(pd, attrs=True):
    """Observable state as a comparable value (ids, geometry, topology, attributes)."""
    pts = {int(i): (float(p.xy[0]), float(p.xy[1]), bool(p.is_free()),
                    int(p.poly.id) if p.is_free() and p.poly is not None else None,
                    repr(p.attr) if attrs else None) for i, p in pd.points.items()}
    segs = {int(i): (int(s.vtxs[0].id), int(s.vtxs[1].id), tuple(int(q.id) for q in s.polygons()),
                     repr(s.attr) if attrs else None) for i, s in pd.segments.items()}
    polys = {}
    lim = 2 * len(segs) + 2
    for i, p in pd.polygons.items():
        polys[int(i)] = (_w(p.outer_wire, lim),
                         tuple(sorted(_w(w, lim) for w in p.outer_wire.childs if w.polygon is p)),
                         tuple(sorted(int(q.id) for q in p.free_points)),
                         repr(p.attr) if attrs else None)
    return {"points": pts, "segments": segs, "polygons": polys}


def _w(wire, lim):
    out = []
    for s, d in wire.segments():
        out.append((int(s.id), int(d)))
        if len(out) > lim:
            raise Violation("endless-boundary", "a boundary walk never closes")
    return planar.canon(out)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            ks = set(a[k]) | set(b[k])
            for i in sorted(ks):
                if a[k].get(i) != b[k].get(i):
                    return "%s %d: %r -> %r" % (k[:-1], i, a[k].get(i), b[k].get(i))
    return "equal"


def cover(ctx, st0, st1, line, tol, what, removed=()):
    """Every segment of st0 (and the line) is covered by segments of st1 and
    nothing else was added."""
    lines = {}
    for s in st0.segments:
        if s not in removed:
            lines[s] = st0.xy(s)
    if line is not None:
        lines["line"] = line
    left = {k: dist(*v) for k, v in lines.items()}
    slack = {k: 4 * tol for k in lines}
    for s in st1.segments:
        a, b = st1.xy(s)
        mids = [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for t in (0.25, 0.5, 0.75)]
        hit = [k for k, (c, d) in lines.items() if all(seg_dist(m, c, d)[0] < 0.6 * tol for m in mids)]
        for k in hit:
            left[k] -= dist(a, b)
            if len(hit) > 1:      # short and close to several lines, or a line drawn over another
                slack[k] += dist(a, b)
        ctx.expect(bool(hit), "unasked-segment", lambda: "after %s: segment %d %r lies on nothing that was drawn" % (what, s, (a, b)))
    for k, v in left.items():
        ctx.expect(-slack[k] < v < 4 * tol, "not-covered", lambda: "after %s: %s %r is not covered by the segments (length left %g)" % (what, k, lines[k], v))


# ---------------------------------------------------------------------------
# operations: generation and execution
# ---------------------------------------------------------------------------
def gen_config(rng):
    sc = rng.choice(SCALES)
    off = rng.choice(OFFSETS)
    return {"scale": sc, "off": [off[0] * (1 if sc < 10 else sc), off[1] * (1 if sc < 10 else sc)],
            "grid": rng.choice([3, 4, 6, 10, 12])}


def ring(rng, g):
    """Lines of a closed ring inside the grid."""
    kind = rng.randrange(4)
    r = rng.randrange(1, max(2, g // 2))
    cx, cy = rng.randrange(r, g - r + 1) if g > 2 * r else g // 2, rng.randrange(r, g - r + 1) if g > 2 * r else g // 2
    if kind == 0:
        c = [(cx - r, cy - r), (cx + r, cy - r), (cx + r, cy + r), (cx - r, cy + r)]
    elif kind == 1:
        c = [(cx - r, cy), (cx, cy - r), (cx + r, cy), (cx, cy + r)]
    elif kind == 2:
        c = [(cx - r, cy - r), (cx + r, cy - r), (cx, cy + r)]
    else:   # C shape
        c = [(cx - r, cy - r), (cx + r, cy - r), (cx + r, cy + r), (cx - r, cy + r), (cx, cy)]
    if rng.random() < 0.5:
        c.reverse()
    k = rng.randrange(len(c))
    c = c[k:] + c[:k]
    lines = [["line"] + list(c[i]) + list(c[(i + 1) % len(c)]) for i in range(len(c))]
    if rng.random() < 0.3:
        rng.shuffle(lines)
    for l in lines:
        if rng.random() < 0.3:
            l[1:] = l[3:5] + l[1:3]
    return lines


def gen_edit(rng, g, mix):
    """One editing operation (or a few)."""
    r = rng.random()
    acc = 0.0
    for name, p in mix:
        acc += p
        if r < acc:
            break
    q = lambda: rng.randrange(0, g + 1)
    if name == "ring":
        return ring(rng, g)
    if name == "island":
        # a ring, something inside, a bridge between them, the bridge cut again
        ops = ring(rng, g)
        x0, y0, x1, y1 = ops[0][1:5]
        for _ in range(rng.randrange(1, 4)):
            a, b = q(), q()
            ops.append(["line", a, b, min(g, a + rng.randrange(0, 2)), min(g, b + 1)])
        ops.append(["line", x0, y0, a, b])
        ops.append(["dlast", rng.randrange(0, 3)])
        return ops
    if name == "nest":
        # rings inside rings, some disturbed
        ops = []
        c = g // 2
        for r in rng.sample(range(1, max(2, c + 1)), min(rng.randrange(2, 4), max(1, c))):
            k = [(c - r, c - r), (c + r, c - r), (c + r, c + r), (c - r, c + r)]
            ls = [["line"] + list(k[i]) + list(k[(i + 1) % 4]) for i in range(4)]
            if rng.random() < 0.3:
                rng.shuffle(ls)
            ops += ls
        if rng.random() < 0.5:
            ops += ring(rng, g)[:4]
        ops.append(["lineps", q(), q(), rng.randrange(50), rng.randrange(1, 7)] if rng.random() < 0.4 else ["pt", q(), q()])
        return ops
    if name == "dlast":
        return [["dlast", rng.randrange(0, 6)]]
    if name == "line":
        return [["line", q(), q(), q(), q()]]
    if name == "pt":
        return [["pt", q(), q()]]
    if name == "onpt":
        return [["onpt", rng.randrange(50), rng.randrange(-3, 4), rng.randrange(-3, 4)]]
    if name == "onseg":
        return [["onseg", rng.randrange(50), rng.randrange(1, 7), rng.randrange(-4, 5)]]
    if name == "linepp":
        return [[rng.choice(["linepp", "linepp", "linefp"]), rng.randrange(50), rng.randrange(50)]]
    if name == "lineps":
        return [["lineps", q(), q(), rng.randrange(50), rng.randrange(1, 7)]]
    if name == "seg":
        return [["seg", rng.randrange(50), rng.randrange(50)]]
    if name == "dseg":
        return [["dseg", rng.randrange(50)]]
    if name == "dpt":
        return [["dpt", rng.randrange(50)]]
    raise HarnessError(name)


MIXES = [
    [("ring", .12), ("line", .25), ("pt", .12), ("onpt", .03), ("onseg", .08), ("linepp", .08), ("lineps", .05), ("seg", .12), ("dseg", .11), ("dpt", .04)],
    [("ring", .30), ("line", .10), ("pt", .10), ("onseg", .05), ("linepp", .10), ("seg", .10), ("dseg", .20), ("dpt", .05)],
    [("ring", .05), ("line", .10), ("pt", .30), ("onseg", .05), ("seg", .35), ("dseg", .12), ("dpt", .03)],
    [("ring", .10), ("line", .15), ("pt", .10), ("linepp", .15), ("lineps", .10), ("dseg", .30), ("dpt", .10)],
    [("nest", .15), ("ring", .10), ("pt", .10), ("seg", .15), ("linepp", .15), ("dlast", .10), ("dseg", .20), ("dpt", .05)],
    [("ring", .12), ("seg", .40), ("pt", .10), ("dlast", .15), ("dseg", .15), ("linepp", .08)],
    [("ring", .15), ("island", .15), ("line", .10), ("pt", .10), ("linepp", .10), ("seg", .10), ("dlast", .15), ("dseg", .10), ("onseg", .05)],
]


def gen_edits(rng, conf, n):
    mix = rng.choice(MIXES)
    ops = []
    while len(ops) < n:
        ops += gen_edit(rng, conf["grid"], mix)
    return ops


def gen_wedge(rng, conf, more=True):
    """Two nearly parallel lines and lines across them: the crossings come
    closer to each other than the tolerance and are merged.  Coordinates are in
    twentieths of the tolerance."""
    if max(abs(v) for v in conf["off"]) > 1000 * conf["scale"]:
        conf["off"] = [0.0, 0.0]      # rounding of the crossings must not matter at small angles
    L = 20000
    h = rng.choice([-1, 1]) * rng.randrange(24, 121)
    kind = rng.randrange(5 if more else 4)
    corner = rng.random() < 0.3
    strip = not corner and rng.random() < 0.25
    if corner:      # two or three lines meet at an ordinary angle
        kind = 1
        a = rng.uniform(0.1, 1.2)
        angles = [a]
        l = rng.choice([30, 50, 60, 120, 250, 400])
        lines = [[0, 0, l, 0], [0, 0, int(L // 50 * math.cos(a)), int(L // 50 * math.sin(a))]]
        if rng.random() < 0.3:
            a += rng.uniform(0.3, 1.5)
            angles.append(a)
            lines.append([0, 0, int(L // 50 * math.cos(a)), int(L // 50 * math.sin(a))])
        rng.shuffle(lines)
    elif strip:     # two lines along each other, a little more than the tolerance apart
        kind = 1
        L = rng.choice([400, 2000, 20000])
        h, k = rng.randrange(22, 39), rng.randrange(22, 39)
        x = rng.choice([0, 0, rng.randrange(-L // 2, L // 2)])
        lines = [[0, 0, L, 0], [x, h, x + L, rng.choice([h, h, h + 1, k])]]
    elif kind == 4:      # more of them
        lines = [[0, 0, L, 0]]
        y = 0
        for _ in range(rng.randrange(2, 4)):
            y += rng.randrange(24, 121)
            lines.append([0, 0, L, y])
    elif kind == 3:      # a narrow X
        lines = [[0, -h, L, h], [0, h, L, -h]]
    else:
        lines = [[0, 0, L, 0], [0, 0, L, h]]
        if kind == 2:
            lines.append([L, 0, L, h])
    lines = [l if rng.random() < 0.5 else l[2:] + l[:2] for l in lines]
    if not corner:
        for _ in range(rng.randrange(1, 5)):
            x, d = rng.randrange(-1000, L + 1000), rng.choice([-1, 1])
            lines.append([x, -2000 * d, x + rng.choice([0, rng.randrange(-6000, 6000)]), 2000 * d])
    # points dropped between the lines
    n = len(lines)
    if corner or rng.random() < 0.5:
        for _ in range(rng.randrange(1, 4)):
            if corner:
                r, t = rng.uniform(15, 70), rng.uniform(-0.3, 1.5)
                x, y = int(r * math.cos(t)), int(r * math.sin(t))
            else:
                x, y = rng.randrange(0, L), rng.randrange(-25, 26)
                if strip:
                    y = rng.randrange(0, h + 1)
                elif kind != 3:
                    y += int(rng.choice([0, 0.5, 1]) * h * x / L)
            lines.insert(rng.randrange(2, len(lines) + 1), [x, y, x, y])
            if rng.random() < 0.4:      # and a line through it
                t, r = rng.choice([-1, 1]) * (rng.uniform(0.9, 2.3) if not corner else max(angles) + rng.uniform(0.3, 2.9 - max(angles))), rng.choice([500, 2000])
                dx, dy = int(r * math.cos(t)), int(r * math.sin(t))
                lines.append([x - dx, y - dy, x + dx + rng.randrange(-5, 6), y + dy + rng.randrange(-5, 6)])
    if rng.random() < 0.4:
        # turned by an odd angle
        a, b = rng.choice([(1, 1), (1, 2), (-2, 1), (0, 1), (3, -1), (-1, 0)])
        lines = [[a * p - b * q for p, q in ((l[0], l[1]), (l[2], l[3]))] + [b * l[0] + a * l[1], b * l[2] + a * l[3]] for l in lines]
        lines = [[l[0], l[2], l[1], l[3]] for l in lines]
    return [["raw"] + l if l[:2] != l[2:] else ["rawp"] + l[:2] for l in lines]


def check_raw_point(w, rec):
    """A point near any number of lines becomes one of the points or splits one
    of the segments near it, otherwise it is new at its place."""
    ctx, tol = w.ctx, w.tol
    st0, st1, ret, p = rec["before"], w.state(), rec["ret"], rec["xy"]
    E = ctx.expect
    for i, xy in st0.points.items():
        E(st1.points.get(i) == xy, "point-changed", lambda: "after add_point%r: point %d moved from %r to %r" % (p, i, xy, st1.points.get(i)))
    E(w.pd.points.get(ret.id) is ret, "returned-point", "add_point returned a point that is not in the decomposition")
    at = st1.points[ret.id]
    new = [i for i in st1.points if i not in st0.points]
    E(new in ([], [ret.id]), "raw-point-new", lambda: "add_point%r returned point %d, new are %r" % (p, ret.id, new))
    near = {i: dist(p, q) for i, q in st0.points.items() if dist(p, q) < 1.02 * tol}
    segs = {s: seg_dist(p, *st0.xy(s))[0] for s in st0.segments}
    segs = {s: d for s, d in segs.items() if d < 1.02 * tol}
    if any(d < 0.98 * tol for d in near.values()):
        E(not new and ret.id in near and st1.segments == st0.segments, "raw-point-snap",
          lambda: "add_point%r returned point %d, near is %r" % (p, ret.id, near))
        return
    if near or any(d > 0.98 * tol for d in segs.values()):
        return      # a matter of rounding
    cover(ctx, st0, st1, None, tol, "add_point")
    if not segs:
        E(new == [ret.id] and st1.segments == st0.segments and dist(at, p) < 1e-9 * w.scale, "raw-point-free",
          lambda: "add_point%r away from everything returned point %d at %r" % (p, ret.id, at))
        return
    if len(segs) > 1:
        ctx.probe("point-near-two-segments")
    split = [s for s in segs if seg_dist(at, *st0.xy(s))[0] < 1e-3 * tol and (new or ret.id in st0.segments[s])]
    E(bool(split), "raw-point-split", lambda: "add_point%r returned point %d at %r, on none of the segments %r within the tolerance" % (p, ret.id, at, sorted(segs)))
    E(len(st1.segments) == len(st0.segments) + len(new), "raw-point-split", lambda: "add_point%r: %d segments became %d" % (p, len(st0.segments), len(st1.segments)))
    for s in split if new else []:
        E(min(dist(at, e) for e in st0.xy(s)) > 0.98 * tol, "raw-point-close", lambda: "add_point%r: the new point %r is closer than the tolerance to an end of the segment %d" % (p, at, s))
    if len(segs) == 1:
        E(dist(at, p) < 1.02 * tol or not new, "raw-point-place", lambda: "add_point%r next to a single segment was placed at %r" % (p, at))
    if len(segs) == 2:
        # the place on the closest segment, if it is far enough from the other
        # one, otherwise the one nearest to it that is
        best, feet = [], []
        for s, d in segs.items():
            if d > min(segs.values()) + 0.05 * tol:
                continue
            (o,) = [x for x in segs if x != s]
            (a, b), (c, e) = st0.xy(s), st0.xy(o)
            l, m = dist(a, b), dist(c, e)
            t = max(0.0, min(1.0, ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / l / l))
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            g = seg_dist(q, c, e)[0]
            if g > 0.98 * tol:
                feet.append(q)
            if g > 1.02 * tol:
                continue
            n = (-(e[1] - c[1]) / m, (e[0] - c[0]) / m)
            u = ((b[0] - a[0]) * n[0] + (b[1] - a[1]) * n[1])
            best.append([])
            for g in (-tol, tol):
                if abs(u) < 1e-9 * l:
                    continue
                t = (g - (a[0] - c[0]) * n[0] - (a[1] - c[1]) * n[1]) / u
                q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
                if 1.1 * tol < t * l < l - 1.1 * tol and 0.99 * tol < seg_dist(q, c, e)[0] < 1.01 * tol:
                    best[-1].append(dist(q, p))
        if all(best):
            best = max([max(l) for l in best] + [0.0])
            ctx.probe("point-between-two-segments")
            # an end of the segment can be in the way
            E(bool(new) and dist(at, p) < best + 0.1 * tol or any(dist(at, q) < 1.02 * tol for q in feet), "raw-point-between",
              lambda: "add_point%r between the segments %r became point %d at %r, %g tolerances off, %g are enough" % (
                  p, sorted(segs), ret.id, at, dist(at, p) / tol, best / tol))
    if len(segs) == 2 and new:
        other = [s for s in segs if s not in split]
        E(len(split) == 1 and seg_dist(at, *st0.xy(other[0]))[0] > 0.98 * tol, "raw-point-between",
          lambda: "add_point%r between the segments %r was placed at %r, closer than the tolerance to both" % (p, sorted(segs), at))


def check_path(w, rec):
    """The segments returned for a line lead from one end to the other, the
    line and everything drawn before is still there (close crossings may have
    been merged, so a little off)."""
    ctx, tol = w.ctx, w.tol
    st0, st1, ret = rec["before"], w.state(), rec["ret"]
    a, b = rec["ends"]
    E = ctx.expect
    if not isinstance(ret, list):
        E(dist(a, b) < 3 * tol, "line-result", lambda: "add_line of %r-%r returned %r" % (a, b, ret))
        return
    if len(st0.segments) == 2:
        # two lines and one across them: nothing is in the way of a merge
        ids = sorted(i for i in st1.points if i not in st0.points)
        for k, i in enumerate(ids):
            for j in ids[k + 1:]:
                E(dist(st1.points[i], st1.points[j]) > 0.999 * tol, "close-crossings",
                  lambda: "after add_line %r-%r the points %d %r and %d %r are closer than the tolerance %g" % (a, b, i, st1.points[i], j, st1.points[j], tol))
    # an end between two segments finds its place further away
    slides = [sum(seg_dist(p, *st0.xy(s))[0] < 1.02 * tol for s in st0.segments) > 1 for p in (a, b)]
    ends = [a]      # where the path may be, short segments can be walked both ways
    if slides[0] and ret:
        ends += st1.xy(ret[0].id) if ret[0].id in st1.segments else ()
    for s in ret:
        E(w.pd.segments.get(s.id) is s, "line-result", "add_line returned a segment that is not in the decomposition")
        p, q = st1.xy(s.id)
        ends = [y for x, y in ((p, q), (q, p)) if any(dist(x, c) < 2.2 * tol for c in ends)]
        E(bool(ends), "line-path", "the segments returned by add_line do not form a path from a to b")
    E(slides[1] or any(dist(c, b) < 2.2 * tol for c in ends), "line-path", lambda: "the path returned by add_line ends at %r instead of %r" % (ends, b))
    for name, (c, d) in [("line", (a, b))] + [("segment %d" % s, st0.xy(s)) for s in st0.segments]:
        for t in (0.0, 0.1, 0.27, 0.5, 0.63, 0.9, 1.0):
            m = (c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1]))
            near = min(seg_dist(m, *st1.xy(s))[0] for s in st1.segments)
            E(near < 4 * tol, "line-lost", lambda: "after add_line nothing is left of the %s %r near %r" % (name, (c, d), m))


class Editor(World):
    """Applies edits; returns a record of what was asked and what came back."""

    def apply(self, op):
        """Execute one edit.  Returns a record or raises Skip (no effect)."""
        before = set(self.pd.segments)
        rec = getattr(self, "op_" + op[0])(op)
        for s in sorted(self.pd.segments):
            if s not in before:
                if s in self.recent:
                    self.recent.remove(s)
                self.recent.append(s)
        return rec

    def legal_point(self, st, p):
        return self.predict_point(st, p)

    def op_pt(self, op):
        return self.add_point(self.coord(op[1], op[2]))

    def op_onpt(self, op):
        st = self.state()
        i = self.pick(sorted(st.points), op[1])
        x, y = st.points[i]
        return self.add_point((x + 0.1 * op[2] * self.tol, y + 0.1 * op[3] * self.tol))

    def on_segment(self, st, k, t, off=0):
        s = self.pick(sorted(st.segments), k)
        a, b = st.xy(s)
        l = dist(a, b)
        n = (-(b[1] - a[1]) / l, (b[0] - a[0]) / l)
        u = t / 7.0
        return (a[0] + u * (b[0] - a[0]) + 0.1 * off * self.tol * n[0], a[1] + u * (b[1] - a[1]) + 0.1 * off * self.tol * n[1])

    def op_onseg(self, op):
        st = self.state()
        return self.add_point(self.on_segment(st, op[1], op[2], op[3]))

    def add_point(self, p):
        st = self.state()
        pred = self.predict_point(st, p)
        ret = self.ctx.call("add_point", self.pd.add_point, list(p))
        return {"kind": "add_point", "before": st, "xy": p, "pred": pred, "ret": ret}

    def op_line(self, op):
        return self.add_line(self.coord(op[1], op[2]), self.coord(op[3], op[4]))

    def op_raw(self, op):
        """A line given in twentieths of the tolerance, no care taken."""
        st = self.state()
        u = 0.05 * self.tol
        a = (self.off[0] + op[1] * u, self.off[1] + op[2] * u)
        b = (self.off[0] + op[3] * u, self.off[1] + op[4] * u)
        if dist(a, b) < 1.05 * self.tol:
            raise Skip("short")
        ret = self.ctx.call("add_line", self.pd.add_line, list(a), list(b))
        if isinstance(ret, list) and len(self.pd.points) < len(st.points) + 2 + len(ret) - 1:
            self.ctx.probe("fewer-points")
        return {"kind": "add_raw_line", "before": st, "ends": (a, b), "ret": ret}

    def op_rawp(self, op):
        st = self.state()
        u = 0.05 * self.tol
        p = (self.off[0] + op[1] * u, self.off[1] + op[2] * u)
        ret = self.ctx.call("add_point", self.pd.add_point, list(p))
        return {"kind": "add_raw_point", "before": st, "xy": p, "ret": ret}

    def op_linepp(self, op):
        st = self.state()
        ids = sorted(st.points)
        return self.add_line(st.points[self.pick(ids, op[1])], st.points[self.pick(ids, op[2])])

    def op_linefp(self, op):
        """A line between two existing points, given as points."""
        st = self.state()
        ids = sorted(st.points)
        i, j = self.pick(ids, op[1]), self.pick(ids, op[2])
        if i == j:
            raise Skip("same point")
        a, b = st.points[i], st.points[j]
        if dist(a, b) < 8 * self.tol:
            raise Skip("short")
        for k in (a, b):
            self.predict_point(st, k)
        marks = self.predict_line(st, a, b, (i, j))
        ret = self.ctx.call("add_line_for_points", self.pd.add_line_for_points, self.pd.points[i], self.pd.points[j])
        return {"kind": "add_line", "before": st, "ends": [a, b], "pred": (("pt", i), ("pt", j)), "marks": marks, "ret": ret}

    def op_lineps(self, op):
        st = self.state()
        return self.add_line(self.coord(op[1], op[2]), self.on_segment(st, op[3], op[4]))

    def add_line(self, a, b):
        st = self.state()
        if a == b:
            # no line, just the point
            pred = self.predict_point(st, a)
            ret = self.ctx.call("add_line", self.pd.add_line, list(a), list(b))
            self.ctx.expect(isinstance(ret, self.mod.decomp.Point), "dot-result", lambda: "add_line from %r to the same place returned %r" % (a, ret))
            self.ctx.probe("dot")
            return {"kind": "add_point", "before": st, "xy": a, "pred": pred, "ret": ret}
        if dist(a, b) < 8 * self.tol:
            raise Skip("short")
        pa = self.predict_point(st, a)
        pb = self.predict_point(st, b, extra=[a] if pa[0] != "pt" else [])
        ends = []
        own = []
        for pr, q in ((pa, a), (pb, b)):
            if pr[0] == "pt":
                ends.append(st.points[pr[1]])
                own.append(pr[1])
            elif pr[0] == "seg":
                ends.append(pr[3])
            else:
                ends.append(q)
        if pa[0] == "seg" and pb[0] == "seg" and pa[1] == pb[1]:
            pass    # both ends on the same segment: the line repeats a part of it
        marks = self.predict_line(st, ends[0], ends[1], own)
        ret = self.ctx.call("add_line", self.pd.add_line, list(a), list(b))
        return {"kind": "add_line", "before": st, "ends": ends, "pred": (pa, pb), "marks": marks, "ret": ret}

    def op_seg(self, op):
        st = self.state()
        ids = sorted(st.points)
        i, j = self.pick(ids, op[1]), self.pick(ids, op[2])
        if i == j:
            raise Skip("same point")
        a, b = st.points[i], st.points[j]
        old = [s for s, v in st.segments.items() if set(v) == {i, j}]
        if not old:
            if self.predict_line(st, a, b, (i, j)):
                raise Skip("crosses something")
        ret = self.ctx.call("new_segment", self.pd.new_segment, self.pd.points[i], self.pd.points[j])
        return {"kind": "new_segment", "before": st, "ids": (i, j), "old": old, "ret": ret}

    def op_dlast(self, op):
        """Delete one of the most recently created segments."""
        st = self.state()
        live = [s for s in self.recent if s in st.segments]
        i = self.pick(live[::-1], op[1])
        return self.del_seg(st, i)

    def op_dseg(self, op):
        st = self.state()
        return self.del_seg(st, self.pick(sorted(st.segments), op[1]))

    def del_seg(self, st, i):
        self.ctx.call("delete_segment", self.pd.delete_segment, self.pd.segments[i])
        return {"kind": "delete_segment", "before": st, "id": i}

    def op_dpt(self, op):
        st = self.state()
        i = self.pick(sorted(st.points), op[1])
        self.ctx.call("delete_point", self.pd.delete_point, self.pd.points[i])
        return {"kind": "delete_point", "before": st, "id": i}


def check_effect(w, rec):
    """The edit did what was asked and nothing else (C02)."""
    return observe(w.ctx, rec["kind"], _check_effect, w, rec)


def _check_effect(w, rec):
    ctx, tol = w.ctx, w.tol
    st0, st1 = rec["before"], w.state()
    k = rec["kind"]
    if k == "add_raw_line":
        return check_path(w, rec)
    if k == "add_raw_point":
        return check_raw_point(w, rec)
    E = ctx.expect
    if k != "delete_point":
        for i, xy in st0.points.items():
            E(st1.points.get(i) == xy, "point-changed", lambda: "after %s: point %d moved from %r to %r" % (k, i, xy, st1.points.get(i)))
    new_pts = [i for i in st1.points if i not in st0.points]
    if k == "add_point":
        pred, p = rec["pred"], rec["xy"]
        ret = rec["ret"]
        E(ret.id in st1.points and w.pd.points[ret.id] is ret, "returned-point", "add_point returned a point that is not in the decomposition")
        if pred[0] == "pt":
            ctx.probe("snap-point")
            E(ret.id == pred[1], "snap-point", lambda: "add_point%r returned point %r, the point within tolerance is %r" % (p, ret.id, pred[1]))
            E(not new_pts and st1.segments == st0.segments, "snap-point-edit", lambda: "add_point%r snapped to point %d changed the decomposition" % (p, pred[1]))
        elif pred[0] == "seg":
            ctx.probe("snap-segment")
            E(new_pts == [ret.id], "snap-segment", lambda: "add_point%r next to segment %d added points %r and returned %r" % (p, pred[1], new_pts, ret.id))
            E(dist(st1.points[ret.id], pred[3]) < 0.6 * tol, "snap-segment-place", lambda: "point snapped to segment %d placed at %r, expected %r" % (pred[1], st1.points[ret.id], pred[3]))
            E(len(st1.segments) == len(st0.segments) + 1, "snap-segment-split", "the segment was not split in two")
            inc = [s for s, v in st1.segments.items() if ret.id in v]
            ends = sorted(v for s in inc for v in st1.segments[s] if v != ret.id)
            E(len(inc) == 2 and ends == sorted(st0.segments[pred[1]]), "snap-segment-split",
              lambda: "point on segment %d joins %r, expected the two halves" % (pred[1], ends))
            for s, v in st0.segments.items():
                if s != pred[1]:
                    E(st1.segments.get(s) == v, "other-segment", lambda: "add_point changed segment %d" % s)
        else:
            ctx.probe("free-point")
            E(new_pts == [ret.id] and st1.segments == st0.segments, "free-point-edit",
              lambda: "add_point%r away from everything added points %r and segments %r" % (p, new_pts, sorted(set(st1.segments) ^ set(st0.segments))))
            E(dist(st1.points[ret.id], p) <= 1e-9 * w.scale, "free-point-place", lambda: "point placed at %r instead of %r" % (st1.points[ret.id], p))
    elif k == "add_line":
        a, b = rec["ends"]
        ret = rec["ret"]
        E(isinstance(ret, list), "line-result", lambda: "add_line returned %r" % (ret,))
        want_new = sum(1 for pr in rec["pred"] if pr[0] != "pt") + sum(1 for m in rec["marks"] if m[1] == "seg")
        E(len(new_pts) == want_new, "line-points", lambda: "add_line %r-%r: %d new points, expected %d (ends and proper crossings)" % (a, b, len(new_pts), want_new))
        # the returned segments form the drawn path
        cur = a
        for s in ret:
            E(w.pd.segments.get(s.id) is s, "line-result", "add_line returned a segment that is not in the decomposition")
            p, q = st1.xy(s.id)
            if dist(p, cur) < 1.0 * tol:
                cur = q
            elif dist(q, cur) < 1.0 * tol:
                cur = p
            else:
                E(False, "line-path", "the segments returned by add_line do not form a path from a to b")
        E(dist(cur, b) < 1.0 * tol, "line-path", lambda: "the path returned by add_line ends at %r instead of %r" % (cur, b))
        marks = [m for m in rec["marks"] if m[1] == "pt"]
        if rec["marks"]:
            ctx.probe("line-crosses")
        if marks:
            ctx.probe("line-through-vertex")
        cover(ctx, st0, st1, (a, b), tol, k)
    elif k == "new_segment":
        ret = rec["ret"]
        if rec["old"]:
            ctx.probe("existing-segment")
            E(ret.id == rec["old"][0] and st1.segments == st0.segments, "existing-segment",
              lambda: "new_segment over existing segment %r returned %r" % (rec["old"], ret.id))
        else:
            E(set(st1.segments) - set(st0.segments) == {ret.id} and st1.segments[ret.id] == rec["ids"], "new-segment",
              lambda: "new_segment%r produced %r" % (rec["ids"], {s: v for s, v in st1.segments.items() if s not in st0.segments}))
            for s, v in st0.segments.items():
                E(st1.segments.get(s) == v, "other-segment", lambda: "new_segment changed segment %d" % s)
        E(not new_pts, "new-segment-points", "new_segment added points")
    elif k == "delete_segment":
        want = {s: v for s, v in st0.segments.items() if s != rec["id"]}
        E(st1.segments == want and not new_pts, "delete-segment", lambda: "delete_segment(%d) left %r, expected %r" % (rec["id"], st1.segments, want))
    elif k == "delete_point":
        want = {s: v for s, v in st0.segments.items() if rec["id"] not in v}
        wp = {i: v for i, v in st0.points.items() if i != rec["id"]}
        E(st1.segments == want and st1.points == wp, "delete-point", lambda: "delete_point(%d) left points %r segments %r" % (rec["id"], sorted(st1.points), st1.segments))
