"""C17: every BREP file is complete and self-consistent, whatever was written,
printed or failed before."""
import errno
import io

import numpy as np

from ..core import Scenario, Violation, generic_simplify
from ..simdisk import BadStream
from . import brep
from . import splines as sp

ORI = "+-ie"


class M:
    """A shape of the model: what the application asked for."""

    def __init__(self, kind, obj, childs, flags, **kw):
        self.kind, self.obj, self.childs, self.flags = kind, obj, childs, flags
        self.__dict__.update(kw)

    def walk(self):
        seen, todo = [], [self]
        ids = {id(self)}
        while todo:
            m = todo.pop()
            seen.append(m)
            for c, _, _ in m.childs:
                if id(c) not in ids:
                    ids.add(id(c))
                    todo.append(c)
        return seen


class C17(Scenario):
    ID = "C17"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 500000
    QUICK_WALL = 40
    RULE = ("histories of building shapes that share vertices, edges, curves, surfaces and locations (explicit and implicit geometry, "
            "splines of the spline package on edges, patches of spline surfaces, refused faces and refused geometry far from its vertices), printing them, appending to them and writing several overlapping models, to streams that fail at any character and "
            "are retried; every complete file is read by an independent strict reader and matched with the model one to one; non-trivial = at "
            "least two complete files of at least 5 shapes, or a failed write and a complete file")
    REAL = ["bgem.bspline.brep_writer", "numpy"]
    STUB = ["output stream that fails after a chosen number of characters"]
    ASSUME = ["faces without a surface have one wire of distinct vertices in chain order", "flags of wires are not edited by hand"]
    STATE_MEASURE = "distinct files written"

    # -- plans ---------------------------------------------------------------
    def gen(self, rng, tier):
        ops = []
        big = rng.random() < 0.04
        nv = 70 if big else rng.choice([4, 6, 9])
        num = lambda: rng.choice([0, 1, 2, -1, 0.5, 0.1, 1e-9, 12345.678, rng.uniform(-10, 10)])
        for _ in range(nv):
            ops.append(["V", [rng.randrange(-9, 9) + rng.choice([0, 0.5, 0.1]), rng.randrange(-9, 9), num()]])
        r20 = lambda: rng.randrange(70 if big else 20)
        for _ in range(110 if big else rng.choice([6, 12, 20, 35])):
            k = rng.choices(["V", "E", "loop", "loop", "sface", "wire", "shell", "solid", "cs", "comp", "comp", "append", "write", "write",
                             "print", "loc", "cloc", "attach", "free", "open", "bsedge", "patch", "vatt", "flags", "approx"],
                            [1, 3, 5, 5, 3, 2, 3, 2, 1, 4, 4, 4, 8, 8, 4, 2, 2, 1, 1, 1, 2, 1.5, 0.7, 0.7, 0.7])[0]
            if k == "V":
                ops.append([k, [num(), num(), num()]])
            elif k == "E":
                ops.append([k, r20(), r20(), rng.randrange(6), rng.choice([0, 0, r20()])])
            elif k == "loop":
                ops.append([k, [r20() for _ in range(rng.choice([3, 3, 4, 4, 5]))], rng.randrange(16)])
            elif k == "sface":
                ops.append([k, [[r20() for _ in range(rng.choice([2, 3, 4, 6]))] for _ in range(rng.choice([1, 1, 2]))], rng.randrange(4), rng.choice([0, 0, r20()])])
            elif k == "wire":
                ops.append([k, [r20() for _ in range(rng.choice([2, 3, 4]))]])
            elif k in ("shell", "solid", "cs"):
                ops.append([k, [[r20(), rng.randrange(2)] for _ in range(rng.choice([1, 2, 3]))]])
            elif k == "comp":
                ops.append([k, [[rng.randrange(200), rng.randrange(4), rng.choice([0, 0, 0, r20()])] for _ in range(rng.choice([1, 1, 2, 3]))]])
            elif k == "append":
                ops.append([k, r20(), [rng.randrange(200), rng.randrange(4), rng.choice([0, 0, 0, r20()])]])
            elif k == "write":
                ops.append([k, rng.choice([r20(), -1]), rng.choice([0, 0, 0, r20()]),
                            rng.choice([-1, -1, -1, rng.randrange(6000), rng.randrange(300), rng.randrange(60)]), rng.randrange(3)])
            elif k == "print":
                ops.append([k, rng.randrange(200)])
            elif k == "loc":
                ops.append([k, [[rng.choice([0, 1, -1, 0.5, 2.25, 2 / 3, 0.1234567890123]) for _ in range(4)] for _ in range(3)]])
            elif k == "cloc":
                ops.append([k, [[r20(), rng.choice([1, 1, 2, -1, 0])] for _ in range(rng.choice([1, 2, 3]))]])
            elif k == "attach":
                ops.append([k, r20(), rng.randrange(2)])
            elif k == "bsedge":
                ops.append([k, r20(), r20(), self.spline(rng), rng.choice([0, 0, 1, 2]), rng.choice([0, 0, r20()])])
            elif k == "patch":
                u, v = self.spline(rng), self.spline(rng)
                cor = rng.choice([[[0, 0], [1, 0], [1, 1], [0, 1]], [[0.25, 0.25], [0.75, 0.25], [0.5, 0.875]], [[0, 0], [1, 0.5], [0.5, 1]]])
                ops.append([k, u, v, rng.randrange(2), cor, rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, r20()]), rng.randrange(3)])
            elif k == "vatt":
                ops.append([k, r20(), rng.randrange(3), self.spline(rng), rng.randrange(2), rng.choice([0, r20()])])
            elif k == "free":
                ops.append([k, r20()])
            elif k == "approx":
                ops.append([k, [[num() for _ in range(3)] for _ in range(rng.choice([2, 3, 4]))], rng.randrange(3)])
            elif k == "flags":
                ops.append([k, rng.randrange(200), [rng.randrange(2) for _ in range(7)], rng.randrange(2)])
            elif k == "open":
                ops.append([k, [r20(), r20(), r20()]])
        ops.append(["write", -1, 0, -1, 0])
        return {"config": {"tols": rng.choice([[], [], [None, 0.25], [1e-7, None, 0.5, 2.0], [0.12345678, 1 / 3]])}, "ops": ops}

    @staticmethod
    def spline(rng):
        """Degree, knots, weights and bends of a spline."""
        deg = rng.choice([1, 2, 2, 3])
        inner = sorted(rng.sample([0.125, 0.25, 0.5, 0.625, 0.75], rng.choice([0, 0, 1, 2])))
        lo, hi = rng.choice([(0.0, 1.0), (0.0, 1.0), (-1.0, 3.0), (2.0, 2.5)])
        n = deg + 1 + len(inner)
        w = [rng.choice([1, 2, 0.5]) for _ in range(n)] if rng.random() < 0.4 else []
        return [deg, [lo, hi] + [lo + (hi - lo) * t for t in inner], w, [[rng.randrange(-3, 4) for _ in range(3)] for _ in range(n)]]

    def nontrivial(self, plan, ctx):
        n = ctx.probes.get("file", 0)
        return n >= 2 or (n >= 1 and ctx.faults.get("stream-error", 0) > 0)

    def simplify_op(self, op):
        if op[0] in ("loc", "V"):
            return []
        return generic_simplify(op)

    # -- execution -----------------------------------------------------------
    def execute(self, plan, ctx):
        from bgem.bspline import brep_writer as bw
        self.ctx, self.bw = ctx, bw
        self.locs = [(bw.Location(), None)]
        self.tols, self.nth = plan["config"].get("tols", []), 0
        self.by = {k: [] for k in ("Ve", "Ed", "Wi", "Fa", "Sh", "So", "Cs", "Co")}
        self.all = []
        self.implicit = []
        self.refs = {}
        self.surfaces = []
        for op in plan["ops"]:
            getattr(self, "op_" + op[0])(*op[1:])

    def new(self, *a, **kw):
        m = M(*a, **kw)
        self.by[m.kind].append(m)
        self.all.append(m)
        return m

    def tol(self):
        """Tolerance given to the next vertex, edge or face, if any."""
        self.nth += 1
        t = self.tols[self.nth % len(self.tols)] if self.tols else None
        return [] if t is None else [t]

    def pick(self, kind, i):
        l = self.by[kind]
        return l[i % len(l)] if l else None

    def loc(self, i):
        return self.locs[i % len(self.locs)]

    def op_V(self, p):
        t = self.tol()
        v = self.ctx.call("Vertex", self.bw.Vertex, [float(x) for x in p], *t)
        self.new("Ve", v, [], "0101101", point=tuple(float(x) for x in p), tol=(t or [1e-3])[0])

    def op_loc(self, m):
        self.locs.append((self.ctx.call("Location", self.bw.Location, m), ("m", tuple(tuple(float(x) for x in r) for r in m))))

    def op_cloc(self, items):
        pairs = [(self.loc(i), p) for i, p in items]
        o = self.ctx.call("ComposedLocation", self.bw.ComposedLocation, [(l[0], p) for l, p in pairs])
        # powers of the identity are the identity
        self.locs.append((o, ("c", tuple((l[1], p) for l, p in pairs if l[1] is not None))))

    def vref(self, v):
        """Applications keep one reference per vertex and use it all over."""
        return self.refs.setdefault(id(v), v.obj.p())

    def edge(self, a, b, mode=0, li=0):
        bw, ctx = self.bw, self.ctx
        ends = [self.vref(a), self.vref(b)] if mode & 1 else [a.obj, b.obj]
        t = self.tol()
        e = ctx.call("Edge", bw.Edge, ends, *t)
        m = self.new("Ed", e, [(a, "+", None), (b, "-", None)], "0101000", tol=(t or [1e-3])[0], eflags=(1, 1, 0), repr=[], late=False, by_faces=[])
        if mode in (2, 3):
            l = self.loc(li)
            c = bw.Approx.line_3d([a.point, b.point])
            ctx.call("attach 3d", e.attach_to_3d_curve, (0.0, 1.0), c, l[0])
            m.repr.append((1, c, None, l[1], 0.0, 1.0))
        if mode in (4, 5):
            s, uv = bw.Approx.bilinear([a.point, b.point, (0.0, 0.0, 9.0), (1.0, 2.0, 3.0)])
            c = bw.Curve2D([(0.0, 0.0), (0.25, 0.5), (1.0, 0.0)], [(0.0, 3), (2.0, 3)])
            ctx.call("attach 2d", e.attach_to_2d_curve, (0.0, 2.0), c, s)
            m.repr.append((2, c, s, None, 0.0, 2.0))
        return m

    def op_E(self, a, b, mode, li):
        a, b = self.pick("Ve", a), self.pick("Ve", b)
        if a is None or b is None or a is b:
            return
        self.edge(a, b, mode, li)

    def op_attach(self, i, kind):
        e = self.pick("Ed", i)
        if e is None:
            return
        a, b = e.childs[0][0], e.childs[1][0]
        c = self.bw.Approx.line_3d([a.point, b.point])
        self.ctx.call("attach 3d", e.obj.attach_to_3d_curve, (0.0, 1.0), c)
        e.late = e.late or not e.repr
        e.repr.append((1, c, None, None, 0.0, 1.0))

    def bs_curve(self, spec, ends, dim):
        """Spline between two points by the spline package: curve, ends of its domain."""
        from bgem.bspline import bspline as bs
        deg, kn, w, bend = spec
        B = sp.Basis(deg, kn[2:], kn[0], kn[1])
        n = B.size
        poles = [[ends[0][i] + (ends[1][i] - ends[0][i]) * k / (n - 1) + (bend[k][i] / 8 if 0 < k < n - 1 else 0) for i in range(dim)] for k in range(n)]
        poles[0], poles[-1] = list(ends[0][:dim]), list(ends[1][:dim])
        if w:
            poles = [p + [x] for p, x in zip(poles, w)]
        c = self.ctx.call("bs.Curve", bs.Curve, bs.SplineBasis(deg, B.knots), np.array(poles, dtype=float), bool(w))
        r = self.ctx.call("curve_from_bs", self.bw.curve_from_bs, c)
        E = self.ctx.expect
        E(type(r) is (self.bw.Curve2D if dim == 2 else self.bw.Curve3D) and np.array_equal(np.array(r.poles, dtype=float), np.array(poles, dtype=float)) and r.degree == deg
          and bool(r.rational) == bool(w) and [(float(t), int(m)) for t, m in r.knots] == [(kn[0], deg + 1)] + [(t, 1) for t in kn[2:]] + [(kn[1], deg + 1)],
          "conversion", lambda: "a spline is converted to %r %r" % (r.poles, r.knots))
        return r, (kn[0], kn[1])

    def far(self, p, k):
        q = list(p)
        q[k % len(q)] += 5 + 0.02 * max(abs(x) for x in q)
        return q

    def attach(self, far, what, fn, *a):
        """Geometry away from the vertices is refused."""
        if not far:
            self.ctx.call(what, fn, *a)
            return True
        _, e = self.ctx.attempt(fn, *a)
        self.ctx.expect(e is not None, "far-geometry", lambda: what + " of geometry far from the vertex was accepted")
        self.ctx.fault("refused-geometry")
        return False

    def op_bsedge(self, a, b, spec, far, li):
        a, b = self.pick("Ve", a), self.pick("Ve", b)
        if a is None or b is None or a is b:
            return
        m = self.edge(a, b)
        pts = [a.point, b.point]
        if far:
            pts[far - 1] = self.far(pts[far - 1], spec[0])
        c, t = self.bs_curve(spec, pts, 3)
        l = self.loc(li)
        if self.attach(far, "attach_to_3d_curve", m.obj.attach_to_3d_curve, t, c, l[0]):
            m.repr.append((1, c, None, l[1]) + t)
            self.ctx.probe("spline-edge")

    def bs_surface(self, su, sv, rat):
        from bgem.bspline import bspline as bs
        bu, bv = sp.Basis(su[0], su[1][2:], su[1][0], su[1][1]), sp.Basis(sv[0], sv[1][2:], sv[1][0], sv[1][1])
        P = np.array([[[3.0 * i + sv[3][j][0] / 8, 2.0 * j + su[3][i][1] / 8, su[3][i][2] * sv[3][j][2] / 4] + ([1.0 + (i + j) % 3] if rat else [])
                       for j in range(bv.size)] for i in range(bu.size)])
        s = self.ctx.call("bs.Surface", bs.Surface, (bs.SplineBasis(bu.deg, bu.knots), bs.SplineBasis(bv.deg, bv.knots)), P, bool(rat))
        r = self.ctx.call("surface_from_bs", self.bw.surface_from_bs, s)

        def at(u, v):
            u, v = bu.lo + (bu.hi - bu.lo) * u, bv.lo + (bv.hi - bv.lo) * v
            x = sp.surface(bu, bv, sp.weighted(P) if rat else P, u, v)
            return (u, v), tuple(float(t) for t in (sp.rational(x) if rat else x))
        packed = lambda b: [(b.lo, b.deg + 1)] + [(t, 1) for t in b.knots[b.deg + 1:-b.deg - 1]] + [(b.hi, b.deg + 1)]
        self.ctx.expect(np.array_equal(np.array(r.poles, dtype=float), P) and tuple(r.degree) == (bu.deg, bv.deg) and bool(r.rational) == bool(rat)
                        and [[(float(t), int(m)) for t, m in k] for k in r.knots] == [packed(bu), packed(bv)],
                        "conversion", lambda: "a spline surface is converted to %r %r" % (r.poles, r.knots))
        return r, at

    def op_patch(self, su, sv, rat, corners, far, li, how):
        """Part of a spline surface bounded by splines in its plane of parameters."""
        bw, ctx = self.bw, self.ctx
        s, at = self.bs_surface(su, sv, rat)
        uv, pts = zip(*[at(*c) for c in corners])
        vs = [self.new("Ve", ctx.call("Vertex", bw.Vertex, list(p)), [], "0101101", point=p, tol=1e-3) for p in pts]
        es = []
        n = len(vs)
        for k in range(n):
            m = self.edge(vs[k], vs[(k + 1) % n])
            es.append((m, "+"))
            ends = [uv[k], uv[(k + 1) % n]]
            if far and k == 0:
                # the middle of the parameters is not where the corner is
                mid, q = at(0.5, 0.375)
                p = pts[far - 1]
                if max(abs(x - y) for x, y in zip(q, p)) > 0.1 + 0.01 * max(abs(x) for x in p + q):
                    bad = list(ends)
                    bad[far - 1] = mid
                    c, t = self.bs_curve([1, [0.0, 1.0], [], [[0] * 3] * 2], bad, 2)
                    self.attach(1, "attach_to_2d_curve", m.obj.attach_to_2d_curve, t, c, s)
            if how == 2 and k == 1:
                ctx.call("attach_to_plane", m.obj.attach_to_plane, s, *ends)
                c = bw.Curve2D([ends[0], [(x + y) / 2 for x, y in zip(*ends)], ends[1]], [(0.0, 3), (1.0, 3)])
                m.repr.append((2, None, s, None, 0.0, 1.0, [tuple(ends[0]), tuple((x + y) / 2 for x, y in zip(*ends)), tuple(ends[1])]))
                continue
            deg = su[0]
            c, t = self.bs_curve([deg, [2.0, 7.0] if how else [0.0, 1.0], [], [[0] * 3] * (deg + 1)], ends, 2)
            ctx.call("attach_to_2d_curve", m.obj.attach_to_2d_curve, t, c, s)
            m.repr.append((2, c, s, None) + t)
        w = self.wire(es)
        l = self.loc(li)
        t = self.tol()
        f = ctx.call("Face", bw.Face, [w.obj], s, l[0], *t)
        self.surfaces.append(s)
        self.new("Fa", f, [(w, "+", None)], "0101000", tol=(t or [1e-3])[0], surface=s, loc=l[1], bad=False)
        ctx.probe("patch")

    def op_vatt(self, i, kind, spec, far, li):
        """Vertices may refer to geometry, it is not written."""
        v = self.pick("Ve", i)
        if v is None:
            return
        l = self.loc(li)
        p = self.far(v.point, li) if far else v.point
        if kind == 0:
            c, t = self.bs_curve(spec, [p, (1.0, 2.0, 3.0)], 3)
            self.attach(far, "attach_to_3d_curve", v.obj.attach_to_3d_curve, t[0], c, l[0])
            return
        s, at = self.bs_surface(spec, spec, 0)
        (u, w), q = at(0.5, 0.25)
        p = self.far(q, li) if far else q
        m = self.new("Ve", self.ctx.call("Vertex", self.bw.Vertex, list(p)), [], "0101101", point=tuple(p), tol=1e-3)
        if kind == 1:
            c, t = self.bs_curve([1, [0.0, 2.0], [], [[0] * 3] * 2], [(u, w), (u, w)], 2)
            self.attach(far, "attach_to_2d_curve", m.obj.attach_to_2d_curve, 1.0, c, s, l[0])
        else:
            self.attach(far, "attach_to_surface", m.obj.attach_to_surface, u, w, s, l[0])
        self.ctx.probe("vertex-geometry")

    def op_approx(self, pts, how):
        """Splines of a line, a plane or a bilinear surface through points of the caller, who keeps his points."""
        if how == 1:
            pts = [tuple(p) for p in pts]
        elif how == 2:
            pts = [np.array(p, dtype=float) for p in pts]
        kept = [np.array(p, dtype=float) for p in pts]
        A, ctx = self.bw.Approx, self.ctx
        n = len(pts)
        if n == 2:
            flat = [p[:2] for p in pts]
            c2, c3 = ctx.call("line_2d", A.line_2d, flat), ctx.call("line_3d", A.line_3d, pts)
            for c, dim in ((c2, 2), (c3, 3)):
                b = self.spline_of(c.knots, c.degree)
                for t in (0.0, 0.25, 1.0):
                    x = b.combine([np.array(p, dtype=float) for p in c.poles], t)
                    self.near(x, kept[0][:dim] * (1 - t) + kept[1][:dim] * t, "line in %dd" % dim)
        else:
            s, uv = ctx.call("bilinear" if n == 4 else "plane", A.bilinear if n == 4 else A.plane, pts)
            ctx.expect(len(uv) == n, "approx", lambda: "%d parameters of %d points: %r" % (len(uv), n, uv))
            bu, bv = self.spline_of(s.knots[0], s.degree[0]), self.spline_of(s.knots[1], s.degree[1])
            P = np.array(s.poles, dtype=float)
            for p, q in zip(kept, uv):
                self.near(sp.surface(bu, bv, P, *[float(x) for x in q]), p, "corner of the surface")
            a, b, c, d = kept if n == 4 else [kept[0], kept[1], kept[1] + kept[2] - kept[0], kept[2]]
            for u, v in ((0.5, 0.5), (0.25, 0.75)):
                self.near(sp.surface(bu, bv, P, u, v), a * (1 - u) * (1 - v) + b * u * (1 - v) + c * u * v + d * (1 - u) * v, "inside of the surface")
        ctx.expect(len(pts) == n and all(np.array_equal(np.array(p, dtype=float), q) for p, q in zip(pts, kept)),
                   "argument-changed", lambda: "the points of the caller were changed to %r" % (pts,))
        ctx.probe("approx")

    def near(self, x, y, what):
        self.ctx.expect(all(abs(p - q) < 1e-9 * (1 + abs(q)) for p, q in zip(x, y)), "approx", lambda: "%s is at %r, expected %r" % (what, list(x), list(y)))

    def spline_of(self, knots, deg):
        k = [(float(t), int(m)) for t, m in knots]
        self.ctx.expect(k[0][1] == k[-1][1] == deg + 1 and all(m == 1 for _, m in k[1:-1]), "approx", lambda: "knots %r of degree %r" % (k, deg))
        return sp.Basis(deg, [t for t, _ in k[1:-1]], k[0][0], k[-1][0])

    def between(self, a, b, fresh=False):
        """Oriented edge a -> b, an existing one if there is any."""
        if not fresh:
            for e in self.by["Ed"]:
                v = [c[0] for c in e.childs]
                if v == [a, b]:
                    return e, "+"
                if v == [b, a]:
                    return e, "-"
        return self.edge(a, b), "+"

    def ring(self, vs):
        vs = [self.pick("Ve", i) for i in vs]
        if None in vs:
            return None
        out = []
        for v in vs:
            if v not in out:
                out.append(v)
        if len(out) < 2:
            return None
        return [self.between(a, b, len(out) == 2 and k == 1) for k, (a, b) in enumerate(zip(out, out[1:] + out[:1]))]

    def shape_refs(self, es):
        return [e.obj.p() if o == "+" else e.obj.m() for e, o in es]

    def mwire(self, es):
        """Model of a wire; closed when every vertex has an even number of edge ends."""
        n = {}
        seen = []
        for e, _ in es:
            for v, _, _ in e.childs:
                n[id(v)] = n.get(id(v), 0) + 1
        closed = all(x % 2 == 0 for x in n.values())
        return closed

    def op_wire(self, vs):
        es = self.ring(vs)
        if es:
            self.wire(es)

    def wire(self, es):
        o = self.ctx.call("Wire", self.bw.Wire, self.shape_refs(es))
        return self.new("Wi", o, [(e, s, None) for e, s in es], "0101100" if self.mwire(es) else "0101000")

    def op_open(self, vs):
        """A face of an open wire is refused."""
        es = self.ring(vs)
        if not es or len(es) < 3:
            return
        _, e = self.ctx.attempt(self.bw.Face, self.shape_refs(es[:-1]))
        self.ctx.expect(e is not None, "open-face", "a face of an open wire was accepted")
        self.ctx.fault("refused-open-face")

    def op_loop(self, vs, style):
        es = self.ring(vs)
        if not es or len(es) < 3:
            return
        if style & 8:
            es = es[1:] + es[:1]
        f = self.ctx.call("Face", self.bw.Face, self.shape_refs(es)) if not style & 1 else None
        if f is None:
            w = self.wire(es)
            f = self.ctx.call("Face", self.bw.Face, [w.obj])
        else:
            # the wire is made by the face, nobody else can refer to it
            w = M("Wi", None, [(e, s, None) for e, s in es], "0101100")
        m = self.new("Fa", f, [(w, "+", None)], "0101000", tol=1e-3, surface=None, loc=None, bad=len(es) > 4)
        for e, _ in es:
            e.by_faces.append(m)

    def op_sface(self, rings, kind, li):
        bw, ctx = self.bw, self.ctx
        ws = []
        for r in rings:
            es = self.ring(r)
            if es:
                ws.append(self.wire(es))
        if not ws:
            return
        if kind == 3 and self.surfaces:
            s = self.surfaces[li % len(self.surfaces)]
        elif kind == 2:
            k = [(0.0, 2), (1.0, 2)]
            s = bw.Surface([[(0.0, 0.0, 0.0, 1.0), (0.0, 1.0, 0.0, 2.0)], [(1.0, 0.0, 0.0, 0.5), (1.0, 1.0, 1.0, 1.0)]], (k, k), True, (1, 1))
        elif kind == 1:
            ku, kv = [(0.0, 3), (0.5, 1), (1.0, 3)], [(0.0, 2), (1.0, 2)]
            s = bw.Surface([[(float(i), float(j), i * j / 7.0) for j in range(2)] for i in range(4)], (ku, kv), False, (2, 1))
        else:
            s, _ = bw.Approx.bilinear([(0.0, 0.0, 0.0), (1.0, 0.0, 0.1), (1.0, 1.0, 0.0), (0.0, 1.0, 0.3)])
        self.surfaces.append(s)
        l = self.loc(li)
        t = self.tol()
        f = ctx.call("Face", bw.Face, [w.obj for w in ws], s, l[0], *t)
        self.new("Fa", f, [(w, "+", None) for w in ws], "0101000", tol=(t or [1e-3])[0], surface=s, loc=l[1], bad=False)

    def group(self, kind, sub, cls, flags, items):
        ch = [(self.pick(sub, i), ORI[o]) for i, o in items]
        ch = [c for c in ch if c[0] is not None]
        if not ch:
            return
        o = self.ctx.call(kind, cls, [self.ref(c, s, self.locs[0]) for c, s in ch])
        self.new(kind, o, [(c, s, None) for c, s in ch], flags)

    def ref(self, m, s, l):
        bw = self.bw
        return bw.ShapeRef(m.obj, [bw.Orient.Forward, bw.Orient.Reversed, bw.Orient.Internal, bw.Orient.External][ORI.index(s)], l[0])

    def op_shell(self, items):
        self.group("Sh", "Fa", self.bw.Shell, "0101000", items)

    def op_solid(self, items):
        self.group("So", "Sh", self.bw.Solid, "0100000", items)

    def op_cs(self, items):
        self.group("Cs", "So", self.bw.CompoundSolid, "0101000", items)

    def items(self, items):
        pool = [m for m in self.all if m.kind != "Co"]
        if not pool:
            return []
        # prefer the composite ones
        big = [m for m in pool if m.kind not in ("Ve", "Ed")] or pool
        return [((big if i % 5 else pool)[i % len(big if i % 5 else pool)], ORI[o], self.loc(l)) for i, o, l in items]

    def op_comp(self, items):
        ch = self.items(items)
        if not ch:
            return
        o = self.ctx.call("Compound", self.bw.Compound, [self.ref(*c) for c in ch])
        self.new("Co", o, [(m, s, l[1]) for m, s, l in ch], "1100000")

    def op_append(self, i, item):
        c = self.pick("Co", i)
        ch = self.items([item])
        if c is None or not ch:
            return
        self.ctx.call("append", c.obj.append, self.ref(*ch[0]))
        m, s, l = ch[0]
        c.childs.append((m, s, l[1]))

    def op_free(self, i):
        c = self.pick("Co", i)
        if c is None:
            return
        self.ctx.call("set_free_shapes", c.obj.set_free_shapes)
        for m, _, _ in c.childs:
            m.flags = "1" + m.flags[1:]

    def op_flags(self, i, bits, one):
        pool = [m for m in self.all if m.kind not in ("Wi",)]
        if not pool:
            return
        m = pool[i % len(pool)]
        names = ["free", "modified", "checked", "orientable", "closed", "infinite", "convex"]
        if one:
            k = i % 7
            if bits[k]:
                self.ctx.call("flags.set", m.obj.flags.set, names[k])
            else:
                self.ctx.call("flags.unset", m.obj.flags.unset, names[k])
            m.flags = m.flags[:k] + str(bits[k]) + m.flags[k + 1:]
        else:
            self.ctx.call("set_flags", m.obj.set_flags, tuple(bits))
            m.flags = "".join(map(str, bits))
        self.ctx.probe("flags")

    def op_print(self, i):
        pool = [m for m in self.all]
        if not pool:
            return
        m = pool[i % len(pool)]
        if any(x.kind == "Fa" and x.bad for x in m.walk()):
            self.ctx.attempt(repr, m.obj)
            return
        t = self.ctx.call("print", repr, m.obj)
        self.ctx.expect(isinstance(t, str), "print", "repr is not a text")

    def op_write(self, i, li, fail, ekind):
        ctx = self.ctx
        root = self.pick("Co", i) if i >= 0 else (self.by["Co"][-1] if self.by["Co"] else None)
        if root is None:
            return
        l = self.loc(li)
        n = len(root.walk())
        bad = any(x.kind == "Fa" and x.bad for x in root.walk())
        if fail >= 0:
            exc = [OSError(errno.ENOSPC, "No space left on device"), ValueError("I/O operation on closed file"), KeyboardInterrupt()][ekind % 2]
            stream = BadStream(fail, exc)
        else:
            stream = io.StringIO()
        _, e = ctx.attempt(self.bw.write_model, stream, root.obj, l[0])
        if bad:
            ctx.expect(e is not None, "implicit-face", "a face of 5 vertices without a surface was written")
            ctx.fault("refused-face")
            ctx.log("write refused")
            return
        if fail >= 0 and e is exc:
            ctx.fault("stream-error")
            ctx.log("write failed", fail)
            return
        if e is not None:
            raise Violation("exception:write:" + type(e).__name__, "writing a model of %d shapes raised %s: %s" % (n, type(e).__name__, str(e)[:200]))
        text = "".join(stream.text) if fail >= 0 else stream.getvalue()
        if fail >= 0 and stream.n < 0:
            ctx.fail("silent-loss", "the stream failed and write returned normally")
        self.check(root, l[1], text)
        if n >= 5:
            ctx.probe("file")
        ctx.log("wrote", text)
        ctx.state(text.encode())

    # -- oracle --------------------------------------------------------------
    def check(self, root, rloc, text):
        ctx = self.ctx
        try:
            f = brep.parse(text)
        except brep.NotBrep as e:
            raise Violation("bad-file", "the file is not a complete BREP: %s" % e)
        E = ctx.expect
        locs = [None]
        for k, v in f["locations"]:
            locs.append((k, v if k == "m" else tuple((locs[i], p) for i, p in v if locs[i] is not None)))
        E(locs[f["root_loc"]] == rloc, "location", lambda: "the model is placed by %r, asked %r" % (locs[f["root_loc"]], rloc))
        S = f["shapes"]
        fwd, back = {}, {}
        geo, geob = {}, {}

        def same(kind, fid, obj):
            """One object, one record."""
            E(geo.setdefault((kind, id(obj)), fid) == fid, "sharing", lambda: "one %s became two in the file" % kind)
            E(geob.setdefault((kind, fid), id(obj)) == id(obj), "sharing", lambda: "two different %ss became one in the file" % kind)

        def curve(fid, c, kind, rec):
            if geo.get((kind, id(c))) == fid:
                return
            same(kind, fid, c)
            E(rec["degree"] == c.degree and bool(rec["rational"]) == bool(c.rational) and rec["poles"] == [tuple(float(x) for x in p) for p in c.poles]
              and rec["knots"] == [(float(t), int(m)) for t, m in c.knots], "curve", lambda: "%s %d is %r" % (kind, fid, rec))

        todo = [(root, f["root"])]
        fwd[id(root)], back[f["root"]] = f["root"], root
        faces = set()
        edges = []
        uvs = {}
        while todo:
            m, k = todo.pop()
            s = S[k]
            E(s["type"] == m.kind, "shape-type", lambda: "a %s became %s" % (m.kind, s["type"]))
            E(s["flags"] == m.flags, "flags", lambda: "%s has flags %s, expected %s" % (m.kind, s["flags"], m.flags))
            got = [(o, locs[l]) for o, _, l in s["childs"]]
            want = [(o, l) for _, o, l in m.childs]
            E(got == want, "childs", lambda: "%s has children %r, expected %r" % (m.kind, got, want))
            for (c, _, _), (_, kc, _) in zip(m.childs, s["childs"]):
                if id(c) in fwd or kc in back:
                    E(fwd.get(id(c)) == kc and back.get(kc) is c, "sharing", lambda: "sharing of a %s is not kept: the file has %d, elsewhere it is %r" % (c.kind, kc, fwd.get(id(c))))
                    continue
                fwd[id(c)], back[kc] = kc, c
                todo.append((c, kc))
            if m.kind == "Ve":
                E(s["point"] == m.point and s["tol"] == m.tol, "vertex", lambda: "vertex %r is written as %r" % (m.point, s["point"]))
            elif m.kind == "Fa":
                E(s["tol"] == m.tol and s["restr"] == 0, "face", "face record %r" % s)
                E(locs[s["loc"]] == m.loc, "location", lambda: "surface placed by %r, asked %r" % (locs[s["loc"]], m.loc))
                rec = f["surfaces"][s["surface"] - 1]
                if m.surface is not None:
                    same("surface", s["surface"], m.surface)
                    self.surf(rec, m.surface)
                else:
                    faces.add(id(m))
                    same("surface", s["surface"], m)
                    m.fsurf = s["surface"]
            elif m.kind == "Ed":
                E(s["tol"] == m.tol and s["eflags"] == m.eflags, "edge", "edge record %r" % s)
                edges.append((m, s))
        E(len(fwd) == len(S), "extra-shapes", lambda: "%d shapes in the file, %d in the model" % (len(S), len(fwd)))
        for m, s in edges:
            self.edge_reprs(f, locs, m, s, faces, curve, same, uvs)
        mine = {x.fsurf for m, _ in edges for x in m.by_faces if id(x) in faces}
        for sid, v in uvs.items():
            if sid not in mine:
                continue
            # plane or bilinear surface: the mean of the parameters of the corners is the mean of the corners
            (u, w), p = (tuple(sum(x[k][i] for x in v) / len(v) for i in range(n)) for k, n in ((0, 2), (1, 3)))
            q = brep.surf_point(f["surfaces"][sid - 1], u, w)
            tol = 1e-9 * (1 + max(abs(x) for c in v for x in c[1]))
            E(all(abs(x - y) <= tol for x, y in zip(p, q)), "implicit-surface", lambda: "middle of a face without a surface is %r, its corners %r" % (q, [c[1] for c in v]))

    def surf(self, rec, s):
        self.ctx.expect(rec["degree"] == tuple(s.degree) and bool(rec["rational"]) == bool(s.rational)
                        and rec["poles"] == [[tuple(float(x) for x in p) for p in r] for r in s.poles]
                        and rec["knots"] == tuple([(float(t), int(m)) for t, m in k] for k in s.knots), "surface", lambda: "surface is written as %r" % rec)

    def edge_reprs(self, f, locs, m, s, faces, curve, same, uvs):
        E = self.ctx.expect
        a, b = m.childs[0][0].point, m.childs[1][0].point
        todo = list(m.repr)
        lines = 0
        on = []
        tol = 1e-9 * (1 + max(abs(x) for x in a + b))
        near = lambda p, q: all(abs(x - y) <= tol for x, y in zip(p, q))
        for r in s["repr"]:
            if todo and self.matches(f, locs, r, todo[0]):
                x = todo.pop(0)
                if x[1] is None:
                    same("surface", r[2], x[2])
                elif r[0] == 1:
                    curve(r[1], x[1], "curve", f["curves3"][r[1] - 1])
                else:
                    curve(r[1], x[1], "2d curve", f["curves2"][r[1] - 1])
                    same("surface", r[2], x[2])
                continue
            if r[0] == 1:
                c = f["curves3"][r[1] - 1]
                p = [brep.curve_point(c, t) for t in (0.0, 0.5, 1.0)]
                mid = tuple((x + y) / 2 for x, y in zip(a, b))
                E(r[2] == 0 and (r[3], r[4]) == (0.0, 1.0) and near(p[0], a) and near(p[2], b) and near(p[1], mid), "implicit-line",
                  lambda: "edge %r %r is represented by %r" % (a, b, c["poles"]))
                lines += 1
            else:
                c = f["curves2"][r[1] - 1]
                sf = f["surfaces"][r[2] - 1]
                p = [brep.surf_point(sf, *brep.curve_point(c, t)) for t in (0.0, 1.0, 0.5)]
                mid = tuple((x + y) / 2 for x, y in zip(a, b))
                E(r[3] == 0 and (r[4], r[5]) == (0.0, 1.0) and near(p[0], a) and near(p[1], b) and near(p[2], mid), "implicit-2d",
                  lambda: "edge %r %r lies on the surface of its face from %r to %r through %r" % (a, b, p[0], p[1], p[2]))
                uvs.setdefault(r[2], []).extend((brep.curve_point(c, t), q) for t, q in ((0.0, a), (1.0, b)))
                on.append(r[2])
        E(not todo, "lost-geometry", lambda: "%d given representations of an edge are missing" % len(todo))
        if not m.repr:
            E(lines == 1, "implicit-line", lambda: "an edge without own geometry has %d lines" % lines)
        else:
            E(lines <= (1 if m.late else 0), "implicit-line", lambda: "an edge with own geometry got %d more lines" % lines)
        need = sorted(x.fsurf for x in m.by_faces if id(x) in faces)
        E(len(set(on)) == len(on), "implicit-2d", "an edge is attached twice to one surface")
        E(set(need) <= set(on), "implicit-2d", lambda: "an edge is not attached to the surface of its face")
        E(len(on) <= len(m.by_faces), "implicit-2d", lambda: "an edge of %d faces is attached to %d surfaces" % (len(m.by_faces), len(on)))

    def matches(self, f, locs, r, x):
        if r[0] != x[0]:
            return False
        if r[0] == 1:
            c, l, t = f["curves3"][r[1] - 1], locs[r[2]], r[3:]
        else:
            c, l, t = f["curves2"][r[1] - 1], locs[r[3]], r[4:]
        return l == x[3] and tuple(t) == (x[4], x[5]) and c["poles"] == [tuple(float(v) for v in p) for p in (x[1].poles if x[1] is not None else x[6])]


SCENARIO = C17()
