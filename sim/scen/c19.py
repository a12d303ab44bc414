"""C19: spline curves and surfaces, elevation (Z) surfaces and grid surfaces
describe the same geometry through any history of transforms, copies and
conversions, whichever way they are read, and never share state with their
copies or their caller's arrays."""
import os
import tempfile

import numpy as np

from ..core import Scenario
from . import splines as sp

TOL = 1e-8


class Obj:
    """One live object under test with its model."""

    def __init__(self, kind, real, **m):
        self.kind = kind
        self.real = real
        self.__dict__.update(m)


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


class C19(Scenario):
    ID = "C19"
    QUICK_RUNS = 9000
    THOROUGH_RUNS = 500000
    QUICK_WALL = 60
    RULE = ("histories over several curves, surfaces, Z surfaces and grid surfaces, made over equidistant and general knots in every way "
            "the classes offer: transforms (also repeated, XY only, Z only), refused "
            "transforms, baking the Z transform in, copies, deep copies, conversion to a full surface, search boxes, and the caller "
            "reusing arrays it passed in or got back; after every step every live object is evaluated through every interface and "
            "compared with an independent de Boor evaluation of its own history; non-trivial = a copy or conversion exists and a "
            "transform took effect after it")
    REAL = ["bgem.bspline.bspline", "bih"]
    STUB = []
    ASSUME = ["Z splines are polynomial (not rational), quadrilaterals are convex and not degenerate"]
    STATE_MEASURE = "distinct sets of (object kind, transforms, copies made) reached"

    # -- generation ------------------------------------------------------
    def gen_quad(self, rng):
        s = rng.choice([1, 1, 3, 100, 0.01])
        o = [rng.choice([0, 0, 5, -70]) * s for _ in range(2)]
        while True:
            u = [rng.randrange(-4, 5) * s, rng.randrange(-4, 5) * s]
            v = [rng.randrange(-4, 5) * s, rng.randrange(-4, 5) * s]
            if abs(cross(u, v)) > 0.9 * s * s:
                break
        q = [[o[0] + v[0], o[1] + v[1]], o, [o[0] + u[0], o[1] + u[1]]]
        r = rng.random()
        if r < 0.45:
            return q
        d = [0, 0]
        if r > 0.7:
            d = [(u[i] * rng.choice([0.5, 1, 0.25]) + v[i] * rng.choice([0, 0.5, 1])) for i in range(2)]
        return q + [[q[0][i] + q[2][i] - q[1][i] + d[i] for i in range(2)]]

    def gen_knots(self, rng, n, unit=False):
        """Number of equal intervals, or [how the basis is made, ends, inner knots]."""
        if rng.random() < 0.6:
            return n
        lo, hi = (0.0, 1.0) if unit else rng.choice([(0.0, 1.0), (2.0, 5.0), (-1.0, 1.0), (0.25, 0.75), (0.0, 100.0)])
        if rng.random() < 0.3:
            return ["equidistant", lo, hi] + [lo + (hi - lo) * i / n for i in range(1, n)]
        inner = sorted(rng.sample([0.05, 0.1, 0.2, 0.3, 0.375, 0.5, 0.6, 0.75, 0.875, 0.95], n - 1))
        return [rng.choice(["knots", "packed", "raw"]), lo, hi] + [lo + (hi - lo) * t for t in inner]

    def gen_obj(self, rng):
        r = rng.random()
        val = lambda: rng.choice([0, 1, -1, 2, 5, -7, 0.5, 30, 1e-3])
        deg = lambda: rng.choice([1, 2, 2, 2, 3])
        if r < 0.5:
            du, dv, nu, nv = deg(), deg(), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
            return ["z", du, dv, self.gen_knots(rng, nu, True), self.gen_knots(rng, nv, True), [[val() for _ in range(nv + dv)] for _ in range(nu + du)], self.gen_quad(rng)]
        if r < 0.75:
            nu, nv = rng.choice([2, 3, 4]), rng.choice([3, 3, 4, 5])
            return ["grid", nu, nv, self.gen_quad(rng)[:3], [[val() for _ in range(nv)] for _ in range(nu)]]
        rat = rng.random() < 0.4
        w = lambda: [rng.choice([1, 1, 2, 0.5, 3])] if rat else []
        if r < 0.88:
            du, dv, nu, nv = rng.choice([[2, 2], [2, 2], [1, 2], [3, 1]]) + [rng.choice([1, 2, 3]), rng.choice([1, 2, 3])]
            return ["surf", du, dv, self.gen_knots(rng, nu), self.gen_knots(rng, nv), rat, [[[val() for _ in range(3)] + w() for _ in range(nv + dv)] for _ in range(nu + du)]]
        d, n, dim = rng.choice([2, 2, 1, 3]), rng.choice([1, 2, 4]), rng.choice([2, 3, 3])
        return ["curve", d, self.gen_knots(rng, n), rat, [[val() for _ in range(dim)] + w() for _ in range(n + d)]]

    def gen_xy(self, rng):
        r = rng.random()
        if r < 0.25:
            return None
        k = [rng.randrange(-2, 3) for _ in range(4)]
        if k[0] * k[3] - k[1] * k[2] == 0 or r < 0.4:
            k = [1, 0, 0, 1]
        return [[k[0], k[1], rng.choice([0, 1, -20])], [k[2], k[3], rng.choice([0, 3, 7])]]

    def gen_z(self, rng):
        if rng.random() < 0.3:
            return None
        return [rng.choice([1, 2, -1, 0.5, -3, 1, 0]), rng.choice([0, 0, 10, -4])]

    def gen(self, rng, tier):
        objs = [self.gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([3, 6, 10, 16])):
            r = rng.random()
            o = rng.randrange(8)
            if r < 0.4:
                ops.append(["transform", o, self.gen_xy(rng), self.gen_z(rng)])
            elif r < 0.47:
                ops.append(["bad", o, rng.choice(["xy-shape", "xy-singular", "z-shape", "z-shape-after-xy", "xy-text"]), self.gen_xy(rng), self.gen_z(rng)])
            elif r < 0.6:
                ops.append(["copy", o])
            elif r < 0.7:
                ops.append(["apply", o])
            elif r < 0.8:
                ops.append(["full", o])
            elif r < 0.86:
                ops.append(["boxes", o])
            elif r < 0.87:
                ops.append(["badgrid", o, rng.choice(["move", "move", "row", "row", "drop", "swap", "add"]), rng.randrange(40), rng.choice([[0.3, 0], [0, 0.3], [-0.5, 0.2], [1e-3, 0], [0, -1e-3]])])
            elif r < 0.895:
                ops.append(["edge", o, rng.choice([0, 1]), rng.choice([0, 1])])
            elif r < 0.93:
                ops.append(["poke", o, rng.randrange(40), rng.choice([1, -3, 8])])
            else:
                ops.append(["reuse", o])
        pts = [[rng.randrange(0, 17) / 16, rng.randrange(0, 17) / 16] for _ in range(2)] + [[rng.randrange(1, 63) / 64, rng.randrange(1, 63) / 64] for _ in range(2)]
        return {"config": {"objs": objs, "pts": pts}, "ops": ops}

    # -- execution -------------------------------------------------------
    def execute(self, plan, ctx):
        from bgem.bspline import bspline as bs
        self.bs, self.ctx = bs, ctx
        cfg = plan["config"]
        self.pts = cfg["pts"]
        self.objs = []
        self.made = 0
        for spec in cfg["objs"]:
            o = self.make(spec)
            if o is None:
                return
            self.objs.append(o)
        self.look("creation")
        for op in plan["ops"]:
            self.step(op)
            self.look(op[0])
            ctx.log(op[0], [(o.kind, self.digest(o)) for o in self.objs])
            ctx.state(repr(sorted((o.kind, repr(getattr(o, "xy", None)), repr(getattr(o, "zt", None))) for o in self.objs)))

    def digest(self, o):
        return [[float(x) for x in self.value(o, *p[:2])] for p in self.opts(o)[:2]]

    def model_basis(self, deg, n):
        return sp.Basis.equidistant(deg, n) if isinstance(n, int) else sp.Basis(deg, n[3:], n[1], n[2])

    def basis(self, deg, n):
        """A basis made in the way the plan asks for."""
        B, m = self.bs.SplineBasis, self.model_basis(deg, n)
        if isinstance(n, int):
            b = self.ctx.call("make_equidistant", B.make_equidistant, deg, n)
        elif n[0] == "equidistant":
            b = self.ctx.call("make_equidistant", B.make_equidistant, deg, len(n) - 2, [n[1], n[2]])
        elif n[0] == "packed":
            b = self.ctx.call("make_from_packed_knots", B.make_from_packed_knots, deg, [(n[1], deg + 1)] + [(t, 1) for t in n[3:]] + [(n[2], deg + 1)])
        else:
            k = np.array(m.knots)
            b = self.ctx.call("SplineBasis", B, deg, k)
            k[:] = 55.5
        self.near("basis", "the basis has knots", b.knots, m.knots, 1e-12 * (1 + abs(m.lo) + abs(m.hi)))
        packed = [(t, len([x for x in m.knots if x == t])) for t in sorted(set(m.knots))]
        got = self.ctx.call("pack_knots", b.pack_knots)
        self.ctx.expect([int(c) for _, c in got] == [c for _, c in packed], "basis", lambda: "packed knots %r of %r" % (got, m.knots))
        self.near("basis", "packed knots", [t for t, _ in got], [t for t, _ in packed], 1e-12 * (1 + abs(m.lo) + abs(m.hi)))
        self.near("basis", "the domain", b.domain, [m.lo, m.hi], 1e-12 * (1 + abs(m.lo) + abs(m.hi)))
        if not isinstance(n, int):
            self.ctx.probe("knots:" + n[0])
        return b

    def opts(self, o):
        """The points of the plan mapped to the domain of the object."""
        at = lambda b, t: b.lo + (b.hi - b.lo) * t
        if o.kind == "curve":
            return [(at(o.bu, u), v) for u, v in self.pts]
        return [(at(o.bu, u), at(o.bv, v)) for u, v in self.pts]

    def make(self, spec):
        bs, ctx = self.bs, self.ctx
        k = spec[0]
        if k == "z":
            _, du, dv, nu, nv, poles, quad = spec
            bu, bv = self.model_basis(du, nu), self.model_basis(dv, nv)
            P = np.array(poles, dtype=float)
            if P.shape != (bu.size, bv.size) or len(quad) not in (3, 4) or not self.good_quad(quad):
                return None
            A, Q = P[:, :, None].copy(), np.array(quad, dtype=float)
            rb = [self.basis(d, n) for d, n in ((du, nu), (dv, nv))]
            surf = ctx.call("Surface", bs.Surface, tuple(rb), A)
            real = ctx.call("Z_Surface", bs.Z_Surface, Q, surf)
            o = Obj("z", real, bu=bu, bv=bv, P=P, quad=self.four(quad), xy=None, zt=None, args=[A, Q], share=surf)
            return o
        if k == "grid":
            _, nu, nv, quad, zs = spec
            q = np.array(quad, dtype=float)
            Z = np.array(zs, dtype=float)
            if Z.shape != (nu, nv) or nu < 2 or nv < 3 or not self.good_quad(quad):
                return None
            pts = np.array([list(q[1] + (q[2] - q[1]) * (i / (nu - 1)) + (q[0] - q[1]) * (j / (nv - 1))) + [Z[i, j]] for i in range(nu) for j in range(nv)])
            keep = pts.copy()
            if (nu + nv) % 3 == 0:
                with tempfile.TemporaryDirectory(prefix="verif-c19-") as d:
                    f = os.path.join(d, "grid.txt")
                    np.savetxt(f, pts, fmt="%.17g")
                    real = ctx.call("load", bs.GridSurface.load, f)
                ctx.probe("grid-file")
            else:
                real = ctx.call("GridSurface", bs.GridSurface, pts)
            ctx.expect(np.array_equal(pts, keep), "caller-array", "GridSurface changed the array of points it was given")
            ctx.expect(tuple(real.shape) == (nu, nv), "grid-shape", lambda: "a %d x %d grid was read as %r" % (nu, nv, real.shape))
            return Obj("grid", real, bu=sp.Basis.equidistant(1, nu - 1), bv=sp.Basis.equidistant(1, nv - 1), P=Z, quad=self.four(quad), xy=None, zt=None, args=[pts])
        if k == "surf":
            _, du, dv, nu, nv, rat, poles = spec
            bu, bv = self.model_basis(du, nu), self.model_basis(dv, nv)
            A = np.array(poles, dtype=float)
            if A.shape != (bu.size, bv.size, 3 + rat):
                return None
            rb = [self.basis(d, n) for d, n in ((du, nu), (dv, nv))]
            if not isinstance(nu, int) and nu[0] == "raw":
                real = ctx.call("make_raw", bs.Surface.make_raw, A, [np.array(bu.knots), np.array(bv.knots)], bool(rat), (du, dv))
            else:
                real = ctx.call("Surface", bs.Surface, tuple(rb), A, bool(rat))
            return Obj("surf", real, bu=bu, bv=bv, P=A.copy(), rat=rat, args=[A], boxed=False, poked=False)
        _, d, n, rat, poles = spec
        b = self.model_basis(d, n)
        A = np.array(poles, dtype=float)
        if A.ndim != 2 or A.shape[0] != b.size:
            return None
        rb = self.basis(d, n)
        if not isinstance(n, int) and n[0] == "raw":
            real = ctx.call("make_raw", bs.Curve.make_raw, A, np.array(b.knots), bool(rat), d)
        else:
            real = ctx.call("Curve", bs.Curve, rb, A, bool(rat))
        return Obj("curve", real, bu=b, P=A.copy(), rat=rat, args=[A])

    @staticmethod
    def good_quad(quad):
        q = np.array(quad, dtype=float)
        if q.shape[1:] != (2,):
            return False
        n = len(q)
        s = [cross(q[(i + 1) % n] - q[i], q[(i + 2) % n] - q[(i + 1) % n]) for i in range(n)]
        m = max(abs(np.ptp(q, axis=0)))
        return (min(s) > 1e-3 * m * m or max(s) < -1e-3 * m * m)

    @staticmethod
    def four(quad):
        q = np.array(quad, dtype=float)
        return q if len(q) == 4 else np.vstack([q, q[0] + q[2] - q[1]])

    # -- the model ---------------------------------------------------------
    def cur_quad(self, o):
        if o.xy is None:
            return o.quad
        M = np.array(o.xy, dtype=float)
        c = o.quad.mean(axis=0)
        return (o.quad - c) @ M[:, :2].T + c + M[:, 2]

    @staticmethod
    def bil(q, u, v):
        return q[0] * (1 - u) * v + q[1] * (1 - u) * (1 - v) + q[2] * u * (1 - v) + q[3] * u * v

    def zraw(self, o, u, v):
        return float(sp.surface(o.bu, o.bv, o.P, u, v))

    def zmap(self, o):
        """Effective (scale, shift) of the Z transform."""
        if o.zt is None:
            return 1.0, 0.0
        c = self.zraw(o, 0.5, 0.5)
        return o.zt[0], o.zt[1] + (1 - o.zt[0]) * c

    def value(self, o, u, v=None):
        if o.kind in ("z", "grid"):
            s, t = self.zmap(o)
            return np.append(self.bil(self.cur_quad(o), u, v), s * self.zraw(o, u, v) + t)
        P = sp.weighted(o.P) if o.rat else o.P
        r = o.bu.combine(P, u) if o.kind == "curve" else sp.surface(o.bu, o.bv, P, u, v)
        return sp.rational(r) if o.rat else r

    # -- operations ----------------------------------------------------------
    def step(self, op):
        ctx = self.ctx
        k = op[0]
        o = self.objs[op[1] % len(self.objs)]
        zs = o.kind in ("z", "grid")
        if k == "transform":
            if not zs:
                return
            xy = None if op[2] is None else np.array(op[2], dtype=float)
            zm = None if op[3] is None else np.array(op[3], dtype=float)
            if xy is not None and abs(np.linalg.det(xy[:, :2])) < 1e-9:
                return
            keep = [None if a is None else a.copy() for a in (xy, zm)]
            ctx.call("transform", o.real.transform, xy, zm)
            for a, b in zip((xy, zm), keep):
                ctx.expect(a is None or np.array_equal(a, b), "caller-array", "transform changed the matrix it was given")
                if a is not None:
                    o.args.append(a)
            if op[2] is not None:
                o.xy = op[2]
            if op[3] is not None:
                o.zt = op[3]
            if self.made and (op[2] or op[3]):
                ctx.probe("transform-after-copy")
        elif k == "bad":
            if not zs:
                return
            xy = None if op[3] is None else np.array(op[3], dtype=float)
            zm = None if op[4] is None else np.array(op[4], dtype=float)
            if op[2] == "xy-shape":
                xy = np.eye(3)
            elif op[2] == "xy-singular":
                xy = np.array([[1.0, 1, 0], [1, 1, 3]])
            elif op[2] == "xy-text":
                xy = [["a", "b", "c"], ["d", "e", "f"]]
            else:
                zm = np.array([1.0, 2.0, 3.0])
                if op[2] == "z-shape":
                    xy = None
                elif xy is None:
                    xy = np.array([[2.0, 0, 1], [0, 2, 1]])
            if xy is not None and op[2] in ("z-shape-after-xy",) and abs(np.linalg.det(xy[:, :2])) < 1e-9:
                return
            _, e = ctx.attempt(o.real.transform, xy, zm)
            ctx.expect(e is not None, "bad-transform", lambda: "a transform with %s was accepted" % op[2])
            ctx.fault("refused-transform:" + op[2])
        elif k == "copy":
            if len(self.objs) > 7:
                return
            if o.kind == "z":
                c = ctx.call("get_copy", o.real.get_copy)
                ctx.expect(c is not o.real, "copy-identity", "get_copy returned the object itself")
                self.objs.append(Obj("z", c, bu=o.bu, bv=o.bv, P=o.P.copy(), quad=o.quad, xy=o.xy, zt=o.zt, args=[]))
            elif o.kind == "surf":
                c = ctx.call("deep_copy", o.real.deep_copy)
                ctx.expect(c is not o.real and c.poles is not o.real.poles, "copy-identity", "deep_copy shares its poles with the original")
                self.objs.append(Obj("surf", c, bu=o.bu, bv=o.bv, P=o.P.copy(), rat=o.rat, args=[], boxed=False, poked=False))
            else:
                return
            self.made += 1
            ctx.probe("copy:" + o.kind)
        elif k == "apply":
            if not zs:
                return
            zr = o.real if o.kind == "z" else None
            if zr is None:
                return
            s, t = self.zmap(o)
            ctx.call("apply_z_transform", zr.apply_z_transform)
            o.P = o.P * s + t
            if o.zt is not None:
                ctx.probe("baked")
            o.zt = None
        elif k == "full":
            if len(self.objs) > 7 or o.kind != "z":
                return
            f = ctx.call("make_full_surface", o.real.make_full_surface)
            gu = [sum(o.bu.knots[i + 1:i + 1 + o.bu.deg]) / o.bu.deg for i in range(o.bu.size)]
            gv = [sum(o.bv.knots[i + 1:i + 1 + o.bv.deg]) / o.bv.deg for i in range(o.bv.size)]
            s, t = self.zmap(o)
            q = self.cur_quad(o)
            P = np.array([[list(self.bil(q, a, b)) + [s * o.P[i, j] + t] for j, b in enumerate(gv)] for i, a in enumerate(gu)])
            self.objs.append(Obj("surf", f, bu=o.bu, bv=o.bv, P=P, rat=False, args=[], boxed=False, poked=False))
            self.made += 1
            ctx.probe("full")
        elif k == "boxes":
            self.boxes(o)
        elif k == "poke":
            if o.kind != "surf" or o.rat or o.boxed:
                return
            i = op[2] % o.P.size
            o.real.poles.reshape(-1)[i] += op[3]
            o.P.reshape(-1)[i] += op[3]
            ctx.probe("poke")
        elif k == "badgrid":
            self.badgrid(o, *op[2:])
        elif k == "edge":
            self.edge(o, op[2], op[3])
        elif k == "reuse":
            for a in o.args:
                a[...] = 77.25
            if o.args:
                ctx.probe("reuse")
            o.args = []

    def edge(self, o, side, far):
        """At most a rounding error beyond the domain is forgiven."""
        if o.kind == "grid":
            return
        b = o.bu
        t = (b.lo, b.hi)[side]
        d = (1 + abs(t)) * (0.5 if far else 1e-15) * (1 if side else -1)
        v = (o.bv.lo + o.bv.hi) / 2 if o.kind != "curve" else None
        args = (t + d,) if v is None else (t + d, v)
        if far:
            r, e = self.ctx.attempt(o.real.eval, *args)
            self.ctx.expect(isinstance(e, IndexError), "domain", lambda: "evaluated at %r out of the domain %r..%r: %r" % (t + d, b.lo, b.hi, e or r))
        else:
            self.near("eval", "eval(%r) at the end of the domain" % (t + d), self.ctx.call("eval", o.real.eval, *args), self.value(o, t, v), TOL * self.size(o))
        self.ctx.probe("edge")

    def badgrid(self, o, how, i, d):
        """Points that are no regular grid are refused, or the surface goes through them."""
        gs = [x for x in self.objs if x.kind == "grid"]
        if not gs:
            return
        o = gs[i % len(gs)]
        nu, nv = o.P.shape
        q = o.quad
        du, dv = (q[2] - q[1]) / (nu - 1), (q[0] - q[1]) / (nv - 1)
        pts = np.array([list(q[1] + du * i + dv * j) + [o.P[i, j]] for i in range(nu) for j in range(nv)])
        i %= len(pts)
        if how == "move":
            pts[i, :2] += du * d[0] + dv * d[1]
        elif how == "row":
            k = i % nu
            pts[k * nv:(k + 1) * nv, :2] += du * d[0] + dv * d[1]
        elif how == "drop":
            pts = np.delete(pts, i, axis=0)
        elif how == "add":
            pts = np.insert(pts, i, pts[i - 1] + [du[0], dv[1], 1], axis=0)
        elif i:
            pts[[i - 1, i]] = pts[[i, i - 1]]
        r, e = self.ctx.attempt(self.bs.GridSurface, pts.copy())
        self.ctx.probe("grid-refused" if e is not None else "grid-accepted")
        if e is not None:
            self.ctx.fault("irregular-grid")
            self.ctx.expect(isinstance(e, (self.bs.GridNotInShapeExc, self.bs.IrregularGridExc)), "bad-grid", lambda: "an irregular grid is refused by %r" % e)
            return
        n, m = r.shape
        self.ctx.expect(n * m == len(pts), "bad-grid", lambda: "%d points are read as a grid %d x %d" % (len(pts), n, m))
        uv = np.array([[a / (n - 1), b / (m - 1)] for a in range(n) for b in range(m)])
        size = 1 + float(np.max(np.abs(pts)))
        self.near("bad-grid", "the surface of an accepted grid", r.eval_array(uv), pts, 1e-4 * float(np.max(np.abs(q - q.mean(axis=0)))) + 1e-9 * size)

    def boxes(self, o):
        """The search tree finds every patch at every point of the object."""
        ctx = self.ctx
        import bih
        if o.kind not in ("surf", "curve") or o.rat or o.P.shape[-1] != 3:
            return
        bases = [o.bu] if o.kind == "curve" else [o.bu, o.bv]
        if any(b.deg != 2 for b in bases):
            return
        bx = ctx.call("boxes", lambda: o.real.boxes)
        tree = ctx.call("tree", lambda: o.real.tree)
        o.boxed = True
        n = [b.size - b.deg for b in bases]
        ctx.expect(len(bx) == int(np.prod(n)), "boxes", lambda: "%d boxes for %r patches" % (len(bx), n))
        for u, v in self.opts(o):
            x = self.value(o, u, v)
            iu = o.bu.interval(u) - o.bu.deg
            if o.kind == "curve":
                pid = iu
            else:
                iv = o.bv.interval(v) - o.bv.deg
                pid = ctx.call("patch_pos2id", o.real.patch_pos2id, iu, iv)
                back = ctx.call("patch_id2pos", o.real.patch_id2pos, pid)
                ctx.expect(tuple(back) == (iu, iv) and pid == iu * n[1] + iv, "patch-id", lambda: "patch %r has id %r, which is patch %r" % ((iu, iv), pid, back))
            b = bx[pid]
            ok = all(b.min()[i] - TOL * self.size(o) <= x[i] <= b.max()[i] + TOL * self.size(o) for i in range(3))
            ctx.expect(ok, "boxes", lambda: "point %r of patch %r is outside its box %r..%r" % (list(x), pid, b.min(), b.max()))
            sc = 1e-6 * self.size(o)
            probe = bih.AABB([[float(c) - sc for c in x], [float(c) + sc for c in x]])
            hit = ctx.call("find_box", tree.find_box, probe)
            ctx.expect(pid in [int(h) for h in hit], "boxes", lambda: "the tree does not find patch %r at its point %r, found %r" % (pid, list(x), list(hit)))
        ctx.probe("boxes")

    def size(self, o):
        if o.kind in ("z", "grid"):
            s, t = self.zmap(o)
            return 1.0 + float(np.max(np.abs(self.cur_quad(o)))) + abs(s) * float(np.max(np.abs(o.P))) + abs(t)
        return 1.0 + float(np.max(np.abs(o.P)))

    # -- what every reader must see ----------------------------------------
    def look(self, what):
        for i, o in enumerate(self.objs):
            self.look_one("after %s, object %d (%s)" % (what, i, o.kind), o)

    def near(self, cls, who, got, want, tol):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.ctx.expect(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), cls,
                        lambda: "%s gives %r, expected %r" % (who, got.tolist(), want.tolist()))

    def look_one(self, who, o):
        ctx, real = self.ctx, o.real
        tol = TOL * self.size(o)
        pts = self.opts(o)
        if o.kind == "curve":
            for u, _ in pts:
                self.near("eval", who + " eval(%r)" % u, ctx.call("eval", real.eval, u), self.value(o, u), tol)
            arr = ctx.call("eval_array", real.eval_array, np.array([u for u, _ in pts]))
            self.near("eval", who + " eval_array", arr, [self.value(o, u) for u, _ in pts], tol)
            self.box(who, o, [self.value(o, u) for u, _ in pts])
            return
        want = np.array([self.value(o, u, v) for u, v in pts])
        uv = np.array(pts, dtype=float)
        if o.kind != "grid":
            for (u, v), w in zip(pts, want):
                self.near("eval", who + " eval(%r, %r)" % (u, v), ctx.call("eval", real.eval, u, v), w, tol)
        arr = ctx.call("eval_array", real.eval_array, uv)
        self.near("eval", who + " eval_array", arr, want, tol)
        arr[...] = np.nan                       # the result belongs to the caller
        ctx.expect(np.array_equal(uv, np.array(pts, dtype=float)), "caller-array", "eval_array changed the points it was given")
        if o.kind == "surf":
            self.box(who, o, want)
            return
        self.near("eval-z", who + " z_eval_array", ctx.call("z_eval_array", real.z_eval_array, uv), want[:, 2], tol)
        self.near("uv-xy", who + " uv_to_xy", ctx.call("uv_to_xy", real.uv_to_xy, uv), want[:, :2], tol)
        c = self.value(o, 0.5, 0.5)
        self.near("center", who + " center", ctx.call("center", real.center), c, tol)
        q = self.cur_quad(o)
        self.near("quad", who + " quad", real.quad, q, tol)
        if np.allclose(o.quad[3], o.quad[0] + o.quad[2] - o.quad[1], rtol=0, atol=1e-9 * self.size(o)):
            inner = [i for i, p in enumerate(pts) if 0 < p[0] < 1 and 0 < p[1] < 1]
            if inner:
                xy = want[inner][:, :2].copy()
                e = q[2] - q[1], q[0] - q[1]
                cond = self.size(o) * max(np.max(np.abs(e[0])), np.max(np.abs(e[1]))) / abs(cross(*e))
                self.near("xy-uv", who + " xy_to_uv", ctx.call("xy_to_uv", real.xy_to_uv, xy), uv[inner], TOL * (1 + cond))
                slope = 1 + cond * 20
                if o.kind == "z":
                    self.near("eval-xy", who + " eval_xy_array", ctx.call("eval_xy_array", real.eval_xy_array, xy), want[inner], tol * slope)
                self.near("eval-xy", who + " z_eval_xy_array", ctx.call("z_eval_xy_array", real.z_eval_xy_array, xy), want[inner][:, 2], tol * slope)
        self.box(who, o, want)
        if o.kind == "z":
            gx, gz = ctx.call("get_transform", real.get_transform)
            self.near("get-transform", who + " get_transform XY", gx, [[1, 0, 0], [0, 1, 0]] if o.xy is None else o.xy, 1e-12)
            self.near("get-transform", who + " get_transform Z", gz, [1, 0] if o.zt is None else o.zt, 1e-12)
            for a in (gx, gz):
                if isinstance(a, np.ndarray):
                    a[...] = 123.5              # the result belongs to the caller

    def box(self, who, o, vals):
        b = np.asarray(self.ctx.call("aabb", o.real.aabb), dtype=float)
        dim = len(vals[0])
        self.ctx.expect(b.shape == (2, dim), "aabb", lambda: "%s aabb has shape %r, dimension is %d" % (who, b.shape, dim))
        t = TOL * self.size(o)
        for x in vals:
            self.ctx.expect(bool(np.all(b[0] - t <= x) and np.all(x <= b[1] + t)), "aabb",
                            lambda: "%s point %r is outside the bounding box %r" % (who, list(x), b.tolist()))
        # and the box is the box of the control points
        if o.kind in ("z", "grid"):
            s, z = self.zmap(o)
            zz = [s * float(np.min(o.P)) + z, s * float(np.max(o.P)) + z]
            q = self.cur_quad(o)
            want = [list(q.min(axis=0)) + [min(zz)], list(q.max(axis=0)) + [max(zz)]]
        else:
            P = o.P.reshape(-1, o.P.shape[-1])[:, :dim]
            want = [P.min(axis=0), P.max(axis=0)]
        self.near("aabb", who + " aabb", b, want, t)

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("transform-after-copy", 0) > 0


SCENARIO = C19()
