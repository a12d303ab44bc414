"""C21: fitting an elevation surface to points gives the regularized least
squares surface of those points and the parameters in force, the same in every
process and after any history of earlier, repeated and failed fits."""
import random
import warnings

import numpy as np

from ..core import Injected, Scenario
from .. import simdisk
from . import splines as sp

LG = ((-0.7745966692414834, 5 / 9), (0.0, 8 / 9), (0.7745966692414834, 5 / 9))


def spans(n, diff):
    """Gram matrix of the degree 2 equidistant basis (or of its derivative)."""
    b = sp.Basis.equidistant(2, n)
    G = np.zeros((b.size, b.size))
    h = 1e-3 / n
    for i in range(n):
        for x, w in LG:
            t = (i + 0.5 + 0.5 * x) / n
            if diff:
                # the derivative of a quadratic is a central difference exactly
                v = (b.values(t + h) - b.values(t - h)) / (2 * h)
            else:
                v = b.values(t)
            G += w * 0.5 / n * np.outer(v, v)
    return G


class C21(Scenario):
    ID = "C21"
    QUICK_RUNS = 5000
    THOROUGH_RUNS = 300000
    QUICK_WALL = 60
    RULE = ("histories of fits over several point sets (with and without weights, in memory, from a file on the simulated disk, from grid "
            "surfaces at map coordinates) with parameters given to the call, set on the object or left from earlier calls; process "
            "entropy changed between fits; solver failures and refused parameters injected and the fit repeated; each result is compared "
            "with the normal equations assembled independently; non-trivial = a fit was repeated after entropy changed or a failure")
    REAL = ["bgem.bspline.bspline_approx", "bgem.bspline.bspline", "scipy"]
    STUB = ["disk: in-memory raw file"]
    ASSUME = ["points are not within roundoff of the border of the quadrilateral unless they are grid points of that border"]
    STATE_MEASURE = "distinct (point set, parameters) fitted"

    def gen(self, rng, tier):
        sets = [self.gen_set(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        for _ in range(rng.choice([2, 4, 7])):
            r = rng.random()
            o = rng.randrange(4)
            if r < 0.5:
                kw = {}
                if rng.random() < 0.5:
                    kw["nuv"] = [rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 4])]
                if rng.random() < 0.35:
                    kw["quad"] = rng.choice(["unit", "wide", "half", "default"])
                if rng.random() < 0.3:
                    kw["reg"] = rng.choice([1e-3, 0.1, 1e-6, 1.0])
                ops.append(["fit", o, kw])
            elif r < 0.6:
                ops.append(["set", o, rng.choice(["quad", "nuv", "reg", "set_quad"]), rng.choice(["unit", "wide"]), rng.choice([1, 2, 4]), rng.choice([1, 3])])
            elif r < 0.75:
                ops.append(["entropy", rng.randrange(100)])
            elif r < 0.87:
                ops.append(["fail", o, rng.choice(["svds", "eigsh", "spsolve", "singular", "bad-quad", "bad-nuv"])])
            elif r < 0.91:
                ops.append(["inplace", o, rng.choice(["quad", "quad", "nuv"]), rng.choice(["unit", "wide", "half"]), rng.choice([1, 2, 4])])
            elif r < 0.92:
                ops.append(self.gen_flat(rng))
            elif r < 0.935:
                ops.append(self.gen_curve(rng))
            elif r < 0.945:
                ops.append(["grid-fn", o, [rng.choice([1, 2, 3]), rng.choice([1, 2, 4])]])
            elif r < 0.96:
                ops.append(["default", o, rng.choice(["quad", "nuv"])])
            else:
                ops.append(["transform", o])
        ops.append(["fit", 0, {}])
        return {"config": {"sets": sets}, "ops": ops}

    @staticmethod
    def gen_flat(rng):
        num = lambda: rng.choice([0, 1, -1, 2, 5, -3, 0.5, 700, 0.25])
        whole = rng.random() < 0.3
        k = rng.choice(["line", "plane", "plane", "quad", "quad"])
        n, dim = {"line": 2, "plane": 3, "quad": 4}[k], (rng.choice([2, 3]) if k == "line" else 3)
        P = [[int(num()) if whole else num() for _ in range(dim)] for _ in range(n)]
        over = rng.choice([0, 0, 0.25, 0.125, 1.0])
        if k == "quad" and (over or rng.random() < 0.3):
            P[3] = [a + c - b for a, b, c in zip(*P[:3])]
        return ["flat", 0, k, P, over, rng.choice(["list", "array", "tuple"])]

    @staticmethod
    def gen_curve(rng):
        n, dim = rng.choice([5, 8, 15, 40]), rng.choice([2, 3])
        shape = rng.choice(["line", "arc", "zigzag", "walk"])
        t = [i / (n - 1) for i in range(n)]
        x = 0
        P = []
        for i, v in enumerate(t):
            x = x + rng.choice([0.1, 0.3])
            P.append([x if shape == "walk" else 4 * v, {"line": 2 * v, "arc": 4 * v * (1 - v), "zigzag": float(i % 2), "walk": rng.randrange(-8, 9) / 16}[shape], v * v][:dim])
        kw = {}
        if rng.random() < 0.5:
            kw["tol"] = rng.choice([1e-4, 0.01, 0.1, 1.0, 0])
        if rng.random() < 0.5:
            kw["degree"] = rng.choice([1, 2, 3, 4])
        return ["curve", 0, P, kw]

    def gen_set(self, rng):
        kind = rng.choice(["cloud", "cloud", "cloud", "file", "grid"])
        s = rng.choice([1, 1, 1, 1000, 0.01])
        o = [rng.choice([0, 0, 3, 700]) * s, rng.choice([0, -1, 1100]) * s]
        turn = rng.choice([[1, 0, 0, 1], [1, 0, 0, 1], [0.8, -0.6, 0.6, 0.8], [2, 1, 0, 1]])
        shape = rng.choice(["const", "plane", "random", "wave", "zero"])
        if kind == "grid":
            return {"kind": kind, "n": [rng.choice([3, 4, 6]), rng.choice([3, 5])], "seed": rng.randrange(10 ** 6), "shape": shape, "s": s, "o": [x * rng.choice([1, 1000]) for x in o], "turn": turn,
                    "xy": [rng.choice([1, 2]), rng.choice([0, 10])] if rng.random() < 0.4 else None}
        n = rng.choice([12, 25, 40, 40, 70, 70, 250])
        w = rng.random() < 0.35
        return {"kind": kind, "n": n, "seed": rng.randrange(10 ** 6), "shape": shape, "s": s, "o": o, "turn": turn, "w": w,
                "io": dict({"chunk": rng.choice([0, 1, 7, 64]), "buf": rng.choice([0, 16, 100]), "eintr": rng.choice([0, 0, 3])},
                           **({"kind": "EIO", "at": rng.randrange(0, 900)} if rng.random() < 0.4 else {})) if kind == "file" else {}}

    def z(self, rng, shape, u, v):
        if shape == "const":
            return 3.25
        if shape == "zero":
            return 0.0
        if shape == "plane":
            return 2 * u - 5 * v + 1
        if shape == "wave":
            return round(4 * u * (1 - u) * v - 3 * v * v, 6)
        return rng.randrange(-40, 40) / 8

    # -- execution -----------------------------------------------------------
    def execute(self, plan, ctx):
        disk = simdisk.SimDisk(ctx)
        self.ctx = ctx
        with simdisk.mounted(disk):
            self.go(plan, ctx, disk)

    def go(self, plan, ctx, disk):
        from bgem.bspline import bspline as bs, bspline_approx as ba
        self.bs, self.ba = bs, ba
        np.random.seed(1)
        self.F = []
        for i, s in enumerate(plan["config"]["sets"]):
            self.F.append(self.make(i, s, disk))
        self.memo = {}
        self.results = []
        self.flats = []
        self.disturbed = False
        for op in plan["ops"]:
            k = op[0]
            if k == "entropy":
                np.random.seed(op[1])
                np.random.rand(op[1] % 5)
                self.disturbed = True
                ctx.fault("entropy")
                continue
            f = self.F[op[1] % len(self.F)]
            if k == "fit":
                self.fit(f, op[2])
            elif k == "set":
                if op[2] == "quad":
                    f["a"].quad = f["quad"] = self.quad(f, op[3])
                elif op[2] == "set_quad":
                    if f["spec"]["kind"] == "grid":
                        continue
                    if op[5] == 3 and op[4] == 4:
                        ctx.call("set_quad", f["a"].set_quad)
                        q = np.array([[0.0, 1.0], [0, 0], [1, 0], [1, 1]])
                        ctx.expect(np.array_equal(f["a"].quad, q), "set-quad", lambda: "default of set_quad is %r" % (f["a"].quad,))
                    else:
                        q = self.quad(f, op[3])
                        ctx.call("set_quad", f["a"].set_quad, q)
                    f["quad"] = q
                elif op[2] == "nuv":
                    f["a"].nuv = f["nuv"] = (op[4], op[5])
                else:
                    f["a"].regularization_weight = f["reg"] = 0.02 * op[4]
            elif k == "inplace":
                # parameters changed in the arrays the approximation was given
                a = f["a"]
                if op[2] == "nuv":
                    a.nuv = n = np.array([op[4], 2])
                    f["nuv"] = (op[4], 2)
                    self.fit(f, {})
                    n[:] = (op[4] + 1, 3)
                    f["nuv"] = (op[4] + 1, 3)
                else:
                    if f["grid"] or a.quad is None:
                        continue
                    q = self.quad(f, op[3])
                    a.quad[:] = q
                    f["quad"] = q
                self.disturbed = True
                ctx.fault("inplace")
            elif k == "grid-fn":
                self.grid_fn(f, op[2])
            elif k == "flat":
                self.flat(*op[2:])
            elif k == "curve":
                self.curve(*op[2:])
            elif k == "fail":
                self.fail(f, op[2])
            elif k == "default":
                self.default(f, op[2])
            elif k == "transform":
                if self.results:
                    r = self.results[op[1] % len(self.results)]
                    if r["live"] is not None:
                        ctx.call("transform", r["surf"].transform, np.array([[1.0, 0, 3], [0, 2, 0]]), np.array([2.0, 1.0]))
                        r["live"] = None
            self.old()
            ctx.log(k, f["quad"] if f["quad"] is None else np.asarray(f["quad"]).tolist(), f["nuv"] if f["nuv"] is None else [int(x) for x in f["nuv"]], float(f["reg"]))

    def xy(self, f, u, v):
        s, o, t = f["s"], f["o"], f["turn"]
        return [s * (t[0] * u + t[1] * v) + o[0], s * (t[2] * u + t[3] * v) + o[1]]

    def quad(self, f, name):
        if name == "default":
            return None
        a, b = {"unit": (0, 1), "wide": (-0.2, 1.3), "half": (0.1, 0.8)}[name]
        return np.array([self.xy(f["spec"], *p) for p in ((a, b), (a, a), (b, a), (b, b))], dtype=float)

    def make(self, i, s, disk):
        ctx = self.ctx
        rng = random.Random(s["seed"])          # the points are a function of the plan
        if s["kind"] == "grid":
            nu, nv = max(2, s["n"][0]), max(3, s["n"][1])
            zs = [self.z(rng, s["shape"], i / (nu - 1), j / (nv - 1)) for i in range(nu) for j in range(nv)]
            q = [self.xy(s, *p) for p in ((0, 1), (0, 0), (1, 0))]
            q = np.array(q, dtype=float)
            P = np.array([list(q[1] + (q[2] - q[1]) * (a / (nu - 1)) + (q[0] - q[1]) * (b / (nv - 1))) + [zs[a * nv + b]] for a in range(nu) for b in range(nv)])
            g = ctx.call("GridSurface", self.bs.GridSurface, P)
            uv = np.array([[a / (nu - 1), b / (nv - 1)] for a in range(nu) for b in range(nv)])
            z = P[:, 2].copy()
            quad = np.vstack([q, q[0] + q[2] - q[1]])
            if s.get("xy"):
                k, d = s["xy"]
                ctx.call("transform", g.transform, np.array([[k, 0.0, d], [0, k, -d]]), np.array([k, float(d)]))
                c = quad.mean(axis=0)
                quad = (quad - c) * k + c + [d, -d]
                zc = float(sp.surface(sp.Basis.equidistant(1, nu - 1), sp.Basis.equidistant(1, nv - 1), z.reshape(nu, nv), 0.5, 0.5))
                z = (z - zc) * k + zc + d
            a = ctx.call("approx_from_grid_surface", self.ba.SurfaceApprox.approx_from_grid_surface, g)
            e = quad[2] - quad[1], quad[0] - quad[1]
            P = np.array([list(quad[1] + e[0] * p[0] + e[1] * p[1]) + [zz] for p, zz in zip(uv, z)])
            ctx.expect(a.quad is not None and np.allclose(a.quad, quad, rtol=1e-9, atol=1e-9 * s["s"]), "grid-quad", lambda: "quad of the grid approximation is %r, expected %r" % (a.quad, quad))
            return {"spec": s, "a": a, "g": g, "P": P, "w": None, "quad": np.array(a.quad), "quad0": np.array(a.quad), "nuv": None, "reg": 0.001, "grid": True, "id": i}
        # away from the borders of all the quadrilaterals used
        uv = [[rng.randrange(-3, 35) / 32 + 0.007, rng.randrange(-3, 35) / 32 + 0.009] for _ in range(max(9, s["n"]))]
        P = np.array([self.xy(s, *p) + [self.z(rng, s["shape"], *p)] for p in uv], dtype=float)
        W = np.array([rng.choice([1, 2, 0.5, 10, 0.1]) for _ in uv])
        A = np.column_stack([P, W]) if s["w"] else P.copy()
        if s["kind"] == "file":
            path = simdisk.PREFIX + "points%d.txt" % i
            data = "".join(" ".join(repr(float(x)) for x in r) + "\n" for r in A).encode()
            disk.files[path] = bytearray(data)
            disk.arm(s["io"])
            if s["io"].get("kind"):
                a, e = ctx.attempt(self.ba.SurfaceApprox.approx_from_file, path)
                ctx.expect(e is not None or s["io"]["at"] >= len(data), "io-error", "points were read although the disk failed")
                ctx.expect(e is None or isinstance(e, OSError), "io-error", lambda: "a failing disk ended in %r" % (e,))
                disk.arm({k: v for k, v in s["io"].items() if k not in ("kind", "at")})
            if s["seed"] % 3 == 0:
                # a copy that was cut off
                rows = data.decode().split("\n")
                k = [len(rows) - 2, s["seed"] % (len(rows) - 1)][s["seed"] % 2]
                rows[k] = " ".join(rows[k].split()[:1 + s["seed"] % 2])
                disk.files[path] = bytearray("\n".join(rows).encode())
                _, e = ctx.attempt(self.ba.SurfaceApprox.approx_from_file, path)
                ctx.expect(e is not None, "torn-file", "a file with an incomplete line was read")
                ctx.fault("torn-file")
                disk.files[path] = bytearray(data)
            a = ctx.call("approx_from_file", self.ba.SurfaceApprox.approx_from_file, path)
        else:
            a = ctx.call("SurfaceApprox", self.ba.SurfaceApprox, A)
        return {"spec": s, "a": a, "P": P, "A": A, "keep": A.copy(), "w": W if s["w"] else None,
                "quad": None, "nuv": None, "reg": 0.001, "grid": False, "id": i}

    def uv(self, f, quad):
        M = np.column_stack([quad[2] - quad[1], quad[0] - quad[1]])
        return np.linalg.solve(M, (f["P"][:, :2] - quad[1]).T).T

    def inside(self, f, quad):
        """Indices of points in the quadrilateral, None if it is a close call."""
        uv = self.uv(f, quad)
        d = np.minimum(uv, 1 - uv).min(axis=1)
        if f["grid"]:
            return np.where(d > -1e-6)[0] if not np.any((d < -1e-12 - 1e-9) & (d > -1e-3)) else None
        return None if np.any(np.abs(d) < 1e-6) else np.where(d > 0)[0]

    def default(self, f, what):
        ctx, a = self.ctx, f["a"]
        if what == "quad":
            q = ctx.call("compute_default_quad", a.compute_default_quad)
            f["quad"] = q
            self.check_quad(f, q)
        else:
            if f["quad"] is None:
                q0 = None
            else:
                q0 = f["quad"]
                i = self.inside(f, q0)
                if i is None:
                    return
            n = ctx.call("compute_default_nuv", a.compute_default_nuv)
            if q0 is None:
                f["quad"] = a.quad
                self.check_quad(f, f["quad"])
                i = None
            f["nuv"] = tuple(int(x) for x in n)
            ctx.expect(len(n) == 2 and min(n) >= 1, "default-nuv", lambda: "default number of intervals is %r" % (n,))
            if i is not None:
                ctx.expect((f["nuv"][0] + 2) * (f["nuv"][1] + 2) <= max(9, len(i)) or min(f["nuv"]) == 1, "default-nuv", lambda: "default %r gives more unknowns than %d points" % (f["nuv"], len(i)))
            self.fresh_nuv(f)
        ctx.probe("default-" + what)

    def fresh_nuv(self, f):
        """The default number of intervals is that of a new approximation of the same points."""
        ctx = self.ctx
        idx = self.inside(f, f["quad"])
        if f["grid"] and idx is None:
            return
        # what lies outside of the quadrilateral does not matter
        A = f["P"] if f["grid"] else f["keep"]
        b = ctx.call("SurfaceApprox", self.ba.SurfaceApprox, A.copy() if idx is None or len(idx) < 9 else A[idx])
        b.quad = np.array(f["quad"], dtype=float)
        n = ctx.call("compute_default_nuv", b.compute_default_nuv)
        ctx.expect(tuple(int(x) for x in n) == tuple(f["nuv"]), "default-nuv", lambda: "default number of intervals is %r, of a new approximation of these points over the same quadrilateral %r" % (f["nuv"], n))

    def check_quad(self, f, q):
        ctx = self.ctx
        q = np.asarray(q, dtype=float)
        ctx.expect(q.shape == (4, 2), "default-quad", lambda: "default quad is %r" % (q,))
        e = q[2] - q[1], q[0] - q[1]
        size = np.ptp(f["P"][:, :2], axis=0).max() + 1e-9 * np.abs(f["P"][:, :2]).max()
        ctx.expect(np.allclose(q[3], q[0] + q[2] - q[1], atol=1e-9 * np.abs(q).max()) and abs(e[0] @ e[1]) <= 1e-7 * size * size, "default-quad", lambda: "default quad %r is not a rectangle" % (q.tolist(),))
        uv = self.uv(f, q)
        ctx.expect(uv.min() > -1e-6 and uv.max() < 1 + 1e-6, "default-quad", lambda: "default quad %r does not contain all points" % (q.tolist(),))
        # no direction of an edge of the hull gives a smaller one
        P = f["P"][:, :2] - f["P"][:, :2].mean(axis=0)
        H = sp.hull(P)
        T = [np.arctan2(b[1] - a[1], b[0] - a[0]) for a, b in zip(H, H[1:] + H[:1])]
        area = abs(e[0][0] * e[1][1] - e[0][1] * e[1][0])
        best = min(np.ptp(P @ [np.cos(t), np.sin(t)]) * np.ptp(P @ [-np.sin(t), np.cos(t)]) for t in T)
        ctx.expect(area <= best * (1 + 1e-6), "default-quad", lambda: "default quad has area %r, a turned one %r" % (area, best))

    def flat(self, kind, P, over, how):
        """Line, plane and bilinear surface given by their corners."""
        ctx, ba = self.ctx, self.ba
        A = {"list": lambda: [tuple(p) for p in P], "tuple": lambda: tuple(tuple(p) for p in P), "array": lambda: np.array(P)}[how]()
        keep = repr(A)
        name, fn = {"line": ("line", ba.line), "plane": ("plane_surface", ba.plane_surface), "quad": ("bilinear_surface", ba.bilinear_surface)}[kind]
        s = ctx.call(name, fn, A, over) if over else ctx.call(name, fn, A)
        ctx.expect(repr(A) == keep, "caller-array", lambda: name + " changed the points it was given")
        if how == "array":
            A[...] = 77
        c = np.array(P, dtype=float)
        tol = 1e-9 * (1 + np.abs(c).max())
        T = [-over, 0.0, 0.375, 0.5, 1.0, 1.0 + over]
        at = []
        if kind == "line":
            for t in T:
                at.append((ctx.call("eval", s.eval, t), c[0] + (c[1] - c[0]) * t, t))
        else:
            if kind == "plane":
                c = np.array([c[0], c[1], c[1] + c[2] - c[0], c[2]])
            for u in T:
                for v in T[::2] + [1.0 + over]:
                    at.append((ctx.call("eval", s.eval, u, v), (1 - u) * (1 - v) * c[0] + u * (1 - v) * c[1] + u * v * c[2] + (1 - u) * v * c[3], (u, v)))
        for got, want, t in at:
            got = np.asarray(got, dtype=float)
            ctx.expect(got.shape == want.shape and np.all(np.abs(got - want) <= tol * (1 + over) ** 2), "flat", lambda: "%s of %r with overhang %r is %r at %r, expected %r" % (name, P, over, got.tolist(), t, want.tolist()))
        self.flats.append([s, kind, T, [np.asarray(x[0]).tolist() for x in at]])
        ctx.probe("flat-" + kind)

    def curve(self, P, kw):
        """A curve fitted to a sequence of points."""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", RuntimeWarning)    # the smoothing did not converge, it is still checked
            self.curve_fit(P, kw)

    def curve_fit(self, P, kw):
        ctx = self.ctx
        A = np.array(P, dtype=float)
        k, tol = kw.get("degree", 3), kw.get("tol", 0.01)
        if len(A) <= k + 1:
            return
        c = ctx.call("curve_from_grid", self.ba.curve_from_grid, A, **kw)
        ctx.expect(np.array_equal(A, np.array(P, dtype=float)), "caller-array", "curve_from_grid changed the points it was given")
        lo, hi = (float(x) for x in c.basis.domain)
        ev = lambda t: np.asarray(c.eval(t), dtype=float)
        ends = ctx.call("eval", ev, lo), ctx.call("eval", ev, hi)
        ctx.expect(np.allclose(ends[0], A[0], atol=1e-9) and np.allclose(ends[1], A[-1], atol=1e-9), "curve-ends", lambda: "a curve fitted to points from %r to %r goes from %r to %r" % (P[0], P[-1], ends[0].tolist(), ends[1].tolist()))
        n = 12 * len(A)
        S = np.array([ev(lo + (hi - lo) * i / n) for i in range(n + 1)])
        step = np.sqrt(((S[1:] - S[:-1]) ** 2).sum(axis=1)).max()
        for p in A:
            d = float(np.sqrt(((S - p) ** 2).sum(axis=1)).min())
            ctx.expect(d <= 1.01 * np.sqrt(tol) + step + 1e-9, "curve-tolerance", lambda: "a curve fitted with tolerance %r is %r from the point %r" % (tol, d, p.tolist()))
        key = ("curve", repr(P), repr(sorted(kw.items())))
        bits = S.tobytes()
        ctx.expect(self.memo.setdefault(key, bits) == bits, "not-repeatable", "the same fit of a curve gave another one")
        if self.disturbed:
            ctx.call("curve_from_grid", self.ba.curve_from_grid, A[::-1].copy(), **kw)
        c = ctx.call("curve_from_grid", self.ba.curve_from_grid, A, **kw)
        ctx.expect(np.array([ev(lo + (hi - lo) * i / n) for i in range(n + 1)]).tobytes() == bits, "not-repeatable", "the same fit of a curve gave another one")
        A[...] = -5
        ctx.expect(np.array([ev(lo + (hi - lo) * i / n) for i in range(n + 1)]).tobytes() == bits, "caller-array", "a fitted curve follows the array of points it was given")
        ctx.probe("curve-fit")

    def fail(self, f, kind):
        """A failure in the middle of a fit, or refused parameters."""
        ctx, a = self.ctx, f["a"]
        before = a.surface
        if kind.startswith("bad"):
            kw = {"quad": np.array([[0.0, 0], [1, 1], [2, 2], [1, 1]])} if kind == "bad-quad" else {"nuv": (0, -1), "quad": self.quad(f, "unit")}
            _, e = ctx.attempt(a.compute_approximation, **kw)
            ctx.expect(e is not None, "bad-parameters", lambda: "a fit with %s succeeded" % kind)
            # whatever was stored, the next fit gets good ones
            a.quad = f["quad"] = self.quad(f, "unit")
            a.nuv = f["nuv"] = (2, 2)
        else:
            mod = self.ba.scipy.sparse.linalg
            name = "spsolve" if kind == "singular" else kind
            orig = getattr(mod, name)
            hits = [0]

            def broken(*args, **kw):
                hits[0] += 1
                if kind == "singular":      # that is what the solver does with a singular matrix
                    x = orig(*args, **kw)
                    x[hits[0] % len(x)::3] = np.nan
                    return x
                raise Injected("solver failed")
            setattr(mod, name, broken)
            try:
                q = self.quad(f, "unit") if f["quad"] is None else f["quad"]
                n = (2, 3) if f["nuv"] is None else f["nuv"]
                f["quad"], f["nuv"] = q, n
                _, e = ctx.attempt(a.compute_approximation, quad=q, nuv=n)
            finally:
                setattr(mod, name, orig)
            if not hits[0]:
                return
            ctx.expect(e is not None, "failed-solver", lambda: "a fit whose %s failed returned a surface" % kind)
            a.quad, a.nuv = f["quad"], f["nuv"]
        ctx.expect(a.surface is before, "failed-fit", "a failed fit replaced the surface of the approximation")
        self.disturbed = True
        ctx.fault("fit-" + kind)

    def fit(self, f, kw):
        ctx, a = self.ctx, f["a"]
        args = {}
        if "nuv" in kw:
            args["nuv"] = f["nuv"] = tuple(kw["nuv"])
        if "quad" in kw:
            args["quad"] = f["quad"] = self.quad(f, kw["quad"])
        if "reg" in kw:
            args["regularization_weight"] = f["reg"] = kw["reg"]
        idx = None
        if f["quad"] is not None:
            idx = self.inside(f, f["quad"])
            if idx is None or len(idx) < 1:
                # too close to judge: give it a clear one
                args["quad"] = f["quad"] = self.quad(f, "wide")
                idx = self.inside(f, f["quad"])
                if idx is None or len(idx) < 1:
                    args["quad"] = f["quad"] = None
                    idx = None
        if f["quad"] is not None and f["nuv"] is None and f["a"].nuv is not None:
            f["nuv"] = f["a"].nuv
            self.fresh_nuv(f)
        s = ctx.call("compute_approximation", a.compute_approximation, **args)
        ctx.expect(s is a.surface, "result", "the surface returned is not the surface of the approximation")
        if "keep" in f:
            ctx.expect(np.array_equal(f["A"], f["keep"]), "caller-array", "a fit changed the points it was given")
        if f["quad"] is None:
            self.check_quad(f, a.quad)
            f["quad"] = a.quad
        if f["nuv"] is None:
            f["nuv"] = tuple(int(x) for x in a.nuv)
            ctx.expect(min(f["nuv"]) >= 1, "default-nuv", lambda: "default number of intervals is %r" % (f["nuv"],))
            self.fresh_nuv(f)
        quad = np.array(f["quad"], dtype=float)
        nuv = tuple(int(x) for x in f["nuv"])
        Z = self.poles(s, nuv, quad)
        key = (f["id"], quad.tobytes(), nuv, f["reg"])
        bits = Z.tobytes() + np.float64(a.error).tobytes()
        if key in self.memo:
            ctx.expect(self.memo[key] == bits, "not-repeatable", lambda: "the same fit of %d points to %r intervals gave different surfaces" % (len(f["P"]), nuv))
            ctx.probe("repeated")
            if self.disturbed:
                ctx.probe("repeated-disturbed")
        self.memo[key] = bits
        if idx is not None:
            self.normal(f, s, a, idx, quad, nuv, Z)
        self.results.append({"surf": s, "live": bits, "Z": Z.tobytes(), "nuv": nuv, "quad": quad})
        ctx.log("fit", nuv, Z.tolist())
        ctx.state(repr(key))
        ctx.probe("fit")
        if f["w"] is not None:
            ctx.probe("weighted-fit")

    def grid_fn(self, f, nuv):
        """The shortcut for grid surfaces is the same fit."""
        if not f["grid"]:
            return
        ctx = self.ctx
        s = ctx.call("surface_from_grid", self.ba.surface_from_grid, f["g"], tuple(nuv))
        Z = self.poles(s, nuv, f["quad0"])
        a = ctx.call("approx_from_grid_surface", self.ba.SurfaceApprox.approx_from_grid_surface, f["g"])
        t = ctx.call("compute_approximation", a.compute_approximation, nuv=tuple(nuv))
        idx = self.inside(f, f["quad0"])
        if idx is not None:
            g = dict(f, reg=0.001)
            self.normal(g, t, a, idx, f["quad0"], tuple(nuv), Z)
        ctx.expect(np.array_equal(Z, self.poles(t, nuv, f["quad0"])), "grid-shortcut", "surface_from_grid is not the fit of the grid")
        ctx.probe("grid-shortcut")

    def old(self):
        for s, kind, T, at in self.flats[-3:]:
            now = [s.eval(t) for t in T] if kind == "line" else [s.eval(u, v) for u in T for v in T[::2] + [T[-1]]]
            self.ctx.expect([np.asarray(x).tolist() for x in now] == at, "old-result", lambda: "a %s made before was changed by a later step" % kind)
        for r in self.results[-4:]:
            if r["live"] is not None:
                Z = self.poles(r["surf"], r["nuv"], r["quad"])
                self.ctx.expect(Z.tobytes() == r["Z"], "old-result", "a surface fitted before was changed by a later step")

    def poles(self, s, nuv, quad):
        """Poles of the fitted surface from its values alone."""
        ctx = self.ctx
        B = [sp.Basis.equidistant(2, n) for n in nuv]
        g = [[sum(b.knots[i + 1:i + 3]) / 2 for i in range(b.size)] for b in B]
        uv = np.array([[x, y] for x in g[0] for y in g[1]])
        val = np.asarray(ctx.call("eval_array", s.eval_array, uv), dtype=float)
        ctx.expect(val.shape == (len(uv), 3), "shape", lambda: "eval_array of the fit has shape %r" % (val.shape,))
        want = quad[1] + np.outer(uv[:, 0], quad[2] - quad[1]) + np.outer(uv[:, 1], quad[0] - quad[1])
        size = np.abs(quad).max()
        ctx.expect(np.all(np.abs(val[:, :2] - want) <= 1e-9 * size), "fit-domain", lambda: "the fitted surface does not lie over its quadrilateral %r" % (quad.tolist(),))
        V = val[:, 2].reshape(B[0].size, B[1].size)
        C = [np.array([b.values(t) for t in gg]) for b, gg in zip(B, g)]
        Z = np.linalg.solve(C[0], np.linalg.solve(C[1], V.T).T)
        return Z

    def normal(self, f, s, a, idx, quad, nuv, Z):
        """The fit satisfies the normal equations of its points and parameters."""
        ctx = self.ctx
        uv = np.clip(self.uv(f, quad)[idx], 0, 1)
        z = f["P"][idx, 2]
        w = np.ones(len(idx)) if f["w"] is None else f["w"][idx]
        bu, bv = (sp.Basis.equidistant(2, n) for n in nuv)
        B = np.array([np.outer(bu.values(u), bv.values(v)).ravel() for u, v in uv])
        Mu, Mv, Du, Dv = spans(nuv[0], 0), spans(nuv[1], 0), spans(nuv[0], 1), spans(nuv[1], 1)
        A = np.kron(Du, Mv) + np.kron(Mu, Dv)
        BB = B.T @ (B * w[:, None])
        b = B.T @ (w * z)
        lam = f["reg"] * np.linalg.norm(BB, 2) / np.linalg.norm(A, 2)
        x = Z.ravel()
        scale = 1e-3 + np.abs(z).max()
        bound = np.linalg.norm(BB, 2) * scale
        ok = False
        r0 = b - BB @ x
        Ax = A @ x
        # the norms are estimated with a relative tolerance of 1e-2
        c = float(r0 @ Ax) / float(Ax @ Ax) if float(Ax @ Ax) > (1e-9 * np.linalg.norm(A, 2) * scale) ** 2 else lam
        c = min(max(c, 0.95 * lam), 1.05 * lam)
        res = np.abs(r0 - c * Ax).max()
        ctx.expect(res <= 1e-8 * bound, "not-optimal",
                   lambda: "the fit of %d points (weights %s) to %r intervals, regularization %r is not the regularized least squares surface: residual %g of %g, coefficient %g, expected %g"
                   % (len(idx), f["w"] is not None, nuv, f["reg"], res, bound, float(r0 @ Ax) / max(1e-300, float(Ax @ Ax)), lam))
        err = float(np.abs(B @ x - z).max())
        ctx.expect(abs(float(a.error) - err) <= 1e-7 * scale, "error", lambda: "reported error is %r, the largest difference is %r" % (float(a.error), err))
        # values at the points, through the XY interface
        inner = [k for k, p in enumerate(uv) if 1e-6 < min(p) and max(p) < 1 - 1e-6][:5]
        if inner:
            e = quad[2] - quad[1], quad[0] - quad[1]
            cond = np.abs(quad).max() * max(np.abs(e[0]).max(), np.abs(e[1]).max()) / abs(e[0][0] * e[1][1] - e[0][1] * e[1][0])
            got = np.asarray(ctx.call("z_eval_xy_array", s.z_eval_xy_array, f["P"][idx][inner][:, :2]), dtype=float)
            ctx.expect(np.all(np.abs(got - (B @ x)[inner]) <= 1e-10 * (1 + cond) * 40 * (scale + np.abs(x).max())), "fit-xy", lambda: "values at the points are %r, expected %r" % (got.tolist(), (B @ x)[inner].tolist()))

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("repeated-disturbed", 0) > 0


SCENARIO = C21()
