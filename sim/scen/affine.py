"""C18, shapes in general position: simplices, boxes, rectangles, cylinders and
polygons moved by arbitrary affine maps, fractures, exact clipping of convex
shapes, conservation of measure and files written by the factory."""
import math
import os
import shutil
import tempfile

from ..core import HarnessError

SIMPLEX_FACES = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]
BOX_FACES = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def mul(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def rotation(axis, angle):
    """Matrix of the right-handed turn about the axis (Rodrigues)."""
    n = norm(axis)
    x, y, z = (t / n for t in axis)
    c, s = math.cos(angle), math.sin(angle)
    d = 1 - c
    return ((c + x * x * d, x * y * d - z * s, x * z * d + y * s),
            (y * x * d + z * s, c + y * y * d, y * z * d - x * s),
            (z * x * d - y * s, z * y * d + x * s, c + z * z * d))


def apply(m, p):
    return (dot(m[0], p), dot(m[1], p), dot(m[2], p))


def det(m):
    return dot(m[0], cross(m[1], m[2]))


class Shape:
    """Measure, center and, if it is known, the points (and faces) of a shape."""

    def __init__(self, dim, m, c, verts=None, faces=None, normal=None, convex=False, cyl=None):
        self.dim, self.m, self.c, self.verts, self.faces, self.normal, self.convex, self.cyl = dim, m, c, verts, faces, normal, convex, cyl

    def mapped(self, mat, center, shift):
        def f(p):
            return add(add(apply(mat, sub(p, center)), center), shift)
        verts = [f(p) for p in self.verts] if self.verts else None
        if verts:
            return polytope(self.dim, verts, self.faces, self.convex)
        d = abs(det(mat))
        normal, m = self.normal, self.m
        if self.dim == 3:
            m *= d
        elif self.dim == 2:
            # the image of the area vector
            cof = (cross(mat[1], mat[2]), cross(mat[2], mat[0]), cross(mat[0], mat[1]))
            w = apply(cof, normal)
            m *= norm(w)
            normal = mul(w, 1 / norm(w))
        return Shape(self.dim, m, f(self.c), normal=normal, cyl=self.cyl)


def polytope(dim, verts, faces=None, convex=True):
    verts = [tuple(float(x) for x in v) for v in verts]
    if dim == 0:
        return Shape(0, 0.0, verts[0], verts, faces)
    if dim == 1:
        return Shape(1, norm(sub(verts[1], verts[0])), mul(add(*verts), 0.5), verts, faces)
    if dim == 2:
        o = verts[0]
        area, mom, tri = (0.0, 0.0, 0.0), (0.0, 0.0, 0.0), []
        for a, b in zip(verts[1:], verts[2:]):
            w = cross(sub(a, o), sub(b, o))
            area = add(area, mul(w, 0.5))
            tri.append((w, mul(add(add(a, b), o), 1 / 3)))
        n = mul(area, 1 / norm(area))
        for w, g in tri:
            mom = add(mom, mul(g, dot(w, n) / 2))
        return Shape(2, norm(area), mul(mom, 1 / norm(area)), verts, faces, n, convex)
    o = verts[0]
    vol, mom = 0.0, (0.0, 0.0, 0.0)
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = verts[f[0]], verts[f[i]], verts[f[i + 1]]
            v = dot(sub(a, o), cross(sub(b, o), sub(c, o))) / 6
            vol += v
            mom = add(mom, mul(add(add(a, b), add(c, o)), v / 4))
    return Shape(3, abs(vol), mul(mom, 1 / vol), verts, faces, None, convex)


def planes(s):
    """Inward planes of a convex solid."""
    g = mul(tuple(sum(v[i] for v in s.verts) for i in range(3)), 1 / len(s.verts))
    out = []
    for f in s.faces:
        p = s.verts[f[0]]
        n = cross(sub(s.verts[f[1]], p), sub(s.verts[f[2]], p))
        n = mul(n, 1 / norm(n))
        if dot(n, sub(g, p)) < 0:
            n = mul(n, -1)
        out.append((p, n))
    return out


def clip(s, solid):
    """Common part of a convex shape and a convex solid: shape or None.  Raises
    ValueError when a point is too close to a plane to tell."""
    polys = [[s.verts[i] for i in f] for f in s.faces] if s.dim == 3 else [list(s.verts)]
    for p, n in planes(solid):
        new, cap = [], []
        for poly in polys:
            d = [dot(n, sub(v, p)) for v in poly]
            if any(abs(x) < 1e-3 for x in d):
                raise ValueError
            out = []
            for i, v in enumerate(poly):
                j = (i + 1) % len(poly)
                if d[i] > 0:
                    out.append(v)
                if (d[i] > 0) != (d[j] > 0):
                    t = d[i] / (d[i] - d[j])
                    q = add(v, mul(sub(poly[j], v), t))
                    out.append(q)
                    cap.append(q)
            if out:
                new.append(out)
        if s.dim == 3 and cap:
            # the new face, its points in the order around its center
            g = mul(tuple(sum(v[i] for v in cap) for i in range(3)), 1 / len(cap))
            pts = []
            for q in cap:
                if all(norm(sub(q, r)) > 1e-9 for r in pts):
                    pts.append(q)
            u = mul(sub(pts[0], g), 1 / norm(sub(pts[0], g)))
            w = cross(n, u)
            pts.sort(key=lambda q: math.atan2(dot(w, sub(q, g)), dot(u, sub(q, g))))
            # against the inward normal
            new.append(pts[::-1])
        polys = new
    if not polys:
        return None
    if s.dim == 2:
        return polytope(2, polys[0])
    verts, faces = [], []
    for poly in polys:
        f = []
        for q in poly:
            i = next((k for k, v in enumerate(verts) if norm(sub(v, q)) < 1e-9), None)
            if i is None:
                i = len(verts)
                verts.append(q)
            f.append(i)
        faces.append(tuple(f))
    # all faces looking outwards
    g = mul(tuple(sum(v[i] for v in verts) for i in range(3)), 1 / len(verts))
    out = []
    for f in faces:
        if len(set(f)) < 3:
            continue
        n = (0.0, 0.0, 0.0)
        for i in range(1, len(f) - 1):
            n = add(n, cross(sub(verts[f[i]], verts[f[0]]), sub(verts[f[i + 1]], verts[f[0]])))
        out.append(f if dot(n, sub(verts[f[0]], g)) > 0 else f[::-1])
    return polytope(3, verts, out)


class Obj:
    def __init__(self, obj, shapes, keys, frozen=False):
        self.obj, self.shapes, self.keys, self.frozen = obj, shapes, keys, frozen


class Fracture:
    def __init__(self, rx, ry, axis, angle, centre, region):
        self.rx, self.ry, self.rotation_axis, self.rotation_angle, self.centre, self.region = rx, ry, axis, angle, centre, region


def gen(rng, tier):
    r9 = lambda: rng.randrange(9)
    co = lambda: round(rng.uniform(-2, 2), 3)
    pt = lambda: [co(), co(), co()]
    size = lambda: round(rng.uniform(0.4, 3), 3)
    axis = lambda: rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], pt(), pt(), pt()])
    angle = lambda: rng.choice([0.0, 0.3, -1.1, 2.5, round(rng.uniform(-7, 7), 3), math.pi / 2])
    fail = lambda: rng.choice(["", "", "", "", "", "kernel", "copy"])
    name = lambda: rng.randrange(4)

    def ax():
        a = axis()
        return a if norm(a) > 0.2 else [0.0, 1.0, 0.5]

    def poly():
        n = rng.choice([3, 3, 4, 5, 6, 6, 15])
        return [[round(rng.uniform(0.4, 1.6), 3), round((i + rng.uniform(0.1, 0.9)) * 2 * math.pi / n, 3)] for i in range(n)]

    def shape():
        k = rng.choices(["simplex", "box", "rect", "cyl", "poly", "corner"], [3, 4, 2, 2, 3, 1])[0]
        if k == "simplex":
            return [k, rng.choice([0, 1, 2, 3, 3, 3])]
        if k == "box":
            return [k, [size(), size(), size()], rng.choice([None, pt(), pt()])]
        if k == "rect":
            return [k, rng.choice([None, [size(), size()], [size(), size(), size()]]), rng.choice([None, pt(), pt()])]
        if k == "cyl":
            return [k, rng.choice([None, round(rng.uniform(0.2, 1), 3)]), rng.choice([None, ax()]), rng.choice([None, pt()])]
        if k == "poly":
            return [k, poly(), pt(), ax(), rng.randrange(4)]
        return [k, size(), size()]

    ops = [shape() for _ in range(rng.choice([2, 3, 4]))]
    for _ in range(rng.choice([3, 6, 9, 14])):
        k = rng.choices(["shape", "move", "turn", "scale", "uscale", "copy", "group", "region", "cut", "isec", "split", "frag", "fracs", "verts", "brep",
                         "mesh", "file", "again", "selfmass", "bound", "sel", "parts", "ambig", "joined", "dups"], [4, 4, 5, 4, 2, 4, 2, 3, 3, 4, 2, 2, 2, 3, 1, 1, 1, 0.4, 2, 1.5, 1, 1, 0.4, 1, 0.3])[0]
        if k == "shape":
            ops.append(shape())
        elif k == "move":
            ops.append([k, r9(), pt()])
        elif k == "turn":
            ops.append([k, r9(), ax(), angle(), rng.choice([None, pt()])])
        elif k == "scale":
            ops.append([k, r9(), [rng.choice([1, round(rng.uniform(0.4, 2), 3)]) for _ in range(3)], rng.choice([None, pt()])])
        elif k == "uscale":
            ops.append([k, r9(), rng.choice([0.5, 2, 1.7]), rng.choice([None, pt()])])
        elif k in ("copy", "verts", "selfmass"):
            ops.append([k, r9()])
        elif k == "group":
            ops.append([k, [r9() for _ in range(rng.choice([2, 3]))]])
        elif k == "region":
            ops.append([k, r9(), name()])
        elif k == "bound":
            ops.append([k, r9(), rng.randrange(2), fail()])
        elif k in ("cut", "isec", "split", "sel", "parts"):
            ops.append([k, r9(), r9(), fail()])
        elif k == "frag":
            ops.append([k, [r9() for _ in range(rng.choice([1, 2, 2, 3]))], fail()])
        elif k == "fracs":
            ops.append([k, [[size(), size(), ax(), angle(), pt(), rng.randrange(5)] for _ in range(rng.choice([1, 2, 2, 3, 4]))], rng.randrange(4), fail()])
        elif k == "ambig":
            ops.append([k, rng.choice([2, 2, 3, 4]), rng.randrange(2), pt()])
        elif k == "dups":
            ops.append([k, [size(), size(), size(), size()], rng.choice([2, 3])])
        elif k == "joined":
            mv = lambda: rng.choice([["move", pt()], ["turn", ax(), angle(), rng.choice([None, pt()])],
                                     ["scale", [rng.choice([1, round(rng.uniform(0.4, 2), 3)]) for _ in range(3)], rng.choice([None, pt()])]])
            ops.append([k, [size(), size(), size(), size()], rng.randrange(3), [mv() for _ in range(rng.choice([0, 1, 1, 2, 3]))], rng.randrange(4)])
        elif k == "mesh":
            ops.append([k, [r9() for _ in range(rng.choice([1, 2]))], rng.choice([3, 3, 2]), rng.choice([1, 1, 0])])
        elif k == "file":
            ops.append([k, r9(), rng.choice(["auto", "auto", "msh", "msh2", "msh2", "vtk", "mesh", "su2", "stl", "unv", "inp"])])
        else:
            ops.append([k])
    return {"config": {"mode": "affine"}, "ops": ops}


NAMES = ["rock", "fault", "wall", "salt"]
HEADS = {"msh": b"$MeshFormat\n", "auto": b"$MeshFormat\n", "msh2": b"$MeshFormat\n2", "vtk": b"# vtk DataFile", "mesh": b" MeshVersionFormatted",
         "su2": b"NDIME=", "stl": b"solid", "unv": b"    -1\n", "inp": b"*Heading"}
I3 = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))


class Run:
    def __init__(self, scn, stop):
        self.s, self.ctx, self.g, self.bg, self.f, self.Stop = scn, scn.ctx, scn.g, scn.bg, scn.f, stop
        self.live, self.regs, self.tmp = [], {}, None
        self.round = False      # there are cylinders

    def run(self, ops):
        try:
            for op in ops:
                getattr(self, "op_" + op[0])(*op[1:])
                self.check(op[0])
            for i in range(min(4, len(self.live))):
                self.op_verts(i)
            self.check("the end")
        finally:
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)

    def kcall(self, what, fn, *a):
        return self.s.kcall(what, fn, *a)

    def expect(self, *a):
        self.ctx.expect(*a)

    def pick(self, i, cond=lambda o: True):
        l = [o for o in self.live if cond(o)]
        return l[i % len(l)] if l else None

    def picks(self, idx, cond=lambda o: True):
        out = []
        for i in idx:
            l = [o for o in self.live if cond(o) and o not in out]
            if l:
                out.append(l[i % len(l)])
        return out

    def scratch(self):
        if not self.tmp:
            self.tmp = tempfile.mkdtemp(prefix="verif-c18-")
        return self.tmp

    def made(self, obj, shape):
        self.expect(len(obj.dim_tags) == 1 and obj.dim_tags[0][0] == shape.dim, "made", lambda: "made %r of dimension %d" % (obj.dim_tags, shape.dim))
        o = Obj(obj, [shape], [("d", shape.dim)])
        if len(self.live) < 12:
            self.live.append(o)
        return o

    # -- making ----------------------------------------------------------------
    def op_simplex(self, dim):
        pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)][:dim + 1]
        o = self.kcall("make_simplex", self.f.make_simplex, *([] if dim == 3 and len(self.live) % 2 else [dim]))
        self.made(o, polytope(dim, pts, SIMPLEX_FACES))

    def op_box(self, sides, center):
        c = center or [0, 0, 0]
        o = self.kcall("box", self.f.box, *([list(sides), list(center)] if center else [list(sides)]))
        v = [tuple(c[i] + (s[i] - 0.5) * sides[i] for i in range(3)) for s in [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]]
        self.made(o, polytope(3, v, BOX_FACES))

    def op_rect(self, sides, center):
        c = center or [0, 0, 0]
        s = sides or [1, 1]
        arg = list(sides) if sides else None
        if center:
            o = self.kcall("rectangle", lambda: self.f.rectangle(arg or [1, 1], center=list(center)))
        else:
            o = self.kcall("rectangle", self.f.rectangle, *([arg] if arg else []))
        self.expect(arg is None or arg == list(sides), "argument", "rectangle changed the list of sides given")
        v = [(c[0] + a * s[0] / 2, c[1] + b * s[1] / 2, c[2]) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        self.made(o, polytope(2, v))

    def op_cyl(self, r, axis, center):
        kw = {k: v for k, v in (("r", r), ("axis", axis), ("center", center)) if v is not None}
        o = self.kcall("cylinder", lambda: self.f.cylinder(**kw))
        self.round = True
        r, axis, center = 1 if r is None else r, axis or [0, 0, 1], center or [0, 0, 0]
        self.made(o, Shape(3, math.pi * r * r * norm(axis), add(center, mul(axis, 0.5)), cyl=True))

    def op_poly(self, pol, center, axis, step):
        n = mul(axis, 1 / norm(axis))
        u = cross(n, (1, 0, 0) if abs(n[0]) < 0.7 else (0, 1, 0))
        u = mul(u, 1 / norm(u))
        w = cross(n, u)
        pts = [add(center, add(mul(u, r * math.cos(a)), mul(w, r * math.sin(a)))) for r, a in pol]
        turn = [dot(n, cross(sub(pts[i - 1], pts[i - 2]), sub(pts[i], pts[i - 1]))) for i in range(len(pts))]
        st = [None, 1.5, 2, [1.0 + 0.5 * (i % 2) for i in range(len(pts))]][step % 4]
        o = self.kcall("make_polygon", self.f.make_polygon, [list(p) for p in pts], *([] if st is None and len(pts) % 2 else [st]))
        self.made(o, polytope(2, pts, convex=all(t > 1e-3 for t in turn)))

    def op_corner(self, x, y):
        """The rectangle of given half sides, a bare kernel surface."""
        import numpy as np
        t = self.kcall("make_rectangle", self.f.make_rectangle, np.array([x, y, 0.0]))
        self.made(self.f.object(2, t), polytope(2, [(-x, -y, 0), (x, -y, 0), (x, y, 0), (-x, y, 0)]))

    # -- moving ----------------------------------------------------------------
    def mapped(self, o, what, fn, mat, center, shift, scaled=False):
        new = [s.mapped(mat, center, shift) for s in o.shapes]
        if any(abs(x) > 30 for s in new for x in s.c) or any(s.dim and not 1e-3 < s.m < 2e3 for s in new):
            return
        r = self.kcall(what, fn)
        self.expect(r is o.obj, "chain", what + " does not return the object")
        o.shapes = new
        for s in new:
            if s.cyl and scaled:
                # the kernel only approximates a stretched cylinder
                s.cyl = "rough"

    def op_move(self, i, v):
        o = self.pick(i, lambda o: not o.frozen)
        if o:
            self.mapped(o, "translate", lambda: o.obj.translate(list(v)), I3, (0, 0, 0), v)

    def op_turn(self, i, axis, angle, center):
        o = self.pick(i, lambda o: not o.frozen)
        if o:
            fn = (lambda: o.obj.rotate(list(axis), angle, list(center))) if center else (lambda: o.obj.rotate(axis=list(axis), angle=angle))
            self.mapped(o, "rotate", fn, rotation(axis, angle), center or (0, 0, 0), (0, 0, 0))

    def op_scale(self, i, v, center):
        o = self.pick(i, lambda o: not o.frozen)
        if o:
            fn = (lambda: o.obj.scale(list(v), list(center))) if center else (lambda: o.obj.scale(list(v)))
            self.mapped(o, "scale", fn, tuple(mul(r, x) for r, x in zip(I3, v)), center or (0, 0, 0), (0, 0, 0), True)

    def op_uscale(self, i, x, center):
        o = self.pick(i, lambda o: not o.frozen)
        if o:
            fn = (lambda: o.obj.scale([x] * 3, list(center))) if center else (lambda: o.obj.scale([x] * 3))
            self.mapped(o, "scale", fn, tuple(mul(r, x) for r in I3), center or (0, 0, 0), (0, 0, 0), True)

    def op_copy(self, i):
        o = self.pick(i, lambda o: not o.frozen)
        if o and len(self.live) < 12:
            n = self.kcall("copy", o.obj.copy)
            self.expect(n is not o.obj and not set(map(tuple, n.dim_tags)) & set(map(tuple, o.obj.dim_tags)), "copy", "a copy has kernel objects of the original")
            self.live.append(Obj(n, list(o.shapes), list(o.keys)))

    def op_group(self, idx):
        os_ = self.picks(idx, lambda o: not o.frozen)
        if len(os_) < 2:
            return
        n = self.kcall("group", self.f.group, *[o.obj for o in os_])
        for o in os_:
            self.live.remove(o)
        self.live.append(Obj(n, [s for o in os_ for s in o.shapes], [k for o in os_ for k in o.keys]))

    # -- regions ---------------------------------------------------------------
    def key(self, r):
        for d, x in enumerate(self.bg.Region.default_region):
            if r is x:
                return ("d", d)
        for k, x in self.regs.items():
            if r is x:
                return k
        return ("?", r.name)

    def named(self, name, dim, got):
        k = ("n", name + str(dim))
        self.expect(got.name == k[1] or k in self.regs, "region", lambda: "region %r called %r" % (k[1], got.name))
        self.expect(self.regs.setdefault(k, got) is got and got.dim == dim, "region", lambda: "two regions of one name %r" % k[1])
        return k

    def op_region(self, i, n):
        o = self.pick(i, lambda o: len({s.dim for s in o.shapes}) == 1)
        if not o or not o.obj.dim_tags:
            return
        dim = o.shapes[0].dim
        r = self.kcall("set_region", o.obj.set_region, NAMES[n] + str(dim))
        self.expect(r is o.obj, "chain", "set_region does not return the object")
        k = self.named(NAMES[n], dim, o.obj.regions[0])
        o.keys = [k] * len(o.shapes)

    # -- Boolean operations ----------------------------------------------------
    def faulty(self, fail, kernel, what, error, fn):
        cls = type(self.s)
        if fail:
            cls.fail = kernel if fail == "kernel" else "copy"
            r, e = self.ctx.attempt(fn)
            fired = cls.fail is None
            cls.fail = None
            if not fired:
                if e is not None:
                    return self.kcall(what, _raiser, e)
                return r
            self.ctx.fault("kernel-" + (kernel if fail == "kernel" else "copy"))
            self.expect(e is not None, "hidden-failure", "%s returned normally although the kernel failed" % what)
            if fail == "kernel" and error is not None:
                self.expect(isinstance(e, error), "error-type", lambda: "%s reported a failure of the kernel by %s, not by %s" % (what, type(e).__name__, error.__name__))
            self.check(what + " failed")
        return self.kcall(what, fn)

    def pair(self, i, j):
        ok = lambda o: not o.frozen and len(o.shapes) == 1 and o.shapes[0].convex and o.shapes[0].verts
        a = self.pick(i, lambda o: ok(o) and o.shapes[0].dim >= 2)
        b = self.pick(j, lambda o: o is not a and ok(o) and o.shapes[0].dim == 3)
        if not a or not b:
            return None
        try:
            return a, b, clip(a.shapes[0], b.shapes[0])
        except ValueError:
            return None

    def op_isec(self, i, j, fail=""):
        p = self.pair(i, j)
        if not p:
            return
        a, b, c = p
        n = self.faulty(fail, "intersect", "intersect", self.bg.BoolOperationError, lambda: a.obj.intersect(b.obj))
        self.ctx.probe("boolean")
        self.live.remove(a)
        self.expect(bool(n.dim_tags) == (c is not None), "intersect", lambda: "the common part is %s, got %r" % ("empty" if c is None else "not empty", n.dim_tags))
        if c is not None:
            self.live.append(Obj(n, [c], list(a.keys)))

    def op_cut(self, i, j, fail=""):
        p = self.pair(i, j)
        if not p:
            return
        a, b, c = p
        s = a.shapes[0]
        n = self.faulty(fail, "cut", "cut", self.bg.BoolOperationError, lambda: a.obj.cut(b.obj))
        self.ctx.probe("boolean")
        self.live.remove(a)
        m = s.m - (c.m if c else 0.0)
        if m < 1e-9 * s.m:
            self.expect(not n.dim_tags, "cut", lambda: "nothing is left of the object, got %r" % n.dim_tags)
            return
        g = s.c if c is None else mul(sub(mul(s.c, s.m), mul(c.c, c.m)), 1 / m)
        if c is None:
            self.live.append(Obj(n, [s], list(a.keys)))
        else:
            # it may consist of more pieces
            self.live.append(Obj(n, [Shape(s.dim, m, g, normal=s.normal)], list(a.keys)))

    def op_split(self, i, j, fail=""):
        """What is cut away and what is left make the whole, for any solids."""
        ok = lambda o: not o.frozen and len(o.shapes) == 1
        a = self.pick(i, lambda o: ok(o) and o.shapes[0].dim == 3)
        b = self.pick(j, lambda o: o is not a and ok(o) and o.shapes[0].dim == 3)
        if not a or not b:
            return
        s = a.shapes[0]
        other = self.kcall("copy", a.obj.copy)
        x = self.faulty(fail, "cut", "cut", self.bg.BoolOperationError, lambda: a.obj.cut(b.obj))
        y = self.faulty("", "intersect", "intersect", self.bg.BoolOperationError, lambda: other.intersect(b.obj))
        self.ctx.probe("boolean")
        self.live.remove(a)
        m, c = 0.0, (0.0, 0.0, 0.0)
        for o in (x, y):
            v = self.kcall("mass", o.mass)
            if o.dim_tags:
                g, w = self.kcall("center_of_mass", o.center_of_mass)
                self.expect(abs(v - w) < 1e-9 * (1 + abs(v)), "mass", "mass and center_of_mass differ")
                c = add(c, mul(g, w))
            m += v
            self.expect(all(self.key(r) == a.keys[0] for r in o.regions), "region", "a part has another region than the whole")
        tol = max(self.tol([s]), 1e-3 if s.cyl or b.shapes[0].cyl else 1e-5)
        self.expect(abs(m - s.m) < tol * (1 + s.m) and norm(sub(c, mul(s.c, s.m))) < 10 * tol * (1 + s.m), "conservation",
                    lambda: "parts have measure and moments %r %r, the whole %r %r" % (m, c, s.m, mul(s.c, s.m)))

    def op_frag(self, idx, fail=""):
        os_ = self.picks(idx, lambda o: not o.frozen and all(s.dim >= 2 for s in o.shapes) and o.obj.dim_tags)
        if not os_ or len({s.dim for o in os_ for s in o.shapes}) > 1:
            return
        out = self.faulty(fail, "fragment", "fragment", self.bg.BoolOperationError, lambda: self.f.fragment(*[o.obj for o in os_]))
        self.fragmented(os_, out)

    def fragmented(self, os_, out):
        self.ctx.probe("boolean")
        self.expect(len(out) == len(os_), "fragment", "fragment returned %d sets for %d" % (len(out), len(os_)))
        new = []
        for o, n in zip(os_, out):
            if o in self.live:
                self.live.remove(o)
            new.append(Obj(n, o.shapes, o.keys, True))
        self.live += new
        for a in new:
            for b in new:
                if a is b or len(a.shapes) > 1 or len(b.shapes) > 1:
                    continue
                s, t = a.shapes[0], b.shapes[0]
                if not (s.dim == t.dim == 3 and s.verts and t.verts and s.convex and t.convex):
                    continue
                try:
                    c = clip(s, t)
                except ValueError:
                    continue
                common = set(map(tuple, a.obj.dim_tags)) & set(map(tuple, b.obj.dim_tags))
                m = sum(self.g.model.occ.getMass(*x) for x in common)
                w = c.m if c else 0.0
                self.expect(abs(m - w) < 1e-5 * (1 + w), "fragment", lambda: "fragments in common have measure %r, expected %r" % (m, w))

    def op_sel(self, i, j, fail=""):
        p = self.pair(i, j)
        if not p:
            return
        a, b, c = p
        n = self.faulty(fail, "intersect", "select_by_intersect", None, lambda: a.obj.select_by_intersect(b.obj))
        got = list(zip(map(tuple, n.dim_tags), n.regions))
        want = list(zip(map(tuple, a.obj.dim_tags), a.obj.regions)) if c else []
        self.expect(len(got) == len(want) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(got, want)), "select", lambda: "selected %r, expected %r" % (got, want))

    def op_ambig(self, n, together, at):
        """A selection by tools that meet an object in several parts is refused."""
        a = self.kcall("box", self.f.box, [n + 1.0, 1, 1], list(at))
        self.live.append(Obj(a, [polytope(3, [add(at, ((x - 0.5) * (n + 1), y - 0.5, z - 0.5)) for x in (0, 1) for y in (0, 1) for z in (0, 1)], BOX_FACES)], [("d", 3)]))
        ts = [self.kcall("box", self.f.box, [0.5, 2, 0.5], list(add(at, (i - (n - 1) / 2, 0, 0)))) for i in range(n)]
        if together:
            ts = [self.kcall("group", self.f.group, *ts)]
        r, e = self.ctx.attempt(lambda: a.select_by_intersect(*ts))
        self.expect(e is not None, "select", lambda: "an object met by tools in %d parts is selected: %r" % (n, r.dim_tags))
        self.expect(isinstance(e, self.bg.BoolOperationError), "error-type", lambda: "an ambiguous selection is reported by %r" % e)
        self.ctx.probe("ambiguous")

    def op_joined(self, sz, axis, moves, n):
        """Two boxes that share a face after the fragmentation share it also when
        they are moved together."""
        c = [0.0, 0.0, 0.0]
        shapes, objs = [], []
        for k in range(2):
            sides = [sz[0], sz[1], sz[2]]
            sides[axis] = sz[2 + k]
            c[axis] = sides[axis] / 2 if k else -sides[axis] / 2
            objs.append(self.kcall("box", self.f.box, sides, list(c)))
            v = [tuple(c[i] + (t[i] - 0.5) * sides[i] for i in range(3)) for t in [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]]
            shapes.append(polytope(3, v, BOX_FACES))
        keys = [("d", 3)] * 2
        if n < 3:
            self.kcall("set_region", objs[1].set_region, NAMES[n] + "3")
            keys[1] = self.named(NAMES[n], 3, objs[1].regions[0])
        o = self.kcall("group", self.f.group, *self.kcall("fragment", self.f.fragment, *objs))
        for m in moves:
            if m[0] == "move":
                r, mat, cen, sh = self.kcall("translate", o.translate, list(m[1])), I3, (0, 0, 0), m[1]
            elif m[0] == "turn":
                r, mat, cen, sh = self.kcall("rotate", o.rotate, list(m[1]), m[2], list(m[3] or [0, 0, 0])), rotation(m[1], m[2]), m[3] or (0, 0, 0), (0, 0, 0)
            else:
                r, mat, cen, sh = self.kcall("scale", o.scale, list(m[1]), list(m[2] or [0, 0, 0])), tuple(mul(q, x) for q, x in zip(I3, m[1])), m[2] or (0, 0, 0), (0, 0, 0)
            self.expect(r is o, "chain", "a move does not return the object")
            shapes = [s.mapped(mat, cen, sh) for s in shapes]
        b = self.kcall("get_boundary", o.get_boundary, True)
        faces = [[polytope(2, [s.verts[q] for q in f]) for f in s.faces] for s in shapes]
        m = sum(f.m for fs in faces for f in fs)
        inner = min((norm(sub(f.c, g.c)), f.m) for f in faces[0] for g in faces[1])
        if inner[0] > 1e-6:
            raise HarnessError("no common face")
        m -= 2 * inner[1]
        v = self.kcall("mass", b.mass)
        self.expect(abs(v - m) < 1e-5 * (1 + m) and len(b.dim_tags) == 10, "shared-face",
                    lambda: "joined boxes have %d outer faces of area %r, expected 10 of %r" % (len(b.dim_tags), v, m))
        if len(self.live) < 12 and not any(abs(x) > 30 for s in shapes for x in s.c):
            self.live.append(Obj(o, shapes, keys, True))
        self.ctx.probe("joined")

    def op_dups(self, sz, n):
        """Faces, edges and points on one another become common."""
        self.op_again()
        want = [0.0, 0.0]
        for k in range(n):
            self.kcall("box", self.f.box, [sz[0], sz[1], sz[2]], [0.0, 0.0, k * sz[2]])
        self.kcall("remove_duplicate_entities", self.f.remove_duplicate_entities)
        es = self.kcall("all_entities", self.f.all_entities)
        got = [sum(1 for d, _ in es if d == k) for k in range(4)]
        want = [4 * (n + 1), 8 * n + 4, 5 * n + 1, n]
        self.expect(got == want, "duplicate", lambda: "%d boxes in a row consist of %r points, edges, faces and solids, expected %r" % (n, got, want))
        m = sum(self.g.model.occ.getMass(d, t) for d, t in es if d == 3)
        v = sz[0] * sz[1] * sz[2] * n
        self.expect(abs(m - v) < 1e-6 * (1 + v), "duplicate", lambda: "boxes of volume %r, expected %r" % (m, v))
        self.f.reinit()

    def op_parts(self, i, j, fail=""):
        p = self.pair(i, j)
        if not p or p[0].shapes[0].dim != 3:
            return
        a, b, c = p
        s, t = a.shapes[0], b.shapes[0]
        out = self.faulty(fail, "fragment", "split_by_cut", self.bg.BoolOperationError, lambda: a.obj.split_by_cut(b.obj))
        self.ctx.probe("boolean")
        self.live = [o for o in self.live if o is not a and o is not b]
        self.expect(len(out) == 4, "split_by_cut", "not four parts")
        m = c.m if c else 0.0
        for n, k, w in zip(out, (a.keys, b.keys, a.keys, b.keys), (s.m - m, t.m - m, m, m)):
            v = self.kcall("mass", n.mass)
            self.expect(abs(v - w) < 2e-5 * (1 + s.m + t.m), "split_by_cut", lambda: "a part has measure %r, expected %r" % (v, w))
            self.expect(all(self.key(r) == k[0] for r in n.regions), "region", "a part has another region than the whole")

    def op_bound(self, i, combined, fail=""):
        o = self.pick(i, lambda o: not o.frozen and len(o.shapes) == 1 and o.shapes[0].verts and o.shapes[0].dim >= 2)
        if not o:
            return
        s = o.shapes[0]
        n = self.faulty(fail, "getBoundary", "get_boundary", self.bg.GetBoundaryError, lambda: o.obj.get_boundary(bool(combined)))
        if s.dim == 3:
            parts = [polytope(2, [s.verts[q] for q in f]) for f in s.faces]
        else:
            parts = [polytope(1, [s.verts[q - 1], s.verts[q]]) for q in range(len(s.verts))]
        self.expect(all(d == s.dim - 1 for d, _ in n.dim_tags) and len(n.dim_tags) == len(n.regions)
                    and all(r is self.bg.Region.default_region[s.dim - 1] for r in n.regions), "boundary", lambda: "boundary %r %r" % (n.dim_tags, n.regions))
        m = sum(p.m for p in parts)
        c = mul(tuple(sum(p.m * p.c[q] for p in parts) for q in range(3)), 1 / m)
        v = self.kcall("mass", n.mass)
        g, w = self.kcall("center_of_mass", n.center_of_mass)
        self.expect(abs(v - m) < 2e-5 * (1 + m) and norm(sub(g, c)) < 2e-4 * (1 + norm(c)), "boundary", lambda: "boundary of measure %r and center %r, expected %r %r" % (v, g, m, c))

    def op_fracs(self, fracs, base, fail=""):
        if base == 0:
            b, shape = self.kcall("rectangle", self.f.rectangle), polytope(2, [(-.5, -.5, 0), (.5, -.5, 0), (.5, .5, 0), (-.5, .5, 0)])
        elif base == 1:
            b, shape = self.kcall("make_simplex", self.f.make_simplex, 2), polytope(2, [(0, 0, 0), (1, 0, 0), (0, 1, 0)])
        else:
            p = [(0.5, -0.5, 0), (0.9, 0.2, 0), (0.1, 0.8, 0), (-0.6, 0.4, 0), (-0.5, -0.5, 0)][:2 + base]
            b, shape = self.kcall("make_polygon", self.f.make_polygon, p), polytope(2, p)
        self.made(b, shape)
        src, frs = [], []
        for rx, ry, axis, angle, centre, reg in fracs:
            if reg == 4:
                k = ("x", "own2")
                r = self.regs.setdefault(k, self.bg.Region.get("own2", 2))
            else:
                r, k = NAMES[reg] + "2", ("n", NAMES[reg] + "2")
            s = shape.mapped(((rx, 0, 0), (0, ry, 0), (0, 0, 1)), (0, 0, 0), (0, 0, 0)).mapped(rotation(axis, angle), (0, 0, 0), centre)
            src.append(Obj(None, [s], [k]))
            frs.append(Fracture(rx, ry, list(axis), angle, list(centre), r))
        out = self.faulty(fail, "fragment", "make_fractures", self.bg.BoolOperationError, lambda: self.f.make_fractures(frs, b))
        for o, n in zip(src, out):
            k = o.keys[0]
            if k[0] == "n" and n.regions:
                self.regs.setdefault(k, n.regions[0])
        self.fragmented(src, out)
        self.ctx.probe("fractures")

    # -- looking ---------------------------------------------------------------
    def op_verts(self, i):
        """The corners of the shape are where they should be."""
        o = self.pick(i, lambda o: len(o.shapes) == 1 and o.shapes[0].verts and not o.frozen)
        if not o:
            return
        g = self.g
        self.kcall("synchronize", self.f.synchronize)
        if o.shapes[0].dim == 0:
            tags = list(o.obj.dim_tags)
        else:
            tags = [t for t in g.model.getBoundary(o.obj.dim_tags, combined=False, oriented=False, recursive=True) if t[0] == 0]
        got = [tuple(float(x) for x in g.model.getValue(0, t, [])) for _, t in set(map(tuple, tags))]
        want = o.shapes[0].verts
        far = lambda ps, qs: [p for p in ps if all(norm(sub(p, q)) > 1e-5 for q in qs)]
        a, b = far(got, want), far(want, got)
        self.expect(not a and not b, "corners", lambda: "corners at %r, missing at %r" % (a[:4], b[:4]))
        self.ctx.probe("corners")

    def op_selfmass(self, i):
        o = self.pick(i)
        if not o:
            return
        m = sum(s.m for s in o.shapes)
        v = self.kcall("mass", o.obj.mass)
        c, w = self.kcall("center_of_mass", o.obj.center_of_mass)
        tol = self.tol(o.shapes, o.frozen and self.round)
        self.expect(abs(v - m) < tol * (1 + m) and abs(w - m) < tol * (1 + m), "mass", lambda: "mass %r and %r, expected %r" % (v, w, m))
        if m:
            g = mul(tuple(sum(s.m * s.c[i] for s in o.shapes) for i in range(3)), 1 / m)
            self.expect(norm(sub(c, g)) < 10 * tol * (1 + norm(g)), "mass", lambda: "center of mass %r, expected %r" % (c, g))

    def op_brep(self):
        g, occ = self.g, self.g.model.occ
        if not occ.getEntities():
            return
        d = self.scratch()
        path = os.path.join(d, "shapes")
        self.kcall("write_brep", self.f.write_brep, path)
        want = [sum(occ.getMass(*t) for t in occ.getEntities(k)) for k in (2, 3)]
        cur = g.model.getCurrent()
        g.model.add("verif-check")
        try:
            occ.importShapes(path + ".brep", highestDimOnly=False)
            got = [sum(occ.getMass(*t) for t in occ.getEntities(k)) for k in (2, 3)]
        finally:
            g.model.remove()
            g.model.setCurrent(cur)
        self.expect(all(abs(x - y) < 1e-5 * (1 + y) for x, y in zip(got, want)), "brep", lambda: "areas and volumes in the file %r, of the model %r" % (got, want))
        self.ctx.probe("brep")

    def op_again(self):
        """Start with an empty model."""
        self.kcall("reinit", self.f.reinit)
        self.live = []
        self.expect(not self.kcall("all_entities", self.f.all_entities), "reinit", "shapes are left after reinit")

    def op_mesh(self, idx, dim=3, only=1):
        self.meshed(self.picks(idx, lambda o: o.obj.dim_tags and all(s.dim >= 2 for s in o.shapes)), dim, only)

    def meshed(self, os_, upto=3, only=1):
        """Measures of the regions in the mesh; everything else is gone."""
        g, occ = self.g, self.g.model.occ
        if any(len(set(map(tuple, o.obj.dim_tags))) < len(o.obj.dim_tags) for o in os_):
            return None
        if not os_ or len([1 for o in os_ if o.frozen]) > 1 or sum(len(o.obj.dim_tags) for o in os_) > 12:
            return None
        want, curved = {}, set()
        for o in os_:
            for s, k in zip(o.shapes, o.keys):
                want[s.dim, k] = want.get((s.dim, k), 0.0) + s.m
                if not s.verts and s.dim == 3:
                    curved.add((s.dim, k))
        g.option.setNumber("Mesh.MeshSizeMin", 2.5)
        g.option.setNumber("Mesh.MeshSizeMax", 1e22)
        groups = [o.obj for o in os_]
        if upto == 2:
            self.kcall("make_mesh", lambda: self.f.make_mesh(groups, dim=2, eliminate=bool(only)))
        elif only:
            self.kcall("make_mesh", self.f.make_mesh, groups)
        else:
            self.kcall("make_mesh", lambda: self.f.make_mesh(groups, eliminate=False))
        if only:
            self.live = [o for o in self.live if o in os_]
        path = os.path.join(self.scratch(), "m.msh2")
        self.kcall("write_mesh", self.f.write_mesh, path)
        empty = lambda: any(not len(g.model.mesh.getElements(*t)[0]) for o in os_ for t in o.obj.dim_tags if t[0] <= upto)
        if empty():
            g.model.mesh.clear()
            self.kcall("kernel mesh", g.model.mesh.generate, upto)
            if empty():
                # the kernel is not able to mesh the geometry
                self.ctx.probe("kernel-cannot-mesh")
                return None
        vol = self.volumes(path)
        for (dim, k), m in want.items():
            if dim > upto:
                continue
            name = self.bg.Region.default_region[k[1]].name if k[0] == "d" else self.regs[k].name
            self.expect((dim, name) in vol, "mesh-region", lambda: "the mesh has no region %r: %r" % (name, sorted(vol)))
            v = vol.pop((dim, name))
            if (dim, k) in curved:
                self.expect(0.2 * m < v < 1.2 * m, "mesh-region", lambda: "region %r of the mesh has measure %g, expected %g" % (name, v, m))
            else:
                self.expect(abs(v - m) < 1e-5 * (1 + m), "mesh-region", lambda: "region %r of the mesh has measure %g, expected %g" % (name, v, m))
        self.expect(not vol, "mesh-region", lambda: "the mesh has regions %r of nothing" % sorted(vol))
        self.ctx.probe("mesh")
        return want

    def volumes(self, path):
        from bgem.gmsh.gmsh_io import GmshIO
        m = self.kcall("read the mesh", GmshIO, path)
        name = {(d, i): n.strip('"') for n, (i, d) in m.physical.items()}
        vol = {}
        for t, tags, ns in m.elements.values():
            p = [tuple(float(x) for x in m.nodes[n]) for n in ns]
            if t == 4:
                d, v = 3, abs(dot(sub(p[1], p[0]), cross(sub(p[2], p[0]), sub(p[3], p[0])))) / 6
            elif t == 2:
                d, v = 2, norm(cross(sub(p[1], p[0]), sub(p[2], p[0]))) / 2
            else:
                continue
            k = (d, name.get((d, tags[0]), tags[0]))
            vol[k] = vol.get(k, 0.0) + v
        return vol

    def op_file(self, i, fmt):
        """The name and format of the mesh file given by the factory."""
        o = self.pick(i, lambda o: o.obj.dim_tags and all(s.dim >= 2 for s in o.shapes))
        if not o or self.meshed([o]) is None:
            return
        d = tempfile.mkdtemp(dir=self.scratch())
        back = os.getcwd()
        old = self.g.option.getNumber("Mesh.Format")
        os.chdir(d)
        write = self.g.write

        def guarded(name, *a, **k):
            # gmsh would not end and take all the memory
            if name.endswith(".auto"):
                raise ValueError("gmsh does not know the format of " + name)
            return write(name, *a, **k)
        self.g.write = guarded
        try:
            if fmt == "auto":
                self.kcall("write_mesh", self.f.write_mesh)
            else:
                self.kcall("write_mesh", lambda: self.f.write_mesh(format=self.bg.MeshFormat[fmt]))
        finally:
            self.g.write = write
            os.chdir(back)
            self.g.option.setNumber("Mesh.Format", old)
        got = os.listdir(d)
        want = "sim." + ("msh" if fmt == "auto" else fmt)
        self.expect(got == [want], "file", lambda: "wrote %r, expected %r" % (got, want))
        with open(os.path.join(d, want), "rb") as f:
            head = f.read(40)
        self.expect(head.startswith(HEADS[fmt]), "file", lambda: "file %s begins by %r" % (want, head))
        self.ctx.probe("file-" + fmt)

    # -- oracle ------------------------------------------------------------------
    def tol(self, shapes, frozen=False):
        if any(s.cyl == "rough" for s in shapes):
            return 3e-2
        # pieces of a cylinder are not exact; a piece may end up in any object
        return 1e-3 if frozen else 2e-5

    def check(self, what):
        occ, ctx = self.g.model.occ, self.ctx
        st = []
        for o in self.live:
            x = o.obj
            self.expect(x.dim_tags is not None and x.regions is not None and len(x.dim_tags) == len(x.regions), "object-lost",
                        lambda: "after %s an object has kernel objects %r and regions %r" % (what, x.dim_tags, x.regions))
            if x.dim_tags:
                dims = {d for d, _ in x.dim_tags}
                self.expect(x.have_common_dim() == (dims.pop() if len(dims) == 1 else None), "dimension", lambda: "the common dimension of %r is %r" % (x.dim_tags, x.have_common_dim()))
            got, want = {}, {}
            for (d, t), r in zip(x.dim_tags, x.regions):
                m = occ.getMass(d, t) if d else 0.0
                c = occ.getCenterOfMass(d, t) if d else (0, 0, 0)
                g = got.setdefault((d, self.key(r)), [0.0] * 4)
                for i, y in enumerate((m, m * c[0], m * c[1], m * c[2])):
                    g[i] += y
            for s, k in zip(o.shapes, o.keys):
                w = want.setdefault((s.dim, k), [0.0] * 4)
                for i, y in enumerate((s.m, s.m * s.c[0], s.m * s.c[1], s.m * s.c[2])):
                    w[i] += y
            self.expect(set(got) == set(want), "region", lambda: "after %s an object has regions %r, expected %r" % (what, sorted(got), sorted(want)))
            for k in want:
                scale = 1 + want[k][0] * (1 + max(abs(y) for s in o.shapes for y in s.c))
                ok = [abs(a - b) < self.tol(o.shapes, o.frozen and self.round) * scale for a, b in zip(got[k], want[k])]
                self.expect(all(ok), "shape", lambda: "after %s region %r has measure and moments %r, expected %r" % (what, k, got[k], want[k]))
            st.append([(s.dim, round(s.m, 6), [round(y, 5) for y in s.c], k) for s, k in zip(o.shapes, o.keys)])
        ctx.log(what, [(len(o.shapes), len(o.obj.dim_tags)) for o in self.live])
        ctx.state(repr(st).encode())


def _raiser(e):
    raise e
