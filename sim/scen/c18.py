"""C18: geometry objects keep their shape and regions through every history of
operations and kernel failures, and so does the mesh.  Real gmsh kernel."""
import contextlib
import io
import math
import os
import re
import shutil
import tempfile

from ..core import HarnessError, Scenario, Violation, where
from . import affine


class S:
    """A live object set and what it must be: shapes = [dim, cells, region]."""

    def __init__(self, obj, shapes, fresh, family=None, simple=True):
        self.obj = obj
        self.shapes = shapes
        self.fresh = fresh        # owns its kernel shapes, can be moved
        self.family = family      # id of the fragment call that made it
        self.simple = simple      # its boundary is that of its cells
        self.children = []
        self.mixed = False        # only some of it comes from its family

    def dims(self):
        return {d for d, _, _ in self.shapes}

    def cells(self, dim):
        out = set()
        for d, c, _ in self.shapes:
            if d == dim:
                out |= c
        return out

    def overlapping(self):
        return any(sum(len(c) for d, c, _ in self.shapes if d == dim) != len(self.cells(dim)) for dim in self.dims())


def box_cells(lo, hi):
    return frozenset((i, j, k) for i in range(lo[0], hi[0]) for j in range(lo[1], hi[1]) for k in range(lo[2], hi[2]))


def rect_cells(axis, plane, lo, hi):
    return frozenset((axis, plane, i, j) for i in range(lo[0], hi[0]) for j in range(lo[1], hi[1]))


def sq3(c):
    """Square -> its corner in 3D and the two unit directions."""
    axis, p, u, v = c
    a, b = [x for x in range(3) if x != axis]
    q = [0, 0, 0]
    q[axis], q[a], q[b] = p, u, v
    return q, a, b


def corners(dim, c):
    """Two opposite corners of a cell."""
    if dim == 3:
        return c, (c[0] + 1, c[1] + 1, c[2] + 1)
    q, a, b = sq3(c)
    r = list(q)
    r[a] += 1
    r[b] += 1
    return tuple(q), tuple(r)


def from_corners(dim, p, q):
    """Cells of the box with the two opposite corners."""
    lo = [min(x, y) for x, y in zip(p, q)]
    hi = [max(x, y) for x, y in zip(p, q)]
    if dim == 3:
        return box_cells(lo, hi)
    axis = [i for i in range(3) if lo[i] == hi[i]][0]
    a, b = [x for x in range(3) if x != axis]
    return rect_cells(axis, lo[axis], (lo[a], lo[b]), (hi[a], hi[b]))


def mapcells(dim, cells, f):
    out = set()
    for c in cells:
        p, q = corners(dim, c)
        out |= from_corners(dim, f(p), f(q))
    return frozenset(out)


def surface(cells):
    """Boundary squares of a set of unit cubes."""
    out = set()
    for i, j, k in cells:
        for s in ((0, i, j, k), (0, i + 1, j, k), (1, j, i, k), (1, j + 1, i, k), (2, k, i, j), (2, k + 1, i, j)):
            out ^= {s}
    return frozenset(out)


def perimeter(cells):
    """Boundary unit edges of a set of unit squares."""
    out = set()
    for c in cells:
        q, a, b = sq3(c)
        for d, e in ((a, b), (b, a)):
            for s in (0, 1):
                o = list(q)
                o[e] += s
                out ^= {(tuple(o), d)}
    return frozenset(out)


def center(dim, c):
    if dim == 1:
        (o, d) = c
        return tuple(x + (0.5 if i == d else 0) for i, x in enumerate(o))
    p, q = corners(dim, c)
    return tuple((x + y) / 2 for x, y in zip(p, q))


def moments(dim, cells):
    m = [len(cells), 0.0, 0.0, 0.0]
    for c in cells:
        for i, x in enumerate(center(dim, c)):
            m[i + 1] += x
    return m


# the kernel itself is not able to do it, whoever asks
INCAPABLE = re.compile("fix wire|PLC Error|boundary mesh|overlapping facet|intersecting facet|[Ss]elf[- ]intersect|Impossible to|OpenCASCADE exception", re.I)


class Stop(Exception):
    pass


NAMES = {3: ["rock", "salt", "clay"], 2: ["fault", "wall", "rock2"]}


class C18(Scenario):
    ID = "C18"
    QUICK_RUNS = 16000
    THOROUGH_RUNS = 400000
    QUICK_WALL = 75
    RULE = ("histories of making boxes, rectangles and polygons, moving, turning, scaling, copying, grouping, splitting, cutting, intersecting and "
            "fragmenting them, giving regions, asking boundaries and selections, keeping some only and meshing, where calls of the kernel fail and "
            "are retried; every live object is compared with its exact set of unit cells after every operation; a fifth of the histories has "
            "simplices, boxes, cylinders, polygons and fractures in general position, compared with affine images of their corners and exact "
            "clipping, and writes files; non-trivial = at least one "
            "Boolean operation and six operations")
    REAL = ["bgem.gmsh.gmsh", "gmsh kernel with OpenCASCADE", "bgem.gmsh.gmsh_io (reading the mesh)"]
    STUB = ["failing kernel calls", "the kernel is started once per process"]
    ASSUME = ["Boolean operations of shapes on an integer grid, or of two convex shapes no corner of which is within 1e-3 of the other", "objects that share kernel shapes with others are not moved",
              "one factory at a time (documented)"]
    STATE_MEASURE = "distinct cell models of all live objects"

    def setup(self):
        import gmsh
        if not getattr(gmsh, "_verif", False):
            gmsh._verif = True
            gmsh.initialize(["-noenv"], False)
            gmsh.initialize = lambda *a, **k: None
            gmsh.finalize = lambda *a, **k: None
            occ = gmsh.model.occ
            for o, n in ((occ, "fragment"), (occ, "cut"), (occ, "intersect"), (occ, "copy"), (gmsh.model, "getBoundary")):
                self.wrap(o, n)
        gmsh.option.setNumber("General.Terminal", 0)

    fail = None     # name of the kernel call that fails next

    def wrap(self, o, n):
        real = getattr(o, n)

        def call(*a, **k):
            if C18.fail == n:
                C18.fail = None
                raise Exception("Simulated failure of the kernel in " + n)
            return real(*a, **k)
        setattr(o, n, staticmethod(call))

    # -- plans ---------------------------------------------------------------
    def gen(self, rng, tier):
        if rng.random() < 0.2:
            return affine.gen(rng, tier)
        ops = []
        r9 = lambda: rng.randrange(9)
        size = lambda: rng.choice([1, 1, 2, 2, 3, 4])
        pos = lambda: rng.randrange(-2, 4)

        def shape():
            k = rng.choices(["box", "rect", "poly"], [4, 2, 2])[0]
            if k == "box":
                return [k, [pos(), pos(), pos()], [size(), size(), size()]]
            if k == "rect":
                return [k, [pos(), pos(), pos()], [size(), size()]]
            return [k, rng.randrange(3), pos(), [pos(), pos()], [size(), size()], rng.randrange(4)]

        for _ in range(rng.choice([2, 3, 3, 4])):
            ops.append(shape())
        for _ in range(rng.choice([3, 6, 10, 14])):
            k = rng.choices(["shape", "move", "turn", "scale", "copy", "group", "frag", "cut", "isec", "sfrag", "splitcut", "select", "bnd", "bndreg",
                             "breg", "bdim", "region", "fmt", "tagreg", "small", "keep", "step", "ents", "mesh"],
                            [5, 4, 3, 1, 4, 2, 5, 3, 3, 2, 2, 2, 6, 3, 2, 2, 5, 1, 1, 1, 1, 2, 2, 1])[0]
            f = rng.choice(["", "", "", "", "kernel", "copy"])
            if k == "shape":
                ops.append(shape())
            elif k == "move":
                ops.append([k, r9(), [rng.randrange(-2, 3) for _ in range(3)]])
            elif k == "turn":
                ops.append([k, r9(), rng.randrange(3), rng.choice([1, 2, 3]), [rng.randrange(-1, 2) for _ in range(3)]])
            elif k == "scale":
                ops.append([k, r9(), [rng.randrange(-1, 2) for _ in range(3)]])
            elif k in ("group", "splitcut"):
                ops.append([k, [r9() for _ in range(rng.choice([2, 2, 3]))], f])
            elif k == "frag":
                ops.append([k, [r9() for _ in range(rng.choice([1, 2, 2, 3, 3]))], f])
            elif k in ("cut", "isec", "sfrag", "select"):
                ops.append([k, r9(), [r9() for _ in range(rng.choice([1, 1, 2]))], f])
            elif k == "bnd":
                ops.append([k, r9(), rng.randrange(2), f])
            elif k == "bndreg":
                ops.append([k, r9(), f])
            elif k == "region":
                ops.append([k, r9(), rng.randrange(6)])
            elif k == "keep":
                ops.append([k, [r9() for _ in range(rng.choice([0, 1, 2, 3]))]])
            elif k == "step":
                ops.append([k, r9(), rng.choice([0.5, 1, 3]), f])
            elif k in ("ents", "mesh"):
                ops.append([k])
            elif k == "small":
                ops.append([k, r9(), rng.choice([0, 1, 3, 8])])
            else:
                ops.append([k, r9()])
        if rng.random() < 0.35:
            ops.append(["frag", [0, 1, 2, 3][:rng.choice([1, 2, 3, 4])], ""])
            if rng.random() < 0.5:
                ops.append(["region", r9(), rng.randrange(6)])
            ops.append(["mesh"])
            if rng.random() < 0.3:
                ops.append(["region", r9(), rng.randrange(6)])
                ops.append(["mesh"])
        return {"config": {}, "ops": ops}

    def nontrivial(self, plan, ctx):
        return len(plan["ops"]) >= 6 and ctx.probes.get("boolean", 0) > 0

    # -- execution -----------------------------------------------------------
    def execute(self, plan, ctx):
        import gmsh
        from bgem.gmsh import gmsh as bg
        self.g, self.bg, self.ctx = gmsh, bg, ctx
        C18.fail = None
        gmsh.clear()
        self.live, self.tmp = [], None
        self.nfam = 0
        self.regs = {}
        # default regions are shared by the whole process
        saved = [(r, r.name, r.dim) for r in bg.Region.default_region]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.f = ctx.call("factory", bg.GeometryOCC, "sim")
                if plan["config"].get("mode") == "affine":
                    affine.Run(self, Stop).run(plan["ops"])
                    return
                for op in plan["ops"]:
                    getattr(self, "op_" + op[0])(*op[1:])
                    self.check_all(op[0])
        except Stop:
            pass
        finally:
            C18.fail = None
            for r, name, dim in saved:
                r.name, r.dim = name, dim
            self.f = None
            self.live = []
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)

    def kcall(self, what, fn, *args):
        """Fault free call; ends the run if the kernel is not capable of it."""
        try:
            return self.ctx.run(fn, *args)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            if INCAPABLE.search(str(e)) or e.__cause__ is not None and INCAPABLE.search(str(e.__cause__)):
                self.ctx.probe("kernel-incapable")
                raise Stop()
            raise Violation("exception:%s:%s" % (what, type(e).__name__), "%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], where(e)))

    def add(self, *a, **kw):
        s = S(*a, **kw)
        self.live.append(s)
        return s

    def drop(self, s):
        if s in self.live:
            self.live.remove(s)
        for c in s.children:
            self.drop(c)
        s.children = []

    def pick(self, i, cond=lambda s: True):
        l = [s for s in self.live if cond(s) and s.shapes]
        return l[i % len(l)] if l else None

    def picks(self, idx, cond=lambda s: True):
        out = []
        for i in idx:
            l = [s for s in self.live if cond(s) and s.shapes and s not in out]
            if l:
                out.append(l[i % len(l)])
        return out

    # derived = boundary of a live object, only looked at
    def whole(self, s):
        return s.family != "derived"

    def movable(self, s):
        return s.fresh

    def size_ok(self, cells):
        return all(-12 <= x <= 14 for d, c in cells for q in c for x in corners(d, q)[0])

    def faulty(self, fail, kernel, what, error, fn, *sets):
        """Call fn; with an injected failure first, which must be reported and
        leave the operands as they were."""
        if fail:
            C18.fail = kernel if fail == "kernel" else "copy"
            r, e = self.ctx.attempt(fn)
            fired = C18.fail is None
            C18.fail = None
            if not fired:
                if e is not None:
                    return self.kcall(what, raiser, e)
                return r
            self.ctx.fault("kernel-" + (kernel if fail == "kernel" else "copy"))
            if e is None:
                raise Violation("hidden-failure", "%s returned normally although the kernel failed" % what)
            if fail == "kernel" and error is not None and not isinstance(e, error):
                raise Violation("error-type", "%s reported a failure of the kernel by %s, not by %s" % (what, type(e).__name__, error.__name__))
            e = None
            self.check_all(what + " failed")
        return self.kcall(what, fn)

    # makers
    def op_box(self, lo, size):
        lo = [int(x) for x in lo]
        size = [max(1, int(x)) for x in size]
        c = [a + b / 2 for a, b in zip(lo, size)]
        o = self.kcall("box", self.f.box, list(size), list(c))
        self.add(o, [(3, box_cells(lo, [a + b for a, b in zip(lo, size)]), ("d", 3))], True)

    def op_rect(self, lo, size):
        size = [max(1, int(x)) for x in size]
        c = [lo[0] + size[0] / 2, lo[1] + size[1] / 2, lo[2]]
        arg, arg2 = list(size), list(c)
        o = self.kcall("rectangle", self.f.rectangle, arg, arg2)
        self.ctx.expect(arg == size and arg2 == c, "argument", "rectangle changed the list of sides given")
        self.add(o, [(2, rect_cells(2, lo[2], lo[:2], [lo[0] + size[0], lo[1] + size[1]]), ("d", 2))], True)

    def op_poly(self, axis, plane, lo, size, step):
        size = [max(1, int(x)) for x in size]
        a, b = [x for x in range(3) if x != axis]
        pts = []
        for u, v in ((0, 0), (1, 0), (1, 1), (0, 1)):
            q = [0, 0, 0]
            q[axis], q[a], q[b] = plane, lo[0] + u * size[0], lo[1] + v * size[1]
            pts.append(q)
        st = [None, 1.5, 2, [1.0, 2.0, 1.0, 2.0]][step % 4]
        o = self.kcall("make_polygon", self.f.make_polygon, pts, st)
        self.add(o, [(2, rect_cells(axis, plane, lo, [lo[0] + size[0], lo[1] + size[1]]), ("d", 2))], True)

    # movers
    def moved(self, s, f, what, fn):
        new = [(d, mapcells(d, c, f), r) for d, c, r in s.shapes]
        if not self.size_ok([(d, c) for d, c, _ in new]):
            return
        r = self.kcall(what, fn)
        self.ctx.expect(r is s.obj, "chain", what + " does not return the object")
        s.shapes = new
        for c in s.children:
            self.drop(c)
        s.children = []

    def op_move(self, i, v):
        s = self.pick(i, self.movable)
        if s:
            self.moved(s, lambda p: tuple(x + y for x, y in zip(p, v)), "translate", lambda: s.obj.translate(list(v)))

    def op_turn(self, i, axis, quarters, c):
        s = self.pick(i, self.movable)
        if not s:
            return
        a, b = (axis + 1) % 3, (axis + 2) % 3

        def f(p):
            p = list(p)
            for _ in range(quarters % 4):
                u, v = p[a] - c[a], p[b] - c[b]
                p[a], p[b] = c[a] - v, c[b] + u
            return tuple(p)
        ax = [0, 0, 0]
        ax[axis] = 1
        self.moved(s, f, "rotate", lambda: s.obj.rotate(ax, quarters * math.pi / 2, list(c)))

    def op_scale(self, i, c):
        s = self.pick(i, self.movable)
        if s and sum(len(x) for _, x, _ in s.shapes) < 40:
            self.moved(s, lambda p: tuple(o + 2 * (x - o) for x, o in zip(p, c)), "scale", lambda: s.obj.scale([2, 2, 2], list(c)))

    def op_copy(self, i):
        s = self.pick(i, lambda s: self.whole(s) and not s.overlapping())
        if s:
            o = self.kcall("copy", s.obj.copy)
            one = len(o.dim_tags) == 1
            self.add(o, list(s.shapes), s.fresh or one, simple=s.simple and (one or len(s.shapes) == 1 and s.fresh))

    def op_group(self, idx, fail=""):
        ss = []
        for s in self.picks(idx, self.whole):
            if len({x.family for x in ss + [s] if x.family}) < 2:
                ss.append(s)
        if not ss:
            return
        o = self.kcall("group", self.f.group, *[s.obj for s in ss])
        if len(ss) == 1:
            self.ctx.expect(o is ss[0].obj, "group", "group of one object is another object")
            return
        self.ctx.expect([tuple(t) for t in o.dim_tags] == [tuple(t) for s in ss for t in s.obj.dim_tags], "group", "group is not the sequence of its objects")
        for s in ss:
            self.drop(s)
        n = self.add(o, [x for s in ss for x in s.shapes], all(s.fresh for s in ss), max([s.family for s in ss if s.family], default=None), simple=False)
        n.mixed = len({s.family for s in ss}) > 1 or any(s.mixed for s in ss)

    def op_breg(self, i):
        s = self.pick(i, self.whole)
        if not s:
            return
        out = self.kcall("split_by_region", s.obj.split_by_region)
        want = {}
        for x in s.shapes:
            want.setdefault(x[2], []).append(x)
        # an object of which nothing is left has no region to be found
        n = len([1 for v in want.values() if any(c for _, c, _ in v)])
        self.ctx.expect(len(out) == n, "split", lambda: "%d parts by region, expected %d" % (len(out), n))
        self.drop(s)
        for o in out:
            key = self.key(o.regions[0])
            self.ctx.expect(key in want, "split", lambda: "part of an unknown region %r" % (key,))
            self.add(o, want.pop(key), s.fresh, s.family, simple=s.simple and len(out) == 1).mixed = s.mixed

    def op_bdim(self, i):
        s = self.pick(i, self.whole)
        if not s:
            return
        out = self.kcall("split_by_dimension", s.obj.split_by_dimension)
        self.ctx.expect(len(out) == 4, "split", "not one part per dimension")
        self.drop(s)
        for d, o in enumerate(out):
            sh = [x for x in s.shapes if x[0] == d]
            self.ctx.expect(all(t[0] == d for t in o.dim_tags), "split", "wrong dimension in a part")
            self.ctx.expect(bool(sh) or not o.dim_tags, "split", "part of a dimension the object does not have")
            if sh:
                self.add(o, sh, s.fresh, s.family, simple=s.simple).mixed = s.mixed

    # regions
    def key(self, r):
        for d, x in enumerate(self.bg.Region.default_region):
            if r is x:
                return ("d", d)
        for k, x in self.regs.items():
            if r is x:
                return k
        return ("?", r.name)

    def op_region(self, i, n):
        s = self.pick(i, lambda s: len(s.dims()) == 1)
        if not s:
            return
        (dim,) = s.dims()
        if dim == 1:
            return
        if not s.obj.dim_tags:
            return
        name = NAMES[dim][n % 3]
        if n < 3:
            key = ("n", name)
            r = self.kcall("set_region", s.obj.set_region, name)
            got = s.obj.regions[0]
            # a mesh may have numbered the regions of the same name
            self.ctx.expect((key in self.regs or got.name == name) and self.regs.setdefault(key, got) is got, "region", "two regions of one name %r" % name)
        else:
            key = ("x", name)
            if key not in self.regs:
                self.regs[key] = self.bg.Region.get(name, dim if n == 4 else None)
            r = self.kcall("set_region", s.obj.set_region, self.regs[key])
        self.ctx.expect(r is s.obj, "chain", "set_region does not return the object")
        s.shapes = [(d, c, key) for d, c, _ in s.shapes]

    def op_fmt(self, i):
        s = self.pick(i, self.whole)
        if not s or not s.obj.dim_tags:
            return
        self.kcall("modify_regions", s.obj.modify_regions, "up_{}")
        new = []
        for d, c, k in s.shapes:
            # a region of covered cells only need not have reached any kernel object
            name = "up_" + ("default_%dd" % k[1] if k[0] == "d" else self.rname(k))
            new.append((d, c, ("n", name)))
        for r in s.obj.regions:
            self.ctx.expect(r.name in [k[1] for _, _, k in new], "region", lambda: "unexpected region %r" % r.name)
            self.ctx.expect(self.regs.setdefault(("n", r.name), r) is r, "region", "two regions of one name %r" % r.name)
        s.shapes = new

    def op_tagreg(self, i):
        """Debugging aid: a region per kernel object."""
        s = self.pick(i, lambda s: self.whole(s) and len(s.shapes) == 1 and len(s.obj.dim_tags) == 1)
        if not s:
            return
        self.kcall("set_region_from_dimtag", s.obj.set_region_from_dimtag)
        (d, c, _), = s.shapes
        r = s.obj.regions[0]
        name = "%d_%d" % tuple(s.obj.dim_tags[0])
        self.ctx.expect(r.name == name and self.regs.setdefault(("n", name), r) is r, "region", lambda: "region %r of %r" % (r.name, s.obj.dim_tags))
        s.shapes = [(d, c, ("n", name))]

    # Boolean operations
    def op_frag(self, idx, fail=""):
        ss = self.fragmentable(idx)
        if not ss:
            return
        out = self.faulty(fail, "fragment", "fragment", self.bg.BoolOperationError, lambda: self.f.fragment(*[s.obj for s in ss]), *ss)
        self.fragmented(ss, out)

    def fragmentable(self, idx):
        ss = []
        for s in self.picks(idx, self.whole):
            tags = [t for x in ss + [s] for t in x.obj.dim_tags]
            # the kernel forgets a face given together with the solid it bounds
            mixed = {d for x in ss + [s] if not x.fresh for d in x.dims()}
            if tags and len(set(tags)) == len(tags) and len(mixed) < 2:
                ss.append(s)
        return ss

    def fragmented(self, ss, out):
        self.ctx.probe("boolean")
        self.ctx.expect(len(out) == len(ss), "fragment", "fragment returned %d sets for %d" % (len(out), len(ss)))
        self.nfam += 1
        # shapes shared with other live objects change under them
        gone = {s.family for s in ss if s.family}
        for s in list(self.live):
            if s in ss or s.family in gone:
                self.drop(s)
        dims = {d for s in ss for d in s.dims()}
        new = []
        for s, o in zip(ss, out):
            new.append(self.add(o, s.shapes, False, self.nfam, simple=len(dims) == 1 and not s.overlapping()))
        for s in ss:
            self.dead(s.obj)
        for i, a in enumerate(new):
            for b in new[:i]:
                if a.overlapping() or b.overlapping():
                    continue
                for d in (2, 3):
                    shared = {t for t in a.obj.dim_tags if t[0] == d} & {t for t in b.obj.dim_tags if t[0] == d}
                    m = sum(self.g.model.occ.getMass(*t) for t in shared)
                    want = len(a.cells(d) & b.cells(d))
                    self.ctx.expect(abs(m - want) < 1e-6 * (1 + want), "conformal", lambda: "fragments share %g of dimension %d, the objects %d" % (m, d, want))
        for d in (2, 3):
            tags = {t for a in new for t in a.obj.dim_tags if t[0] == d}
            m = sum(self.g.model.occ.getMass(*t) for t in tags)
            cells = set()
            for a in new:
                cells |= a.cells(d)
            self.ctx.expect(abs(m - len(cells)) < 1e-6 * (1 + m), "conformal", lambda: "fragments make %g of dimension %d, expected %d" % (m, d, len(cells)))
        return new

    def dead(self, o):
        """A consumed object must not pass for a live one."""
        self.ctx.expect(not o.dim_tags, "consumed", "a consumed object still has kernel objects")

    def boolean(self, i, idx, fail, kernel, what, method, comb):
        s = self.pick(i, lambda s: s.fresh and s.obj.dim_tags and not s.overlapping() and len(s.dims()) == 1)
        if not s:
            return
        (dim,) = s.dims()
        ts = [t for t in self.picks(idx, lambda t: t is not s and self.whole(t) and t.obj.dim_tags) if min(t.dims()) >= dim and not t.overlapping()]
        ok = []
        for t in ts:
            # tools disjoint from each other and without shared kernel shapes
            if all(not (t.cells(d) & o.cells(d)) for o in ok for d in t.dims()):
                ok.append(t)
        if not ok:
            return
        tool3, tool2 = set(), set()
        for t in ok:
            tool3 |= t.cells(3)
            tool2 |= t.cells(2)
        if tool3 and tool2 and comb != "frag":
            return
        r = self.faulty(fail, kernel, what, self.bg.BoolOperationError, lambda: getattr(s.obj, method)(*[t.obj for t in ok]), s, *ok)
        self.ctx.probe("boolean")
        new = []
        for d, c, k in s.shapes:
            if comb != "frag":
                inside = self.inside(d, c, tool3, tool2, comb)
                c = frozenset(inside if comb == "isec" else c - inside)
            new.append((d, c, k))
        old = s.obj
        self.drop(s)
        self.dead(old)
        for t in ok:
            self.ctx.expect(t.obj.dim_tags, "tool", "a tool object was consumed by " + what)
        return self.add(r, new, False, simple=comb != "frag" or tool2 == set() or dim == 2), ok

    @staticmethod
    def inside(d, cells, tool3, tool2, comb):
        out = set()
        for c in cells:
            if d == 3:
                if c in tool3:
                    out.add(c)
            else:
                axis, p = c[0], c[1]
                q, a, b = sq3(c)
                low = list(q)
                low[axis] -= 1
                # a face of a solid belongs to the solid
                if tuple(q) in tool3 or tuple(low) in tool3 or c in tool2:
                    out.add(c)
        return frozenset(out)

    def op_cut(self, i, idx, fail=""):
        self.boolean(i, idx, fail, "cut", "cut", "cut", "cut")

    def op_isec(self, i, idx, fail=""):
        self.boolean(i, idx, fail, "intersect", "intersect", "intersect", "isec")

    def op_sfrag(self, i, idx, fail=""):
        self.boolean(i, idx, fail, "fragment", "fragment", "fragment", "frag")

    def op_select(self, i, idx, fail=""):
        """Select the fragments inside of the tools that fragmented the object."""
        r = self.boolean(i, idx, "", "fragment", "fragment", "fragment", "frag")
        if not r:
            return
        s, ts = r
        if any(t.dims() != {3} for t in ts):
            return
        tool3 = set()
        for t in ts:
            tool3 |= t.cells(3)
        (dim,) = s.dims()
        if dim == 2:
            # a fragment in a face common to two tools meets both
            for t in ts:
                for o in ts:
                    if t is not o and surface(t.cells(3)) & surface(o.cells(3)) & s.cells(2):
                        return
            if any(len(t.shapes) > 1 or not t.fresh for t in ts):
                return
        elif any(not t.fresh or t.overlapping() for t in ts):
            return
        o = self.faulty(fail, "intersect", "select_by_intersect", None, lambda: s.obj.select_by_intersect(*[t.obj for t in ts]), s, *ts)
        self.ctx.expect(set(o.dim_tags) <= set(s.obj.dim_tags), "select", "selected something else than parts of the object")
        n = self.add(o, [(d, self.inside(d, c, tool3, set(), "isec"), k) for d, c, k in s.shapes], False, family="derived", simple=False)
        s.children.append(n)

    def op_splitcut(self, idx, fail=""):
        ss = self.fragmentable(idx)
        if len(ss) < 2 or any(s.overlapping() for s in ss) or any(a.cells(d) & b.cells(d) for a in ss[1:] for b in ss[1:] if a is not b for d in (2, 3)):
            return
        a, ts = ss[0], ss[1:]
        out = self.faulty(fail, "fragment", "split_by_cut", self.bg.BoolOperationError, lambda: a.obj.split_by_cut(*[t.obj for t in ts]), *ss)
        self.ctx.probe("boolean")
        self.ctx.expect(len(out) == 4, "split_by_cut", "not four parts")
        gone = {s.family for s in ss if s.family}
        for s in list(self.live):
            if s in ss or s.family in gone:
                self.drop(s)
        self.nfam += 1
        tool = {d: set().union(*[t.cells(d) for t in ts]) for d in (2, 3)}
        tsh = [x for t in ts for x in t.shapes]
        # objects the cut consists of, the rest of tools, the common part by the regions of either
        parts = [[(d, c - tool[d], k) for d, c, k in a.shapes], [(d, c - a.cells(d), k) for d, c, k in tsh],
                 [(d, c & tool[d], k) for d, c, k in a.shapes], [(d, c & a.cells(d), k) for d, c, k in tsh]]
        for o, p in zip(out, parts):
            self.add(o, p, False, self.nfam, simple=False)

    # queries
    def op_bnd(self, i, combined, fail=""):
        s = self.pick(i, self.whole)
        if not s or not s.obj.dim_tags or len(s.dims()) != 1:
            return
        (dim,) = s.dims()
        o = self.faulty(fail, "getBoundary", "get_boundary", self.bg.GetBoundaryError, lambda: s.obj.get_boundary(bool(combined)), s)
        exact = s.simple and not s.overlapping()
        self.ctx.expect(len(o.dim_tags) == len(o.regions) and all(d == dim - 1 for d, _ in o.dim_tags)
                        and all(r is self.bg.Region.default_region[dim - 1] for r in o.regions), "boundary", lambda: "boundary %r %r" % (o.dim_tags, o.regions))
        one = len(s.obj.dim_tags) == 1
        if exact and (combined or one):
            c = s.cells(dim)
            b = surface(c) if dim == 3 else perimeter(c)
            n = self.add(o, [(dim - 1, b, ("d", dim - 1))], False, family="derived")
            s.children.append(n)
        self.ctx.probe("boundary")

    def op_bndreg(self, i, fail=""):
        s = self.pick(i, self.whole)
        if not s or not s.obj.dim_tags or len(s.dims()) != 1:
            return
        (dim,) = s.dims()
        if dim != 3 or s.overlapping():
            return
        out = self.faulty(fail, "getBoundary", "get_boundary_per_region", self.bg.GetBoundaryError, lambda: s.obj.get_boundary_per_region(), s)
        exact = s.simple and not s.overlapping()
        want = {}
        for d, c, k in s.shapes:
            if c:
                want.setdefault(k, set()).update(c)
        self.ctx.expect(len(out) == len(want), "boundary", lambda: "%d boundaries of %d regions" % (len(out), len(want)))
        names = {"." + ("default_3d" if k[0] == "d" else self.rname(k)): k for k in want}
        if len(names) != len(want):
            return
        for o in out:
            r = o.regions[0]
            self.ctx.expect(all(x is r for x in o.regions) and r.dim == dim - 1 and r.name in names, "boundary", lambda: "region of a boundary is %r" % (r,))
            key = ("b", r.name, r.id)
            self.regs[key] = r
            if exact:
                n = self.add(o, [(2, surface(want[names[r.name]]), key)], False, family="derived")
                s.children.append(n)
        self.ctx.probe("boundary")

    def op_small(self, i, limit):
        s = self.pick(i, lambda s: s.fresh and len(s.obj.dim_tags) == len(s.shapes))
        if not s or any(len(c) == limit for _, c, _ in s.shapes):
            return
        r = self.kcall("remove_small_mass", s.obj.remove_small_mass, limit)
        self.ctx.expect(r is s.obj, "chain", "remove_small_mass does not return the object")
        s.shapes = [x for x in s.shapes if len(x[1]) > limit]

    def closure(self, objs, sync=True):
        """Kernel objects of the sets and everything on their boundaries."""
        if sync:
            self.g.model.occ.synchronize()
        tags = {tuple(t) for o in objs for t in o.dim_tags}
        todo = set(tags)
        while todo:
            low = set()
            for t in todo:
                if t[0] > 0:
                    low |= {tuple(x) for x in self.g.model.getBoundary([t], combined=False, oriented=False)}
                    low |= {tuple(x) for x in self.g.model.mesh.getEmbedded(*t)} if t[0] > 1 and sync else set()
            todo = low - tags
            tags |= low
        return tags

    def op_keep(self, idx):
        ss = self.picks(idx, self.whole)
        self.kcall("keep_only", self.f.keep_only, *[s.obj for s in ss])
        self.kept(ss)

    def kept(self, ss):
        for s in list(self.live):
            if s not in ss and s.family != "derived":
                self.drop(s)
        self.live = [s for s in self.live if s in ss]
        got = {tuple(t) for t in self.kcall("all_entities", self.f.all_entities)}
        want = self.closure([s.obj for s in ss])
        extra = got - want
        if extra:
            # some are beyond the power of the kernel
            try:
                self.g.model.occ.remove(sorted(extra, reverse=True))
            except Exception:
                pass
            self.g.model.occ.synchronize()
            got -= extra & set(self.g.model.getEntities())
        self.ctx.expect(got == want, "keep_only", lambda: "after keeping only some objects the model has also %r, lacks %r" % (sorted(got - want)[:10], sorted(want - got)[:10]))

    def op_ents(self):
        got = {tuple(t) for t in self.kcall("all_entities", self.f.all_entities)}
        self.g.model.occ.synchronize()
        want = {tuple(t) for t in self.g.model.occ.getEntities()}
        self.ctx.expect(got == want, "entities", lambda: "all_entities has also %r, lacks %r" % (sorted(got - want)[:10], sorted(want - got)[:10]))

    def op_step(self, i, step, fail=""):
        s = self.pick(i, self.whole)
        if not s or not s.obj.dim_tags or 0 in s.dims():
            return
        self.faulty(fail, "getBoundary", "set_mesh_step", self.bg.GetBoundaryError, lambda: s.obj.set_mesh_step(step), s)
        nodes = sorted(t for t in self.closure([s.obj], False) if t[0] == 0)
        got = [x for x in self.g.model.mesh.getSizes(nodes)]
        self.ctx.expect(all(x == step for x in got), "mesh-step", lambda: "mesh steps at the points are %r, asked %r" % (sorted(set(got)), step))
        self.ctx.probe("mesh-step")

    def op_mesh(self):
        """Mesh the objects of the last fragmentation and read the file back."""
        ctx, g = self.ctx, self.g
        fam = max((s.family for s in self.live if isinstance(s.family, int)), default=None)
        ss = [s for s in self.live if s.family == fam and s.obj.dim_tags] if fam else []
        if not ss or any(s.mixed for s in ss) or sum(len(c) for s in ss for _, c, _ in s.shapes) > 120:
            return
        g.option.setNumber("Mesh.MeshSizeMin", 2.5)
        g.option.setNumber("Mesh.MeshSizeMax", 1e22)
        # names are made unique by numbers
        base = {}
        for s in ss:
            for r in s.obj.regions:
                base[r.id] = r.name
        self.kcall("make_mesh", self.f.make_mesh, [s.obj for s in ss], *([3] if len(ss) % 2 else []))
        if not self.tmp:
            self.tmp = tempfile.mkdtemp(prefix="verif-c18-")
        path = os.path.join(self.tmp, "m.msh2")
        self.kcall("write_mesh", self.f.write_mesh, path)
        self.kept(ss)
        if self.unmeshed(ss):
            g.model.mesh.clear()
            self.kcall("kernel mesh", g.model.mesh.generate, 3)
            if self.unmeshed(ss):
                # the kernel is not able to mesh the geometry
                ctx.probe("kernel-cannot-mesh")
                return
        # groups of the kernel
        want = {}
        for s in ss:
            for t, r in zip(s.obj.dim_tags, s.obj.regions):
                want.setdefault(r.id, (r, set()))[1].add(tuple(t))
        got = {}
        for d, n in g.model.getPhysicalGroups():
            name = g.model.getPhysicalName(d, n)
            ctx.expect((d, name) not in got, "groups", lambda: "two physical groups named %r" % name)
            got[d, name] = {(d, int(t)) for t in g.model.getEntitiesForPhysicalGroup(d, n)}
        names = [r.name for r, _ in want.values()]
        ctx.expect(len(set(names)) == len(names), "groups", lambda: "region names are not unique: %r" % sorted(names))
        for i, (r, tags) in want.items():
            ctx.expect(r.name == base[i] or r.name.startswith(base[i] + "_"), "groups", lambda: "region %r is now called %r" % (base[i], r.name))
            ctx.expect(got.get((r.dim, r.name)) == tags, "groups", lambda: "group %r is %r, expected %r" % (r.name, got.get((r.dim, r.name)), tags))
        ctx.expect(len(got) == len(want), "groups", lambda: "extra physical groups %r" % sorted(set(n for _, n in got) - set(names)))
        # the file
        from bgem.gmsh.gmsh_io import GmshIO
        m = self.kcall("read the mesh", GmshIO, path)
        physical = {n.strip('"'): v for n, v in m.physical.items()}
        vol = {}
        for eid, (t, tags, ns) in m.elements.items():
            p = [[float(x) for x in m.nodes[n]] for n in ns]
            if t == 4:
                v = abs(det([sub(p[k], p[0]) for k in (1, 2, 3)])) / 6
            elif t == 2:
                v = norm(cross(sub(p[1], p[0]), sub(p[2], p[0]))) / 2
            else:
                continue
            vol[tags[0]] = vol.get(tags[0], 0.0) + v
        want = {}
        for s in ss:
            sh = {}
            for d, c, k in s.shapes:
                if c:
                    name = self.rname(k)
                    want.setdefault((name, d), set()).update(c)
        for (name, d), c in want.items():
            ctx.expect(name in physical and physical[name][1] == d, "mesh-region", lambda: "the mesh has no region %r of dimension %d: %r" % (name, d, physical))
            v = vol.get(physical[name][0], 0.0)
            ctx.expect(abs(v - len(c)) < 1e-6 * (1 + len(c)), "mesh-region", lambda: "region %r of the mesh has measure %g, expected %d" % (name, v, len(c)))
        ctx.probe("mesh")
        for s in ss:
            ctx.log("mesh", sorted(physical))

    def same_cells(self, s, k):
        """Are the solids of a region really made of the cells they should be?"""
        d, reg = k
        if d != 3:
            return False
        self.g.model.occ.synchronize()
        tags = [t for t, r in zip(s.obj.dim_tags, s.obj.regions) if t[0] == 3 and self.key(r) == reg]
        cells = [c for x, cs, r in s.shapes if x == 3 and r == reg for c in cs]
        lo = [min(c[i] for c in cells) - 1 for i in range(3)]
        hi = [max(c[i] for c in cells) + 2 for i in range(3)]
        for c in box_cells(lo, hi):
            p = list(center(3, c))
            if sum(self.g.model.isInside(3, t, p) for _, t in tags) != cells.count(c):
                return False
        return True

    def unmeshed(self, ss):
        return any(not len(self.g.model.mesh.getElements(*t)[0]) for s in ss for t in s.obj.dim_tags if t[0] > 1)

    def rname(self, k):
        return self.bg.Region.default_region[k[1]].name if k[0] == "d" else self.regs[k].name if k in self.regs else k[1]

    # -- oracle --------------------------------------------------------------
    def check_all(self, what):
        ctx, occ = self.ctx, self.g.model.occ
        st = []
        for s in self.live:
            o = s.obj
            ctx.expect(o.dim_tags is not None and o.regions is not None and len(o.dim_tags) == len(o.regions), "object-lost",
                       lambda: "after %s an object has kernel objects %r and regions %r" % (what, o.dim_tags, o.regions))
            got, want = {}, {}
            for (d, t), r in zip(o.dim_tags, o.regions):
                key = (d, self.key(r))
                m = got.setdefault(key, [0.0] * 4)
                x = occ.getMass(d, t)
                c = occ.getCenterOfMass(d, t)
                m[0] += x
                for i in range(3):
                    m[i + 1] += x * c[i]
            for d, c, k in s.shapes:
                if c:
                    m = want.setdefault((d, k), [0.0] * 4)
                    for i, x in enumerate(moments(d, c)):
                        m[i] += x
            ctx.expect(set(got) == set(want), "region", lambda: "after %s an object has regions %r, expected %r" % (what, sorted(got), sorted(want)))
            for k in want:
                ok = [abs(x - y) < 1e-5 * (1 + want[k][0]) for x, y in zip(got[k], want[k])]
                if ok[0] and not all(ok) and self.same_cells(s, k):
                    # OpenCASCADE is at times wrong about the center of a solid
                    ctx.probe("kernel-center-wrong")
                    continue
                ctx.expect(all(ok), "shape", lambda: "after %s region %r has measure and moments %r, expected %r" % (what, k, got[k], want[k]))
            st.append(sorted((d, sorted(c), k) for d, c, k in s.shapes))
        # the object's own measures
        if self.live:
            s = self.live[-1]
            m = sum(len(c) for _, c, _ in s.shapes)
            v = self.kcall("mass", s.obj.mass)
            ctx.expect(abs(v - m) < 1e-5 * (1 + m), "mass", lambda: "mass %r, expected %d" % (v, m))
            if m:
                c, v = self.kcall("center_of_mass", s.obj.center_of_mass)
                w = [0.0] * 3
                for t in s.obj.dim_tags:
                    x = occ.getMass(*t)
                    for i, y in enumerate(occ.getCenterOfMass(*t)):
                        w[i] += x * y / m
                ctx.expect(abs(v - m) < 1e-5 * (1 + m) and all(abs(x - y) < 1e-5 * (1 + abs(y)) for x, y in zip(c, w)), "mass",
                           lambda: "center of mass %r, expected %r" % (c, w))
        ctx.log(what, [(sorted(x[0] for x in s.shapes), len(s.obj.dim_tags)) for s in self.live])
        ctx.state(repr(st).encode())


def raiser(e):
    raise e


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(sum(x * x for x in a))


def det(m):
    return sum(x * y for x, y in zip(m[0], cross(m[1], m[2])))


SCENARIO = C18()
