"""C22: mesh size fields have the described value wherever the mesher asks,
size options reach the kernel.  Real gmsh kernel."""
import contextlib
import io

from ..core import Scenario, Violation

BIG = 1e22
EPS = 1e-7


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5


class C22(Scenario):
    ID = "C22"
    QUICK_RUNS = 6000
    THOROUGH_RUNS = 200000
    QUICK_WALL = 60
    RULE = ("histories of making shapes, building fields over fields, choosing the background field, giving mesh steps, setting options and "
            "meshing, where calls of the kernel fail and are retried; the size at every point asked by the mesher is compared with an "
            "independent evaluation of the field; non-trivial = a composed field was judged at some point")
    REAL = ["bgem.gmsh.field", "bgem.gmsh.options", "bgem.gmsh.gmsh", "gmsh kernel with OpenCASCADE and mesher"]
    STUB = ["failing kernel calls", "the kernel is started once per process", "the size callback answers a constant to keep meshes small"]
    ASSUME = ["straight edges", "thresholds are not put over restricted fields (the kernel evaluates them without the entity)"]
    STATE_MEASURE = "distinct trees of fields used as the background"

    fail = None     # [function name, calls to go]

    def setup(self):
        import gmsh
        if not getattr(gmsh, "_verif", False):
            gmsh._verif = True
            gmsh.initialize(["-noenv"], False)
            gmsh.initialize = lambda *a, **k: None
            gmsh.finalize = lambda *a, **k: None
        gmsh.option.setNumber("General.Terminal", 0)
        gmsh.option.setNumber("General.Verbosity", 1)
        F = gmsh.model.mesh.field
        for o, n in ((F, "add"), (F, "setNumber"), (F, "setNumbers"), (F, "setAsBackgroundMesh"), (gmsh.model, "getBoundary"),
                     (gmsh.option, "setNumber")):
            self.wrap(o, n)

    def wrap(self, o, n):
        real = getattr(o, n)
        name = o.__name__ + "." + n

        def call(*a, **k):
            f = C22.fail
            if f and f[0] == name:
                f[1] -= 1
                if f[1] < 0:
                    C22.fail = None
                    raise Exception("Simulated failure of the kernel in " + name)
            return real(*a, **k)
        setattr(o, n, staticmethod(call))

    # -- plans -----------------------------------------------------------------
    def gen(self, rng, tier):
        r9 = lambda: rng.randrange(9)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(self.shape(rng))
        val = lambda: rng.choice([0.05, 0.1, 0.2, 0.4, 0.7, 1.5, 3.0])
        bound = lambda: rng.choice([-9, -5, -2, 0, 3, 5, 9, 20]) * 0.37
        for _ in range(rng.choice([3, 6, 9, 12])):
            k = rng.choices(["box", "const", "nodes", "edges", "thr", "min", "max", "restrict", "set", "step", "opt", "badopt", "mesh", "shape",
                             "options", "reinit"], [4, 2, 4, 3, 6, 3, 3, 4, 3, 2, 3, 1, 2, 1, 0.5, 0.3])[0]
            f = None if rng.random() < 0.8 else [rng.choice(["add", "setNumber", "setNumbers", "setAsBackgroundMesh", "getBoundary", "option"]), rng.choice([0, 0, 1, 2, 3, 7])]
            if k == "shape":
                ops.append(self.shape(rng))
            elif k == "box":
                ops.append([k, [bound() for _ in range(3)], [bound() for _ in range(3)], val(), rng.choice([None, None, val()]), f])
            elif k == "const":
                ops.append([k, val(), rng.choice([1.5, 3, 100]), f])
            elif k == "nodes":
                ops.append([k, [rng.randrange(40) for _ in range(rng.choice([1, 1, 2, 3]))], f])
            elif k == "edges":
                ops.append([k, [rng.randrange(40) for _ in range(rng.choice([1, 1, 2, 3]))], rng.choice([None, 3, 5, 8, 11, 40]), f])
            elif k == "thr":
                a, b = rng.choice([0.0, 0.3, 1.0, 2.0, 4.0]), rng.choice([0.2, 0.5, 1.0, 2.5, 6.0])
                ops.append([k, r9(), [a, val()], None if rng.random() < 0.15 else [a + b, val()], rng.random() < 0.3, f])
                if rng.random() < 0.01:
                    ops[-1][2][0], ops[-1][3] = 12.0, None
            elif k in ("min", "max"):
                ops.append([k, [r9() for _ in range(rng.choice([1, 2, 2, 3]))], f])
            elif k == "restrict":
                ops.append([k, r9(), [r9() for _ in range(rng.choice([1, 1, 2]))], rng.randrange(4), rng.random() < 0.5, f])
            elif k == "set":
                ops.append([k, r9(), f])
            elif k == "step":
                ops.append([k, r9(), val(), f])
            elif k == "opt":
                ops.append([k, rng.randrange(60), rng.randrange(20), f])
            elif k == "badopt":
                ops.append([k, rng.randrange(6), rng.randrange(60)])
            elif k == "mesh":
                ops.append([k, rng.choice([1, 2, 2, 3]), rng.random() < 0.3])
            else:
                ops.append([k, f] if k == "options" else [k])
        ops.append(["set", 0, None] if rng.random() < 0.9 else ["options", None])
        ops.append(["mesh", rng.choice([1, 2, 2, 3]), rng.random() < 0.3])
        return {"config": {"points": rng.random() < 0.4, "extend": rng.randrange(3), "dirty": rng.randrange(2)}, "ops": ops}

    @staticmethod
    def shape(rng):
        p = [rng.randrange(-3, 4) for _ in range(3)]
        if rng.random() < 0.7:
            return ["cube", p, [rng.choice([1, 2]) for _ in range(3)]]
        return ["rect", p, [rng.choice([1, 2, 3]) for _ in range(2)]]

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("composed", 0) > 0

    # -- execution ---------------------------------------------------------------
    def execute(self, plan, ctx):
        import gmsh
        from bgem.gmsh import gmsh as bg, field, options
        self.g, self.bg, self.fd, self.op, self.ctx = gmsh, bg, field, options, ctx
        C22.fail = None
        self.conf = plan["config"]
        self.known_fault = False
        gmsh.clear()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.f = ctx.call("factory", bg.GeometryOCC, "sim")
                gmsh.option.setNumber("General.Verbosity", 1)
                self.new_options(None)
                self.fresh()
                for op in plan["ops"]:
                    getattr(self, "op_" + op[0])(*op[1:])
                    self.check_options(op[0])
        finally:
            C22.fail = None
            gmsh.model.mesh.removeSizeCallback()
            self.f = self.mo = self.go = None
            self.objs = []

    def fresh(self):
        self.objs = []      # [object, kind]
        self.fields = []    # (id, spec)
        self.bgf = None
        self.steps = {}
        self.curves = {}

    def faulty(self, what, fault, fn, *args):
        """With an injected failure first, which must be reported."""
        ctx = self.ctx
        if fault:
            name = {"option": "option.setNumber", "getBoundary": "model.getBoundary"}.get(fault[0], "field." + fault[0])
            C22.fail = [name, max(0, fault[1])]
            r, e = ctx.attempt(fn, *args)
            fired = C22.fail is None
            C22.fail = None
            if not fired:
                if e is not None:
                    raise Violation("exception:%s:%s" % (what, type(e).__name__), "%s raised %r" % (what, e))
                return r
            ctx.fault("kernel-" + fault[0])
            ctx.expect(e is not None, "hidden-failure", "%s returned %r although the kernel failed" % (what, r))
        return ctx.call(what, fn, *args)

    # -- shapes --------------------------------------------------------------------
    def put(self, make, what):
        if len(self.objs) >= 5:
            return
        o = self.ctx.call(what, make)
        # apart from each other
        self.ctx.call("translate", o.translate, [7.0 * len(self.objs), 0, 0])
        self.objs.append(o)
        self.ctx.call("synchronize", self.f.synchronize)
        # sizes of points do not live through changes of the geometry
        self.steps = {}

    def op_cube(self, p, size):
        self.put(lambda: self.f.box([max(1, s) for s in size], [x / 2 for x in p]), "box")

    def op_rect(self, p, size):
        self.put(lambda: self.f.rectangle([max(1, s) for s in size], [x / 2 for x in p]), "rectangle")

    def entities(self, dim):
        self.f.synchronize()
        return sorted(t for d, t in self.g.model.getEntities(dim))

    def vertex(self, t):
        return tuple(float(x) for x in self.g.model.getValue(0, t, []))

    def ends(self, t):
        b = self.g.model.getBoundary([(1, t)], combined=False, oriented=False)
        return [self.vertex(x) for _, x in b]

    def op_reinit(self):
        self.ctx.call("reinit", self.f.reinit)
        self.fresh()
        self.put(lambda: self.f.box([1, 1, 1]), "box")

    # -- fields --------------------------------------------------------------------
    def field(self, what, spec, fault, fn, *args):
        i = self.faulty(what, fault, fn, *args)
        ctx = self.ctx
        ctx.expect(isinstance(i, int) and i not in [x for x, _ in self.fields], "field-id", lambda: "%s returned %r, fields are %r" % (what, i, [x for x, _ in self.fields]))
        ctx.expect(i in [int(x) for x in self.g.model.mesh.field.list()], "field-id", lambda: "the kernel has no field %r" % i)
        self.fields.append((i, spec))

    def pickf(self, i, cond=lambda s: True):
        l = [f for f in reversed(self.fields) if cond(f[1])]
        return l[i % len(l)] if l else None

    def op_box(self, lo, hi, vin, vout, fault=None):
        lo, hi = [min(a, b) for a, b in zip(lo, hi)], [max(a, b) for a, b in zip(lo, hi)]
        vin = vin or 0.1
        spec = ("box", tuple(lo), tuple(hi), vin, vout if vout else BIG)
        self.field("box", spec, fault, self.fd.box, lo, hi, vin, *([vout] if vout else []))

    def op_const(self, v, r, fault=None):
        v, r = v or 0.1, r or 1
        self.field("constant", ("box", (-r,) * 3, (r,) * 3, v, BIG), fault, self.fd.constant, v, r)

    def op_nodes(self, idx, fault=None):
        v = self.entities(0)
        if not v or not idx:
            return
        tags = sorted({v[i % len(v)] for i in idx})
        pts = tuple(self.vertex(t) for t in tags)
        self.field("distance_nodes", ("dist", pts, pts), fault, self.fd.distance_nodes, tags)

    def op_edges(self, idx, n, fault=None):
        c = self.entities(1)
        if not c or not idx:
            return
        tags = sorted({c[i % len(c)] for i in idx})
        m = max(3, n) if n else 8
        inner, outer = [], []
        for t in tags:
            a, b = self.ends(t)
            p = [tuple(x + (y - x) * k / (m - 1) for x, y in zip(a, b)) for k in range(m)]
            outer += p
            inner += p[1:-1]
        self.field("distance_edges", ("dist", tuple(inner), tuple(outer)), fault, self.fd.distance_edges, tags, *([m] if n else []))

    def op_thr(self, i, lo, up, sigmoid, fault=None):
        f = self.pickf(i, lambda s: not restricted(s))
        if f is None:
            return
        lo = (lo[0], lo[1] or 0.1)
        up = None if up is None else (max(up[0], lo[0] + 0.1), up[1] or 0.1)
        args = (f[0], lo) + ((up,) if up else ()) + ((True,) if sigmoid and up else ())
        self.field("threshold", ("thr", f[1], lo, up, bool(sigmoid and up)), fault, self.fd.threshold, *args)

    def op_min(self, idx, fault=None):
        self.comb("min", self.fd.min, idx, fault)

    def op_max(self, idx, fault=None):
        self.comb("max", self.fd.max, idx, fault)

    def comb(self, what, fn, idx, fault):
        fs = [self.pickf(i) for i in idx]
        if not fs or None in fs:
            return
        self.field(what, (what, tuple(f[1] for f in fs)), fault, fn, [f[0] for f in fs])

    def op_restrict(self, i, idx, kind, add_boundary, fault=None):
        f = self.pickf(i)
        if f is None or not self.objs or not idx:
            return
        sets = []
        for j in idx:
            o = self.objs[j % len(self.objs)]
            if kind == 1:
                o = self.ctx.call("get_boundary", o.get_boundary, False)
            elif kind == 2:
                o = self.ctx.call("get_boundary", self.ctx.call("get_boundary", o.get_boundary, False).get_boundary, False)
            sets.append(o)
        own = sorted({tuple(t) for o in sets for t in o.dim_tags})
        listed, below = set(own), set(own)
        if add_boundary:
            listed |= self.below(own)
            low = own
            while low:
                low = sorted(self.below(low))
                below |= set(low)
        self.field("restrict", ("restrict", f[1], frozenset(listed), frozenset(below - listed)), fault,
                   lambda: self.fd.restrict(f[0], *sets, **({"add_boundary": True} if add_boundary else {})))

    def below(self, dimtags):
        self.f.synchronize()
        return {(d, abs(t)) for dt in dimtags if dt[0] > 0 for d, t in self.g.model.getBoundary([dt], combined=False, oriented=False)}

    def op_set(self, i, fault=None):
        f = self.pickf(i)
        if f is None:
            return
        self.faulty("set_mesh_step_field", fault if fault and fault[0] == "setAsBackgroundMesh" else None, self.fd.set_mesh_step_field, f[0])
        self.bgf = f
        self.ctx.state(f[1])

    # -- steps and options -----------------------------------------------------------
    def op_step(self, i, step, fault=None):
        if not self.objs:
            return
        o = self.objs[i % len(self.objs)]
        step = step or 0.1
        self.faulty("set_mesh_step", fault if fault and fault[0] == "getBoundary" else None, o.set_mesh_step, step)
        low = {tuple(t) for t in o.dim_tags}
        while low:
            low = self.below(sorted(low))
            for d, t in low:
                if d == 0:
                    self.steps[t] = step

    def new_options(self, fault):
        ctx = self.ctx
        self.mo = self.go = None
        # what somebody else left in the kernel
        N, S = self.g.option.getNumber, self.g.option.setNumber
        other = {}
        if self.conf.get("dirty", 0):
            for n, v in self.DEFAULT.items():
                S(n, {0: 1, 1: 0}.get(v, v * 2 if n not in self.LEVELS else self.LEVELS[n]))
        for n, v in self.FREE.items():
            S(n, v)
            other[n] = N(n)
        def make():
            return self.op.Mesh(), self.op.Geometry()
        self.mo, self.go = self.faulty("options", fault if fault and fault[0] == "option" else None, make)
        for n, v in self.DEFAULT.items():
            ctx.expect(N(n) == v, "option-default", lambda: "new options left %s at %r, they state %r" % (n, N(n), v))
        for n, v in other.items():
            ctx.expect(N(n) == v, "option-default", lambda: "new options changed %s, for which they state no value, from %r to %r" % (n, v, N(n)))
        if self.conf.get("dirty", 0):
            ctx.probe("defaults-restored")
        for n, (cls, names) in self.NAMED.items():
            for name, v in names.items():
                ctx.call("option", setattr, self.mo, n, getattr(getattr(self.op, cls), name))
                ctx.expect(N("Mesh." + n) == v, "option-name", lambda: "%s.%s is %r for the kernel, which calls %r so" % (cls, name, N("Mesh." + n), v))
            ctx.call("option", setattr, self.mo, n, self.DEFAULT["Mesh." + n])
        # sizes from the field only
        for name, v in (("CharacteristicLengthFromPoints", bool(self.conf["points"])), ("CharacteristicLengthFromCurvature", False),
                        ("CharacteristicLengthExtendFromBoundary", self.conf["extend"] % 3), ("CharacteristicLengthFactor", 1.0)):
            ctx.call("option", setattr, self.mo, name, v)
        self.values = {n: self.g.option.getNumber(n) for n in self.all_options()}
        for name, v in (("CharacteristicLengthFromPoints", bool(self.conf["points"])), ("CharacteristicLengthFactor", 1.0)):
            ctx.expect(self.values["Mesh." + name] == v, "option-value", lambda: "option %s is %r after it was set to %r" % (name, self.values["Mesh." + name], v))

    def op_options(self, fault=None):
        self.new_options(fault)

    # what new options are documented to set, and those without a value
    DEFAULT = {"Mesh.Algorithm": 2, "Mesh.Algorithm3D": 1, "Mesh.ToleranceInitialDelaunay": 1e-12, "Mesh.ToleranceEdgeLength": 0,
               "Mesh.AngleToleranceFacetOverlap": 0.1, "Mesh.AnisoMax": 1e-10, "Mesh.CharacteristicLengthFromPoints": 1,
               "Mesh.CharacteristicLengthFromCurvature": 1, "Mesh.QualityType": 2, "Mesh.MinimumCirclePoints": 6, "Mesh.MinimumCurvePoints": 6,
               "Mesh.RandomFactor": 1e-9, "Mesh.RandomFactor3D": 1e-12, "Geometry.Tolerance": 1e-8, "Geometry.ToleranceBoolean": 0,
               "Geometry.AutoCoherence": 1, "Geometry.OCCFixDegenerated": 0, "Geometry.OCCFixSmallEdges": 0, "Geometry.OCCFixSmallFaces": 0,
               "Geometry.OCCBooleanPreserveNumbering": 1, "Geometry.OCCSewFaces": 0}
    LEVELS = {"Mesh.Algorithm": 5, "Mesh.Algorithm3D": 4, "Mesh.QualityType": 1, "Mesh.MinimumCirclePoints": 9, "Mesh.MinimumCurvePoints": 4}
    FREE = {"Mesh.CharacteristicLengthExtendFromBoundary": 2, "Mesh.CharacteristicLengthMin": 0.0, "Mesh.CharacteristicLengthMax": 1e22,
            "Mesh.CharacteristicLengthFactor": 0.75}
    # the names gmsh gives to the values
    NAMED = {"Algorithm": ("Algorithm2d", {"MeshAdapt": 1, "Automatic": 2, "Delaunay": 5, "FrontalDelaunay": 6, "BAMG": 7, "FrontalDelaunayQuads": 8,
                                           "ParalelogramsPacking": 9}),
             "Algorithm3D": ("Algorithm3d", {"Delaunay": 1, "Frontal": 4, "MMG3D": 7, "RTree": 9, "HXT": 10}),
             "QualityType": ("QualityType", {"SignedInversConditionNumber": 0, "SignedInverseGradientError": 1, "Gamma": 2, "Distorsion": 3})}
    MESH = {"Algorithm": [1, 2, 5, 6], "Algorithm3D": [1, 4, 10], "ToleranceInitialDelaunay": [1e-12, 1e-10], "ToleranceEdgeLength": [0, 1e-6],
            "AngleToleranceFacetOverlap": [0.1, 0.2], "AnisoMax": [1e-10, 0.5], "CharacteristicLengthMin": [0.0, 0.25],
            "CharacteristicLengthMax": [1e22, 0.8], "QualityType": [0, 1, 2, 3], "MinimumCirclePoints": [6, 9],
            "MinimumCurvePoints": [6, 4], "RandomFactor": [1e-9, 1e-8], "RandomFactor3D": [1e-12, 1e-11]}
    GEOM = {"Tolerance": [1e-8, 1e-7], "ToleranceBoolean": [0.0, 1e-7], "AutoCoherence": [1, 0], "OCCFixDegenerated": [False, True],
            "OCCFixSmallEdges": [False, True], "OCCFixSmallFaces": [True, False], "OCCBooleanPreserveNumbering": [True], "OCCSewFaces": [False, True]}
    ENUM = {"Algorithm": "Algorithm2d", "Algorithm3D": "Algorithm3d", "QualityType": "QualityType"}

    def all_options(self):
        return ["Mesh." + n for n in list(self.MESH) + ["CharacteristicLengthFromPoints", "CharacteristicLengthFromCurvature", "CharacteristicLengthExtendFromBoundary",
                                                        "CharacteristicLengthFactor"]] + ["Geometry." + n for n in self.GEOM]

    def option(self, i):
        l = sorted(self.MESH) + sorted(self.GEOM)
        n = l[i % len(l)]
        return (self.mo, "Mesh.", n, self.MESH[n]) if n in self.MESH else (self.go, "Geometry.", n, self.GEOM[n])

    def op_opt(self, i, k, fault=None):
        o, prefix, n, vals = self.option(i)
        v = vals[k % len(vals)]
        w = v
        if n in self.ENUM and k % 2:
            w = getattr(self.op, self.ENUM[n])(v)
        self.faulty("option", fault if fault and fault[0] == "option" else None, setattr, o, n, w)
        self.values[prefix + n] = float(v)
        self.ctx.probe("option")

    def op_badopt(self, k, i):
        o, prefix, n, vals = self.option(i)
        # the fifth exists in the kernel, but the options do not offer it
        name, v = [("Tolerence", 1.0), (n, "high"), (n, None), (n, [1.0]), ("Smoothing" if o is self.mo else "NumSubEdges", 3.0), (n, float)][k % 6]
        _, e = self.ctx.attempt(setattr, o, name, v)
        self.ctx.expect(e is not None, "option-accepted", lambda: "option %s%s took the value %r" % (prefix, name, v))
        self.ctx.fault("bad-option")

    def check_options(self, what):
        for n, v in self.values.items():
            got = self.g.option.getNumber(n)
            self.ctx.expect(got == v, "option-value", lambda: "after %s option %s is %r, it was set to %r" % (what, n, got, v))

    # -- meshing -------------------------------------------------------------------------
    def op_mesh(self, dim, eliminate):
        ctx, g = self.ctx, self.g
        if not self.objs:
            return
        S = {}

        def cb(d, tag, x, y, z, lc):
            S.setdefault((d, tag, x, y, z), lc)
            return 0.6
        g.model.mesh.setSizeCallback(cb)
        try:
            ctx.call("make_mesh", self.f.make_mesh, self.objs, dim if dim in (1, 3) else 2, bool(eliminate))
        finally:
            g.model.mesh.removeSizeCallback()
        if len(g.model.getEntities(1)) == 0:
            return
        ctx.expect(S, "not-meshed", "the mesher asked for no size")
        kinds = {}
        for k in S:
            kinds.setdefault(k[:2], []).append(k)
        n = 0
        for e, ks in sorted(kinds.items()):
            for k in ks[::max(1, len(ks) // 6)]:
                self.judge(k, S[k])
                n += 1
        ctx.log("mesh", n, sorted((k, round(v, 9) if v < 1e20 else v) for k, v in list(S.items())[::17]))
        ctx.probe("points", n)
        ctx.probe("background" if self.bgf else "no-background")
        if self.bgf and self.bgf[1][0] in ("thr", "min", "max", "restrict"):
            ctx.probe("composed")

    def judge(self, k, lc):
        d, tag, p = k[0], k[1], k[2:]
        ctx = self.ctx
        cls = "size-open" if self.open(self.bgf) else "size"
        r = (BIG, BIG) if self.bgf is None else value(self.bgf[1], (d, tag), p)
        if r is None:
            ctx.probe("unjudged")
            return
        lo, hi = min(r[0], BIG), min(r[1], BIG)
        if self.conf["points"] and d < 2:
            # sizes at points limit those of the field
            s = None
            if d == 0:
                s = self.steps.get(tag)
            if s is None:
                ctx.expect(lc <= hi * (1 + EPS) + 1e-9, cls, lambda: self.say(k, lc, lo, hi))
                return
            lo, hi = min(lo, s), min(hi, s)
            ctx.probe("step-judged")
        ctx.expect(lo * (1 - EPS) - 1e-9 <= lc <= hi * (1 + EPS) + 1e-9, cls, lambda: self.say(k, lc, lo, hi))
        ctx.probe("judged")

    def open(self, f):
        def rec(s):
            if s[0] == "thr":
                return s[3] is None and s[2][0] > 10 or rec(s[1])
            if s[0] in ("min", "max"):
                return any(map(rec, s[1]))
            return s[0] == "restrict" and rec(s[1])
        return f is not None and rec(f[1])

    def say(self, k, lc, lo, hi):
        return "size %r at %r on entity %r, expected %s; field %r" % (lc, k[2:], k[:2], repr(lo) if lo == hi else "%r to %r" % (lo, hi), self.bgf and self.bgf[1])

    def known(self, plan, violation):
        return "open-threshold" if violation.cls == "size-open" else None


def restricted(s):
    if s[0] == "restrict":
        return True
    if s[0] == "thr":
        return restricted(s[1])
    return s[0] in ("min", "max") and any(restricted(x) for x in s[1])


def value(s, ent, p):
    """Interval of the field at a point on an entity, None if not specified."""
    k = s[0]
    if k == "box":
        inside = all(a - 1e-9 <= x <= b + 1e-9 for a, x, b in zip(s[1], p, s[2]))
        surely = all(a + 1e-9 <= x <= b - 1e-9 for a, x, b in zip(s[1], p, s[2]))
        if inside and not surely:
            return min(s[3], s[4]), max(s[3], s[4])
        return (s[3], s[3]) if inside else (s[4], s[4])
    if k == "dist":
        return min(dist(p, q) for q in s[2]), min(dist(p, q) for q in s[1])
    if k in ("min", "max"):
        vs = [value(x, ent, p) for x in s[1]]
        f = min if k == "min" else max
        if None in vs:
            return None
        return f(v[0] for v in vs), f(v[1] for v in vs)
    if k == "restrict":
        v = value(s[1], ent, p)
        if ent in s[2]:
            return v
        if ent in s[3]:
            return None if v is None else (v[0], BIG)
        return BIG, BIG
    if k == "thr":
        v = value(s[1], ent, p)
        if v is None:
            return None
        (a, va), up, sig = s[2], s[3], s[4]
        if up is None:
            return (va, va) if v[1] <= a - 1e-9 else None
        b, vb = up
        out = []
        for d in v:
            r = max(0.0, min(1.0, (d - a) / (b - a)))
            out += [(r, r)] if not sig else [smooth(r)]
        t0, t1 = min(o[0] for o in out), max(o[1] for o in out)
        ends = (va + (vb - va) * t0, va + (vb - va) * t1)
        return min(ends), max(ends)
    raise AssertionError(k)


def smooth(r):
    """What any sigmoid may be: flatter than a line at the ends."""
    if r <= 0:
        return 0.0, 0.01
    if r >= 1:
        return 0.99, 1.0
    if 0.1 <= r <= 0.4:
        return 0.0, r - 0.03
    if 0.6 <= r <= 0.9:
        return r + 0.03, 1.0
    return max(0.0, r - 0.2), min(1.0, r + 0.2)


SCENARIO = C22()
