"""C12: a mesh, field or report that could not be written is never taken for
written: the call fails, or the file holds everything."""
from ..core import Scenario, InjectedBase
from .. import simdisk
from . import meshio


WRITE_ERR = ["EPIPE", "EROFS", "ESTALE", "ETIMEDOUT", "EPERM", "EFBIG", "ENOSPC", "EIO", "EDQUOT", "ENXIO", "ECONNRESET"]
OPEN_ERR = ["EROFS", "EMFILE", "ENOENT", "EISDIR", "EEXIST", "ENFILE", "ENOTDIR", "EPERM", "ESTALE", "ELOOP", "EIO", "ENOSPC"]


class C12(Scenario):
    ID = "C12"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 600000
    QUICK_WALL = 40
    RULE = ("histories of writes (mesh into own file, into a given stream, healed mesh, fields, quality report) on a simulated "
            "disk that fails at a chosen byte, at close or at open (full disk, I/O error, quota, broken pipe, stale handle and other errors, delayed write-back error, failing rename), with short and interrupted "
            "writes, each followed now and then by a healthy retry; non-trivial = at least one fault reached the program and "
            "at least one write succeeded")
    REAL = ["bgem.gmsh.gmsh_io", "bgem.gmsh.heal_mesh (write, stats_to_yaml)", "io buffered and text layers of CPython", "yaml"]
    STUB = ["disk: in-memory raw file with injected errors"]
    ASSUME = ["a stream given by the caller is closed by the caller, who sees the error at close"]
    STATE_MEASURE = "distinct (writer, fault, outcome, file content) reached"

    def gen(self, rng, tier):
        meshes = [meshio.gen_mesh(rng) for _ in range(2)]
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            io_ = meshio.gen_io(rng)
            if rng.random() < 0.7:
                io_["kind"] = rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "CLOSE", "CLOSE", "OPEN", "OPEN", "RENAME", "any", "any"])
                if io_["kind"] == "any":
                    io_["kind"] = rng.choice(WRITE_ERR)
                elif io_["kind"] in ("CLOSE", "RENAME") and rng.random() < 0.6:
                    io_["err"] = rng.choice(WRITE_ERR)
                elif io_["kind"] == "OPEN" and rng.random() < 0.6:
                    io_["err"] = rng.choice(OPEN_ERR)
                if rng.random() < 0.05:
                    io_["nth"] = 2
                io_["at"] = int(rng.choice([0, 1, rng.uniform(0, 200), rng.uniform(0, 1500)]))
            ops.append(["write", rng.choice(["own", "own", "stream", "heal", "fields", "fields0", "yaml"]),
                        rng.randrange(2), rng.randrange(2), io_])
        ops.append(["write", rng.choice(["own", "fields"]), 0, 0, {}])
        return {"config": {"meshes": meshes}, "ops": ops}

    def execute(self, plan, ctx):
        w = meshio.World(ctx, plan["config"])
        with simdisk.mounted(w.disk):
            self.go(plan, ctx, w)

    def writer(self, w, kind, mesh, path):
        """A function that writes, through the public interface."""
        import numpy as np
        spec = w.specs[mesh % len(w.specs)]
        g = w.new(mesh)
        if kind == "own":
            g.filename = path
            return g, lambda: g.write_ascii()
        if kind == "stream":
            def f():
                with open(path, "w") as s:
                    g.write_ascii(s)
            return g, f
        if kind in ("heal", "yaml"):
            from bgem.gmsh import heal_mesh
            t = w.new()
            t.nodes = {1: [0., 0., 0.], 2: [1., 0., 0.], 3: [0., 1., 0.], 4: [0., 0., 1.]}
            t.elements = {1: (4, [1, 1], [1, 2, 3, 4]), 2: (2, [2, 2], [1, 2, 3])}
            t.physical = {r[0]: (r[1], r[2]) for r in spec["phys"]}
            h = heal_mesh.HealMesh(t, path)
            if kind == "yaml":
                return t, lambda: h.stats_to_yaml(path)
            return t, lambda: h.write(path)
        ids = [r[0] for r in spec["els"]] or [1]
        vals = {"f": np.arange(2.0 * len(ids)).reshape(-1, 2) / 3, "g h": np.ones((len(ids), 1)) * 0.1}
        if kind == "fields0":
            g.filename = path
            return g, lambda: g.write_fields(None, ids, vals)
        return g, lambda: g.write_fields(path, ids, vals)

    def go(self, plan, ctx, w):
        good = bad = 0
        clean = {}
        for op in plan["ops"]:
            _, kind, mesh, file, io_ = op
            path = w.path(file)
            key = (kind, mesh % len(w.specs))
            if key not in clean:
                p0 = simdisk.PREFIX + "clean.msh"
                g, f = ctx.call("prepare", self.writer, w, kind, mesh, p0)
                ctx.call("write:" + kind, f)
                clean[key] = bytes(w.disk.files[p0])
                if kind in ("own", "stream", "heal"):
                    w.check_file("write:" + kind, p0, meshio.content(g))
            g, f = ctx.call("prepare", self.writer, w, kind, mesh, path)
            before = meshio.content(g)
            w.disk.arm(io_)
            _, e = ctx.attempt(f)
            if isinstance(e, InjectedBase):
                raise e
            fired = w.disk.os_errors > 0
            w.disk.arm({})
            if e is None:
                good += 1
                now = bytes(w.disk.files.get(path, b""))
                ctx.expect(now == clean[key], "silent-loss",
                           lambda: "writing (%s) returned normally after %s and left %d of %d bytes" % (kind, io_.get("kind"), len(now), len(clean[key])))
            else:
                bad += 1
                ctx.expect(fired, "spurious-error", lambda: "writing (%s) raised %r, the disk reported no error" % (kind, e))
                ctx.expect(isinstance(e, OSError), "wrong-error", lambda: "a disk error surfaced as %r" % (e,))
                ctx.probe("reported:" + io_["kind"])
            ctx.expect(meshio.same(meshio.content(g), before), "mesh-changed", lambda: "a %s write changed the mesh: %s" % (
                "failed" if e else "good", meshio.differ(meshio.content(g), before)))
            ctx.log("write", kind, file, type(e).__name__, len(w.disk.files.get(path, b"")))
            ctx.state((kind, io_.get("kind"), type(e).__name__, bytes(w.disk.files.get(path, b""))))
        ctx.probe("good", good)
        ctx.probe("bad", bad)

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("good", 0) > 0 and ctx.probes.get("bad", 0) > 0


SCENARIO = C12()
