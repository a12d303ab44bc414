"""C11: a mesh written as text and read back is the same mesh."""
from ..core import Scenario
from .. import simdisk
from . import meshio


class C11(Scenario):
    ID = "C11"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 600000
    QUICK_WALL = 40
    RULE = ("histories of writing, overwriting, reading and re-reading several meshes (all element types, 0-4 tags, sparse and "
            "unsorted ids, extreme coordinates, quoted names with spaces) through own files and given streams on a simulated "
            "disk with short reads/writes, interrupted calls and tiny buffers; files of other programs (version 1 and 2, CRLF, "
            "unknown sections); non-trivial = at least two writes or foreign files and two reads")
    REAL = ["bgem.gmsh.gmsh_io", "io.TextIOWrapper and buffered layers of CPython"]
    STUB = ["disk: in-memory raw file with injected short transfers and EINTR"]
    ASSUME = ["ASCII names; names with spaces are quoted; coordinates are finite floats"]
    STATE_MEASURE = "distinct file contents written or read"

    def gen(self, rng, tier):
        meshes = [meshio.gen_mesh(rng) for _ in range(rng.choice([1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([3, 6, 10])):
            r = rng.random()
            if r < 0.45:
                ops.append(["write", rng.randrange(3), rng.randrange(3), rng.randrange(3), rng.randrange(2), meshio.gen_io(rng)])
            elif r < 0.6:
                ops.append(["foreign", rng.randrange(3), rng.randrange(3), rng.randrange(128)])
            else:
                ops.append(["read", rng.randrange(3), rng.randrange(3), rng.randrange(3), meshio.gen_io(rng)])
        ops.append(["read", 0, 0, 0, {}])
        return {"config": {"meshes": meshes}, "ops": ops}

    def execute(self, plan, ctx):
        w = meshio.World(ctx, plan["config"])
        with simdisk.mounted(w.disk):
            self.go(plan, ctx, w)

    def go(self, plan, ctx, w):
        specs = w.specs
        objs = {k: w.new() for k in range(3)}
        have = {k: meshio.content(objs[k]) for k in range(3)}
        files = {}
        for op in plan["ops"]:
            k = op[0]
            if k == "write":
                _, slot, mesh, file, how, io_ = op
                g, spec, path = objs[slot], specs[mesh % len(specs)], w.path(file)
                # mesh 2 stands for: write what this object holds now
                if mesh < 2:
                    meshio.fill(g, spec)
                    have[slot] = meshio.model(spec)
                ctx.call("write", w.write, g, path, how, io_)
                files[path] = have[slot]
                w.check_file("write", path, have[slot])
                ctx.expect(meshio.same(meshio.content(g), have[slot]), "write-changes-mesh",
                           lambda: "writing changed the mesh: " + meshio.differ(meshio.content(g), have[slot]))
                ctx.probe("write")
                ctx.log("write", file, w.text(path))
                ctx.state(bytes(w.disk.files[path]))
            elif k == "foreign":
                _, mesh, file, style = op
                spec, path = specs[mesh % len(specs)], w.path(file)
                w.disk.files[path] = bytearray(meshio.foreign(spec, style))
                files[path] = meshio.foreign_model(spec, style)
                ctx.probe("foreign-v1" if style & 4 else "foreign-v2")
                ctx.log("foreign", file, style)
            elif k == "read":
                _, slot, file, how, io_ = op
                path = w.path(file)
                if path not in files:
                    g, e = ctx.attempt(w.read, objs[slot], path, how, io_)
                    ctx.expect(isinstance(e, OSError), "missing-file", lambda: "reading a missing file gave %r" % (e,))
                    if how != 0:
                        have[slot] = meshio.content(objs[slot])
                    continue
                before = bytes(w.disk.files[path])
                g = ctx.call("read", w.read, objs[slot], path, how, io_)
                objs[slot] = g
                got = meshio.content(g)
                ctx.expect(meshio.same(got, files[path]), "round-trip", lambda: "read back: " + meshio.differ(got, files[path]))
                have[slot] = files[path]
                ctx.expect(bytes(w.disk.files[path]) == before, "read-changes-file", "reading changed the file")
                ctx.probe("read")
                ctx.log("read", file, repr(got))
                ctx.state(before)

    def nontrivial(self, plan, ctx):
        p = ctx.probes
        return p.get("read", 0) >= 2 and p.get("write", 0) + p.get("foreign-v1", 0) + p.get("foreign-v2", 0) >= 2


SCENARIO = C11()
