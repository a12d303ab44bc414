"""C14: element fields written to a mesh file come back for the same elements,
component by component and time step by time step."""
from ..core import Scenario
from .. import simdisk
from . import meshio

FIELDS = ["conductivity", "a b", "p-1", "x.y", "cross_section"]


class C14(Scenario):
    ID = "C14"
    QUICK_RUNS = 12000
    THOROUGH_RUNS = 600000
    QUICK_WALL = 40
    RULE = ("field files written through every public writer (own file, given stream after a mesh) with one or many components, "
            "one value per element, integer and float arrays, elements in any order, and time series written by another "
            "program, special values and single precision, read by a fresh or a reset reader, over a simulated disk with short and interrupted transfers; files with a lost row or a row of wrong length must be refused; "
            "non-trivial = at least one field of two or more elements came back")
    REAL = ["bgem.gmsh.gmsh_io", "io buffered and text layers of CPython", "numpy"]
    STUB = ["disk: in-memory raw file"]
    ASSUME = ["field names do not contain quotes", "element ids of one field are distinct"]
    STATE_MEASURE = "distinct field files read"

    def gen_field(self, rng):
        n = rng.choice([1, 2, 3, 7])
        ids = rng.sample(range(1, 5000), n)
        nc = rng.choice([0, 1, 2, 3, 9])      # 0: one value per element, flat array
        kind = rng.choice(["float", "float", "int", "f32"])
        val = {"float": lambda: rng.choice([rng.uniform(-1, 1), rng.choice(meshio.COORDS), rng.uniform(-1e30, 1e30), rng.choice([0.25, float("inf"), float("-inf"), float("nan")])]),
               "int": lambda: rng.randrange(-5, 1000), "f32": lambda: rng.choice([rng.randrange(-64, 64) / 8, rng.uniform(-100, 100), rng.uniform(-1, 1) * 10 ** rng.uniform(-30, 30)])}[kind]
        return {"name": rng.choice(FIELDS), "ids": ids, "nc": nc, "kind": kind,
                "vals": [[val() for _ in range(max(1, nc))] for _ in ids]}

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.choice(["fields", "fields", "mesh+fields", "own", "series", "series"])
            fs = {}
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = self.gen_field(rng)
                fs[f["name"]] = f
            ids = rng.sample(range(1, 9000), 12)
            times = [[t, round(rng.uniform(0, 9), 3)] for t in sorted(rng.sample(range(0, 20), rng.choice([1, 2, 4])))]
            ops.append([k, sorted(fs.values(), key=lambda f: f["name"]), ids, times, rng.choice([0, 0, 0, rng.randrange(1, 90)]), meshio.gen_io(rng), meshio.gen_io(rng),
                        rng.choice([0, 0, 1, 2])])
        return {"config": {"meshes": [meshio.gen_mesh(rng)]}, "ops": ops}

    def simplify_op(self, op):
        k, fs, ids, times, miss, a, b, reuse = op
        out = []
        for i in range(len(fs)):
            if len(fs) > 1:
                out.append([k, fs[:i] + fs[i + 1:], ids, times, miss, a, b, reuse])
            f = fs[i]
            for j in range(len(f["ids"])):
                if len(f["ids"]) > 1:
                    g = dict(f, ids=f["ids"][:j] + f["ids"][j + 1:], vals=f["vals"][:j] + f["vals"][j + 1:])
                    out.append([k, fs[:i] + [g] + fs[i + 1:], ids, times, miss, a, b, reuse])
        for i in range(len(times)):
            if len(times) > 1:
                out.append([k, fs, ids, times[:i] + times[i + 1:], miss, a, b, reuse])
        if a:
            out.append([k, fs, ids, times, miss, {}, b, reuse])
        if b:
            out.append([k, fs, ids, times, miss, a, {}, reuse])
        if reuse:
            out.append([k, fs, ids, times, miss, a, b, 0])
        return out

    def array(self, f):
        import numpy as np
        a = np.array(f["vals"], dtype={"float": float, "int": int, "f32": np.float32}[f["kind"]])
        return a[:, 0] if f["nc"] == 0 else a

    def execute(self, plan, ctx):
        w = meshio.World(ctx, plan["config"])
        with simdisk.mounted(w.disk):
            self.go(plan, ctx, w)

    def go(self, plan, ctx, w):
        import numpy as np
        old = None
        path = w.path(0)
        for op in plan["ops"]:
            k, fs, ids, times, miss, io_w, io_r, reuse = op
            # values of single precision are equal when they are the same
            # number of that precision
            single = {f["name"] for f in fs if f["kind"] == "f32"}
            def val(n, x):
                return float(np.float32(x)) if n in single else float(x)
            want = {}
            mesh = {"nodes": {}, "elements": {}, "physical": {}}
            if k == "series":
                # written by another program, several time steps per field
                out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
                for f in fs:
                    for t, tm in times:
                        rows = [(i, [x * (t + 1) for x in v]) for i, v in zip(f["ids"], f["vals"])]
                        want.setdefault(f["name"], {})[t] = (float(tm), {i: [val(f["name"], x) for x in v] for i, v in rows})
                        out += ["$ElementData", "1", '"%s"' % f["name"], "1", repr(tm), "3", str(t), str(max(1, f["nc"])), str(len(rows))]
                        out += ["%d %s" % (i, " ".join(repr(x) for x in v)) for i, v in rows]
                        out += ["$EndElementData"]
                w.disk.files[path] = bytearray(("\n".join(out) + "\n").encode())
                rows = len(fs[-1]["ids"])
            else:
                g = w.new(0)
                if k == "mesh+fields":
                    mesh = meshio.model(w.specs[0])

                    def write():
                        with open(path, "w") as s:
                            g.write_ascii(s)
                            for f in fs:
                                g.write_element_data(s, f["ids"], f["name"], self.array(f))
                    use = fs
                else:
                    # one list of elements for all fields of the file
                    n = min(len(f["ids"]) for f in fs)
                    use = [dict(f, ids=ids[:n], vals=f["vals"][:n]) for f in fs]
                    vals = {f["name"]: self.array(f) for f in use}
                    if k == "own":
                        g.filename = path

                        def write():
                            g.write_fields(None, ids[:n], vals)
                    else:
                        def write():
                            g.write_fields(path, ids[:n], vals)
                for f in use:
                    want[f["name"]] = {0: (0.0, {i: [val(f["name"], x) for x in v] for i, v in zip(f["ids"], f["vals"])})}
                w.disk.arm(io_w)
                ctx.call("write:" + k, write)
                fl = w.check_file("write:" + k, path, mesh)
                got = {n: {t: (tm, {i: [val(n, x) for x in v] for i, v in rows})} for n, tm, t, rows in fl}
                ctx.expect(repr(sorted(got.items())) == repr(sorted(want.items())), "written-field", lambda: "the file holds %r, written %r" % (got, want))
                rows = len(use[-1]["ids"])
            if miss:
                # one row of the last field is lost or has not all its values
                lines = w.text(path).split("\n")
                j = len(lines) - 2 - rows + (miss // 3) % rows
                cols = lines[j].split(" ")
                if miss % 3 == 0:
                    del lines[j]
                    ctx.fault("lost-row")
                elif miss % 3 == 1:
                    lines[j] = " ".join(cols[:-1])
                    ctx.fault("lost-value")
                else:
                    lines[j] = " ".join(cols + cols[-1:])
                    ctx.fault("extra-value")
                w.disk.files[path] = bytearray("\n".join(lines).encode())
            # a fresh reader, the reader of the file before, or the writer
            if reuse == 1 and old is not None or reuse == 2 and k != "series":
                r = old if reuse == 1 else g
                r.reset()
                ctx.probe("reader-reused")
            else:
                r = w.new()
            old = r
            r.filename = path
            w.disk.arm(io_r)
            if miss:
                _, e = ctx.attempt(r.read)
                ctx.expect(e is not None, "missing-row", "a field with a missing row or value was read without an error")
                ctx.probe("missing-row-refused")
                ctx.log(k, "refused", type(e).__name__)
                continue
            ctx.call("read:" + k, r.read)
            got = {n: {t: (tm, {i: [val(n, x) for x in v] for i, v in d.items()}) for t, (tm, d) in f.items()}
                   for n, f in meshio.fields(r).items()}
            ctx.expect(set(got) == set(want), "field-names", lambda: "fields %r read, %r written" % (sorted(got), sorted(want)))
            for n in want:
                ctx.expect(repr(sorted(got[n].items())) == repr(sorted(want[n].items())), "field", lambda: "field %r is %r, expected %r" % (n, got[n], want[n]))
                for t, (tm, d) in got[n].items():
                    if len(d) > 1:
                        ctx.probe("field-back")
            gm = meshio.content(r)
            ctx.expect(meshio.same(gm, mesh), "mesh-with-fields", lambda: "mesh beside the fields: " + meshio.differ(gm, mesh))
            ctx.log(k, repr(sorted(got.items())))
            ctx.state(bytes(w.disk.files[path]))

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("field-back", 0) > 0


SCENARIO = C14()
