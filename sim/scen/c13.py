"""C13: a mesh file cut short by a crash is never read as if it were whole."""
from ..core import Scenario
from .. import simdisk
from . import meshio


def open_section(data):
    """The section the file ends in, None when it is not inside any."""
    sec = None
    lines = data.decode().replace("\r\n", "\n").split("\n")
    for l in lines[:-1]:
        if l.startswith("$"):
            sec = None if l[:4].upper() == "$END" else l
    if lines[-1].startswith("$"):
        # cut inside a section mark
        sec = None
    return sec


def damage(data, kind, at, size):
    """The file after a run of whole lines or a block in the middle was lost;
    None when the loss would hit something the format cannot tell."""
    if kind == "zero":
        # only the part with the numbers of the mesh: names are free text
        lo = [i for i in (data.find(b"$Nodes"), data.find(b"$NOD")) if i >= 0]
        hi = [i for i in (data.find(b"$EndElements"), data.find(b"$ENDELM")) if i >= 0]
        if not lo or not hi or not lo[0] <= at < at + size <= hi[0]:
            return None
        return bytearray(data[:at] + bytes(size) + data[at + size:])
    lines = data.decode().splitlines(keepends=True)
    pos, first = 0, 0
    while first < len(lines) - 1 and pos + len(lines[first]) <= at:
        pos += len(lines[first])
        first += 1
    last, n = first, 0
    while last < len(lines) and n < size:
        n += len(lines[last])
        last += 1
    field, k = False, 0
    for i, l in enumerate(lines):
        if l.startswith("$ElementData"):
            field, k = True, 0
        if field and first <= i < last and k < 9:
            return None         # the head of a field
        if field:
            k += 1
    return bytearray("".join(lines[:first] + lines[last:]).encode())


class C13(Scenario):
    ID = "C13"
    QUICK_RUNS = 20000
    THOROUGH_RUNS = 900000
    QUICK_WALL = 40
    RULE = ("a writing program is stopped at an arbitrary byte of a mesh file (with or without field data behind the mesh), or the "
            "file loses its tail, some lines inside or a block inside, or reading meets an I/O error; a fresh program reads what is left, some rewrite and read again; "
            "non-trivial = a reader met a file that was cut inside its content")
    REAL = ["bgem.gmsh.gmsh_io", "io buffered and text layers of CPython"]
    STUB = ["disk: in-memory raw file, crash leaves a prefix of the byte stream"]
    ASSUME = ["what survives a crash is a prefix of what was written (no reordering of blocks)",
              "lines lost inside are whole lines outside the heads of fields, blocks lost inside read as zeros and lie in the numbers of the mesh",
              "a cut exactly between two sections leaves a valid shorter file, its present sections must be complete"]
    STATE_MEASURE = "distinct surviving prefixes read"

    def gen(self, rng, tier):
        meshes = []
        for _ in range(rng.choice([1, 2])):
            m = meshio.gen_mesh(rng)
            if not m["nodes"]:
                m = meshio.gen_mesh(rng, True)
            meshes.append(m)
        ops = []
        for _ in range(rng.choice([1, 3, 5])):
            nf = rng.choice([0, 0, 1, 2])
            r = rng.random()
            at = rng.random() if rng.random() < 0.7 else 1 - rng.random() * 0.05
            if r < 0.25:
                ops.append([rng.choice(["lost", "lost", "zero"]), rng.randrange(2), nf, rng.random(),
                            [rng.choice([1, 1, 2, 3, 8, 40, 200]), rng.randrange(128)]])
            elif r < 0.55:
                ops.append(["crash", rng.randrange(2), nf, at, meshio.gen_io(rng)])
            elif r < 0.85:
                ops.append(["cut", rng.randrange(2), nf, at, rng.randrange(128)])
            else:
                ops.append(["eio", rng.randrange(2), nf, at, meshio.gen_io(rng)])
            if rng.random() < 0.3:
                ops.append(["rewrite", rng.randrange(2), nf, 0, meshio.gen_io(rng)])
        return {"config": {"meshes": meshes}, "ops": ops}

    def simplify_op(self, op):
        from ..core import generic_simplify
        return [o for o in generic_simplify(op) if o[0] == op[0]]

    def execute(self, plan, ctx):
        w = meshio.World(ctx, plan["config"])
        with simdisk.mounted(w.disk):
            self.go(plan, ctx, w)

    def save(self, w, mesh, nf, path):
        """The program that writes a mesh and fields into one file."""
        import numpy as np
        g = w.new(mesh)
        ids = [r[0] for r in w.specs[mesh % len(w.specs)]["els"]] or [1]
        want = {}
        with open(path, "w") as f:
            g.write_ascii(f)
            for k in range(nf):
                v = (np.arange(len(ids) * (k + 1)).reshape(len(ids), k + 1) + 0.5) / 7
                g.write_element_data(f, ids, "f%d" % k, v)
                want["f%d" % k] = {0: (0.0, {i: [float(x) for x in r] for i, r in zip(ids, v)})}
        return want

    def go(self, plan, ctx, w):
        p = w.path(0)
        full = w.path(1)
        for op in plan["ops"]:
            k, mesh, nf, at, io_ = op
            w.disk.files.pop(p, None)
            spec = w.specs[mesh % len(w.specs)]
            want_f = ctx.call("write", self.save, w, mesh, nf, full)
            data = bytes(w.disk.files[full])
            want = meshio.model(spec)
            if k == "crash":
                n = int(at * (len(data) + 1))
                f = dict(io_, kind="CRASH", at=n)
                w.disk.arm(f)
                epoch = w.disk.epoch
                _, e = ctx.attempt(self.save, w, mesh, nf, p)
                if w.disk.epoch != epoch:
                    ctx.expect(bytes(w.disk.files[p]) == data[:n], "prefix", "the bytes on disk are not a prefix of the mesh file")
                else:
                    ctx.expect(e is None, "write-error", lambda: "writing raised %r" % (e,))
            elif k == "cut":
                if io_ % 3 == 0 and not nf:
                    data = meshio.foreign(spec, io_)
                    want = meshio.foreign_model(spec, io_)
                n = int(at * (len(data) + 1))
                w.disk.files[p] = bytearray(data[:n])
                ctx.fault("lost-tail")
            elif k in ("lost", "zero"):
                if io_[1] % 3 == 0 and not nf:
                    data = meshio.foreign(spec, io_[1])
                    want = meshio.foreign_model(spec, io_[1])
                n = int(at * len(data))
                w.disk.files[p] = damaged = damage(data, k, n, io_[0])
                if damaged is None:
                    continue
                ctx.fault("lost-lines" if k == "lost" else "zeroed-block")
            else:
                n = len(data)
                w.disk.files[p] = bytearray(data)
            fault = None
            if k == "eio":
                fault = dict(io_, kind="EIO", at=int(at * len(data)))
            elif k == "rewrite":
                ctx.call("rewrite", self.save, w, mesh, nf, p)
                fault = io_
            w.disk.arm(fault)
            left = bytes(w.disk.files[p])
            g = w.new()
            g.filename = p
            _, e = ctx.attempt(g.read)
            whole = left == data
            raw = w.disk.last
            ctx.log(k, n, len(left), type(e).__name__)
            ctx.state(left)
            if k == "eio" and raw.errors:
                ctx.expect(isinstance(e, OSError), "silent-read-error", lambda: "reading met an I/O error and %s" % ("returned normally" if e is None else "raised %r" % (e,)))
                ctx.probe("read-error-reported")
                continue
            if e is not None:
                ctx.expect(not whole, "whole-refused", lambda: "a complete file was refused: %r" % (e,))
                ctx.expect(isinstance(e, Exception), "reader", lambda: "reader raised %r" % (e,))
                ctx.probe("cut-refused")
                continue
            got = meshio.content(g)
            what = lambda: ("the file lost its last %d of %d bytes" % (len(data) - len(left), len(data)) if k in ("crash", "cut") else
                            "%d bytes inside the file (%s at %d) were lost" % (io_[0], k, n) if k in ("lost", "zero") else "the file is complete")
            for sec in ("nodes", "elements", "physical"):
                # absent, or complete
                ctx.expect(repr(sorted(got[sec].items())) == repr(sorted(want[sec].items())) or (not whole and not got[sec]), "partial-" + sec,
                           lambda: "%s and was read without an error: %s" % (what(), meshio.differ(got, want)))
            sec = open_section(left) if k in ("crash", "cut") else None
            ctx.expect(sec is None, "cut-section", lambda: "%s, it ends inside %s, and was read without an error" % (what(), sec))
            ff = meshio.fields(g)
            for name, d in ff.items():
                ctx.expect(repr(d) == repr(want_f.get(name)), "partial-field",
                           lambda: "%s and field %r was read without an error as %r" % (what(), name, d))
            if whole:
                ctx.expect(set(ff) == set(want_f), "fields", lambda: "fields %r read, %r written" % (sorted(ff), sorted(want_f)))
                ctx.probe("whole")
            else:
                ctx.probe("cut-between-sections")

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("cut-refused", 0) > 0


SCENARIO = C13()
