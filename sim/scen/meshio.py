"""Shared world of the mesh file scenarios: meshes, their files on the
simulated disk, and an independent reader and writer of the MSH text format."""
from ..core import Violation
from .. import simdisk

NNODES = {15: 1, 1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 11: 10}
NAMES = ["box", '"box"', '"fr left"', '".side_z0"', "fr_1", '"a b  c"', '"1 2 3"', "x-y.z", '"-"', '"$weird"', "7"]
COORDS = [0.0, 1.0, -1.0, 0.1, -0.3333333333333333, 1e-12, 123456.789, -2.5e10, 5e-324, 1.7976931348623157e308,
          0.30000000000000004, 3, -7, 1e22, 2.0 ** -40]


def gen_mesh(rng, small=False):
    n = rng.choice([0, 1, 3, 5, 9] if not small else [1, 3, 4])
    ids = list(range(1, n + 1))
    if rng.random() < 0.5:
        ids = sorted(rng.sample(range(1, 100000), n))
        rng.shuffle(ids)
    nodes = [[i] + [rng.choice(COORDS) if rng.random() < 0.7 else rng.uniform(-100, 100) for _ in range(3)] for i in ids]
    els = []
    if n:
        eids = rng.sample(range(1, 5000), rng.choice([0, 1, 3, 6, 10]))
        for e in eids:
            t = rng.choice(sorted(NNODES))
            ntags = rng.choice([0, 1, 2, 2, 2, 3, 4])
            els.append([e, t, [rng.randrange(-3, 200) for _ in range(ntags)], [rng.choice(ids) for _ in range(NNODES[t])]])
    phys = [[nm, rng.randrange(1, 1000), rng.randrange(0, 4)] for nm in rng.sample(NAMES, rng.choice([0, 1, 2, 4]))]
    return {"nodes": nodes, "els": els, "phys": phys, "np": rng.random() < 0.3}


def gen_io(rng, write=True):
    return {"chunk": rng.choice([0, 0, 1, 3, 7, 64]), "buf": rng.choice([1, 2, 16, 100, 8192, 8192]), "eintr": rng.choice([0, 0, 0, 1, 3])}


def model(spec):
    return {"nodes": {r[0]: [float(x) for x in r[1:4]] for r in spec["nodes"]},
            "elements": {r[0]: (r[1], list(r[2]), list(r[3])) for r in spec["els"]},
            "physical": {r[0]: (r[1], r[2]) for r in spec["phys"]}}


def fill(mesh, spec):
    """Give the mesh object this content."""
    import numpy as np
    mesh.nodes = {r[0]: (np.array(r[1:4], dtype=float) if spec.get("np") else list(r[1:4])) for r in spec["nodes"]}
    mesh.elements = {r[0]: (r[1], tuple(r[2]) if spec.get("np") else list(r[2]), list(r[3])) for r in spec["els"]}
    mesh.physical = {r[0]: (r[1], r[2]) for r in spec["phys"]}


def content(mesh):
    return {"nodes": {int(k): [float(x) for x in v] for k, v in mesh.nodes.items()},
            "elements": {int(k): (int(v[0]), [int(t) for t in v[1]], [int(n) for n in v[2]]) for k, v in mesh.elements.items()},
            "physical": {k: (int(v[0]), int(v[1])) for k, v in mesh.physical.items()}}


def fields(mesh):
    """{name: {time index: (time, {element id: values})}} with integer ids."""
    return {n: {int(t): (float(tm), {int(i): [float(x) for x in v] for i, v in d.items()}) for t, (tm, d) in f.items()}
            for n, f in mesh.element_data.items()}


def same(a, b):
    return repr(sorted((k, sorted(v.items())) for k, v in a.items())) == repr(sorted((k, sorted(v.items())) for k, v in b.items()))


def differ(got, want):
    for k in ("nodes", "elements", "physical"):
        g, w = got[k], want[k]
        for i in sorted(set(g) | set(w), key=repr):
            if repr(g.get(i)) != repr(w.get(i)):
                return "%s %r is %r, expected %r" % (k, i, g.get(i), w.get(i))
    return "equal"


class NotMsh(Exception):
    pass


def parse(text):
    """Strict independent reader of the text format, version 2."""
    lines = text.split("\n")
    pos = [0]

    def nxt():
        if pos[0] >= len(lines):
            raise NotMsh("ends early")
        l = lines[pos[0]]
        pos[0] += 1
        return l

    out = {"nodes": {}, "elements": {}, "physical": {}}
    fl = []
    order = []
    while pos[0] < len(lines):
        head = nxt()
        if head == "" and pos[0] == len(lines):
            break
        order.append(head)
        if head == "$MeshFormat":
            v, t, d = nxt().split(" ")
            if not (2 <= float(v) < 3 and t == "0" and d == "8"):
                raise NotMsh("format line")
        elif head in ("$PhysicalNames", "$Nodes", "$Elements"):
            n = int(nxt())
            for _ in range(n):
                l = nxt()
                if head == "$PhysicalNames":
                    d, i, name = l.split(" ", 2)
                    key, val, m = name, (int(i), int(d)), out["physical"]
                elif head == "$Nodes":
                    w = l.split(" ")
                    if len(w) != 4:
                        raise NotMsh("node line %r" % l)
                    key, val, m = int(w[0]), [float(x) for x in w[1:]], out["nodes"]
                else:
                    w = [int(x) for x in l.split()]
                    nt = w[2]
                    if len(w) - 3 - nt != NNODES[w[1]]:
                        raise NotMsh("element line %r" % l)
                    key, val, m = w[0], (w[1], w[3:3 + nt], w[3 + nt:]), out["elements"]
                if key in m:
                    raise NotMsh("%s twice" % l)
                m[key] = val
        elif head == "$ElementData":
            tags = []
            for k in range(3):
                tags.append([nxt() for _ in range(int(nxt()))])
            if len(tags[0]) != 1 or len(tags[1]) != 1 or len(tags[2]) < 3:
                raise NotMsh("field tags")
            name = tags[0][0]
            if not (name[:1] == name[-1:] == '"'):
                raise NotMsh("field name")
            t, nc, ne = (int(x) for x in tags[2][:3])
            rows = []
            for _ in range(ne):
                w = nxt().split(" ")
                if len(w) != nc + 1:
                    raise NotMsh("row of %d values" % (len(w) - 1))
                rows.append((int(w[0]), [float(x) for x in w[1:]]))
            fl.append((name[1:-1], float(tags[1][0]), t, rows))
        else:
            raise NotMsh("unexpected line %r" % head)
        end = nxt()
        if end != "$End" + head[1:]:
            raise NotMsh("section %s ends with %r" % (head, end))
    if order[:1] != ["$MeshFormat"]:
        raise NotMsh("no $MeshFormat")
    return out, fl


def foreign(spec, style):
    """The same mesh as another program would write it; style is a bit set."""
    eol = "\r\n" if style & 1 else "\n"
    m = model(spec)
    out = []
    num = (lambda x: "%.17g" % x) if style & 2 else repr
    v1 = bool(style & 4)
    if not v1:
        out += ["$MeshFormat", "2 0 8" if style & 2 else "2.1 0 8", "$EndMeshFormat"]
        if style & 8:
            out += ["$Comments", "1 2 3 4", "1 15 2 0 0 1", "$EndComments"]
        if m["physical"]:
            out += ["$PhysicalNames", str(len(m["physical"]))]
            out += ["%d %d %s" % (d, i, n) for n, (i, d) in m["physical"].items()] + ["$EndPhysicalNames"]
    out += ["$NOD" if v1 else "$Nodes", str(len(m["nodes"]))]
    for i, c in m["nodes"].items():
        sep = "  " if style & 16 else " "
        out.append(sep.join([str(i)] + [num(x) for x in c]) + (" " if style & 16 else ""))
    out += ["$ENDNOD" if v1 else "$EndNodes"]
    if style & 32:
        out += [""]
    out += ["$ELM" if v1 else "$Elements", str(len(m["elements"]))]
    for i, (t, tags, nodes) in m["elements"].items():
        if v1:
            tags = (tags + [0, 0])[:2]
            w = [i, t] + tags + [len(nodes)] + nodes
        else:
            w = [i, t, len(tags)] + tags + nodes
        out.append(" ".join(str(x) for x in w))
        if style & 32 and i % 3 == 0:
            out.append("")
    out += ["$ENDELM" if v1 else "$EndElements"]
    if style & 64 and not v1:
        out += ["$NodeData", "1", '"p"', "1", "0.0", "3", "0", "1", "1", "1 2.5", "$EndNodeData"]
    return (eol.join(out) + eol).encode()


def foreign_model(spec, style):
    m = model(spec)
    if style & 4:
        m["physical"] = {}
        m["elements"] = {i: (t, (tags + [0, 0])[:2], n) for i, (t, tags, n) in m["elements"].items()}
    return m


class World:
    def __init__(self, ctx, config):
        from bgem.gmsh import gmsh_io
        self.mod = gmsh_io
        self.ctx = ctx
        self.disk = simdisk.SimDisk(ctx)
        self.specs = config["meshes"]
        self.meshes = {}

    def path(self, k):
        return "%sm%d.msh" % (simdisk.PREFIX, k)

    def new(self, k=None):
        g = self.ctx.call("create", self.mod.GmshIO)
        if k is not None:
            fill(g, self.specs[k % len(self.specs)])
        return g

    def write(self, g, path, how, fault):
        """The write under test; how: own file name, stream, healer."""
        d = self.disk
        if how == 0:
            g.filename = path
            d.arm(fault)
            return g.write_ascii()
        d.arm(fault)
        with open(path, "w") as f:
            g.write_ascii(f)

    def read(self, g, path, how, fault):
        d = self.disk
        if how == 0:
            d.arm(fault)
            return self.mod.GmshIO(path)
        if how == 1:
            g.reset()
            g.filename = path
            d.arm(fault)
            g.read()
            return g
        g.reset()
        d.arm(fault)
        f = open(path, "r")
        g.read(f)
        return g

    def text(self, path):
        return bytes(self.disk.files[path]).decode("utf-8", "replace")

    def check_file(self, what, path, want):
        try:
            got, fl = parse(self.text(path))
        except (NotMsh, ValueError, KeyError, IndexError) as e:
            raise Violation("bad-file", "%s: the file is not a valid MSH 2 text file: %s %s" % (what, type(e).__name__, e))
        self.ctx.expect(same(got, want), "file-content", lambda: "%s: in the file %s" % (what, differ(got, want)))
        return fl
