"""C16: healing repairs the defects of a mesh and nothing else."""
import itertools
import random
import sys

from ..core import Scenario, HarnessError
from .. import simdisk
from . import meshio

GAMMA_TOL = 0.02


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b, k=1.0):
    return tuple(x + k * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return dot(a, a) ** 0.5


def mean(*ps):
    return tuple(sum(c) / len(ps) for c in zip(*ps))


def volume(p):
    a, b, c = sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])
    return dot(a, cross(b, c)) / 6


def area(p):
    return norm(cross(sub(p[1], p[0]), sub(p[2], p[0]))) / 2


def gamma_tri(p):
    """2 * inradius / circumradius."""
    a, b, c = norm(sub(p[1], p[2])), norm(sub(p[0], p[2])), norm(sub(p[0], p[1]))
    s, A = (a + b + c) / 2, area(p)
    return 0.0 if a * b * c == 0 else 2 * (A / s) / (a * b * c / (4 * A)) if A > 0 else 0.0


def gamma_tet(p):
    """3 * inradius / circumradius."""
    V = abs(volume(p))
    if V <= 1e-13 * max(norm(sub(a, b)) for a, b in itertools.combinations(p, 2)) ** 3:
        return 0.0
    S = sum(area([p[i] for i in f]) for f in itertools.combinations(range(4), 3))
    # circumcentre from the linear system |x - p0| = |x - pi|
    u = [sub(p[i], p[0]) for i in (1, 2, 3)]
    r = [dot(x, x) / 2 for x in u]
    det = dot(u[0], cross(u[1], u[2]))
    x = add(add(tuple(r[0] * c for c in cross(u[1], u[2])), cross(u[2], u[0]), r[1]), cross(u[0], u[1]), r[2])
    R = norm(x) / abs(det)
    return 3 * (3 * V / S) / R


DIM = {15: 0, 1: 1, 2: 2, 4: 3}


def numbers(conf):
    """Ids and displacements drawn from the numbers in the plan."""
    order, seed = conf["ids"]
    r = random.Random(seed)
    nid = r.sample(range(1, 200), 60)
    eid = r.sample(range(1, 400), 200)
    if order in (1, 2):
        nid.sort()
        eid.sort(reverse=order == 2)
    if order == 3:
        nid, eid = list(range(1, 61)), list(range(1, 201))
    j = random.Random(conf["jit"])
    return {"nodes": nid, "els": eid, "jit": [j.uniform(-1, 1) for _ in range(37)]}


class Model:
    """The mesh as it should be read, and as it should be after healing."""

    def __init__(self, conf, rnd):
        self.N = {}         # node -> coordinates
        self.E = {}         # element -> (type, tags, nodes)
        self.drop = set()   # elements that are defects
        self.repl = {}      # element -> list of node tuples after healing
        self.pos = {}       # node -> coordinates after healing
        self.gone = set()   # nodes that vanish
        self.newn = {}      # nodes that appear ('x', k) -> coordinates
        self.foot = set()   # nodes touched by some defect
        self.node_ids = rnd["nodes"]
        self.el_ids = rnd["els"]
        self.loose = 0.0    # how far nodes may move besides
        self.rough = conf.get("rough", 0)
        self.extra = conf.get("extra", 0)
        (self.grid3 if conf["dim"] == 3 else self.grid2)(conf, rnd)
        self.healthy = True

    def node(self, xyz):
        i = self.node_ids[len(self.N) % len(self.node_ids)] + 1000 * (len(self.N) // len(self.node_ids))
        self.N[i] = tuple(float(x) for x in xyz)
        return i

    def el(self, t, tags, nodes):
        tags = self.tags(tags)
        n = len(self.E)
        i = self.el_ids[n % len(self.el_ids)] + 1000 * (n // len(self.el_ids))
        self.E[i] = (t, tuple(tags), tuple(nodes))
        return i

    def tags(self, tags):
        """The two usual tags, or fewer, or more for partitions."""
        if len(tags) != 2:
            return tags
        k = self.extra
        return tuple(tags)[:2 + min(k, 0)] + (3, 77, 78, 79)[:max(k, 0)]

    def short(self, k, f, tol):
        """A line of f times the tolerance that touches nothing else."""
        lo, hi = [[g(c) for c in zip(*self.N.values())] for g in (min, max)]
        c = [l + (h - l) * (0.3 + 0.07 * ((k >> i) % 4)) for i, (l, h) in enumerate(zip(lo, hi))]
        d = [(1, 0, 0), (0, 1, 0), (1, -1, 0), (1, 1, 1)][k % 4]
        n = self.node(c)
        m = self.node(add(c, tuple(f * tol * x / norm(d) for x in d)))
        e = self.el(1, (80, 8), (n, m))
        self.foot |= {n, m}
        if f < 1:
            self.gone.add(("either", n, m))
            self.pos[n] = mean(self.N[n], self.N[m])
            self.drop.add(e)

    def grid2(self, conf, rnd):
        nx, ny = [max(1, x) for x in conf["size"][:2]]
        sc, off, tilt = conf["scale"] or 1.0, conf["off"], conf["tilt"]
        J = rnd["jit"]
        k = 0
        P = {}
        for i in range(nx + 1):
            for j in range(ny + 1):
                a = 0.1 if not self.rough else (0.05, 0.25, 0.45, 0.495)[int(abs(J[(k * 3 + 5) % len(J)]) * 4) % 4] * self.rough
                dx, dy = J[k % len(J)] * a, J[(k + 1) % len(J)] * a
                k += 2
                x, y = i + dx, j + dy
                P[i, j] = self.node((sc * x + off, sc * y - off, sc * tilt * (x - 0.5 * y)))
        self.up = (0.0, 0.0, 1.0)
        for i in range(nx):
            for j in range(ny):
                a, b, c, d = P[i, j], P[i + 1, j], P[i + 1, j + 1], P[i, j + 1]
                tags = (10 + (i + j) % 2, 1)
                if J[(i * 7 + j * 3) % len(J)] > 0:
                    ts = [(a, b, c), (a, c, d)]
                else:
                    ts = [(a, b, d), (b, c, d)]
                for m, t in enumerate(ts):
                    s = (i + j + m) % 3
                    self.el(2, tags, t[s:] + t[:s])
        for i in range(nx):
            self.el(1, (20, 2), (P[i, 0], P[i + 1, 0]))
            self.el(1, (21, 2), (P[i + 1, ny], P[i, ny]))
        self.el(15, (30, 3), (P[0, 0],))

    def grid3(self, conf, rnd):
        nx, ny, nz = [max(1, x) for x in (conf["size"] + [1])[:3]]
        sc, off = conf["scale"] or 1.0, conf["off"]
        J = rnd["jit"]
        k = 0
        P = {}
        for i in range(nx + 1):
            for j in range(ny + 1):
                for l in range(nz + 1):
                    d = [J[(k + m) % len(J)] * conf["jit3"] for m in range(3)]
                    k += 3
                    P[i, j, l] = self.node([sc * (u + v) + off for u, v in zip((i, j, l), d)])
        faces = {}
        for i, j, l in itertools.product(range(nx), range(ny), range(nz)):
            for perm in itertools.permutations(range(3)):
                v = [i, j, l]
                path = [tuple(v)]
                for ax in perm:
                    v[ax] += 1
                    path.append(tuple(v))
                n = [P[q] for q in path]
                if volume([self.N[x] for x in n]) < 0:
                    n[0], n[1] = n[1], n[0]
                self.el(4, (40 + (i + l) % 2, 4), n)
                for f in itertools.combinations(n, 3):
                    faces.setdefault(frozenset(f), []).append(f)
        for fs in faces.values():
            if len(fs) == 1:
                self.el(2, (50, 5), fs[0])
        self.el(1, (60, 6), (P[0, 0, 0], P[1, 0, 0]))
        self.el(15, (30, 3), (P[0, 0, 0],))
        # pairs of boundary triangles of a cell side, for slivers
        self.sides = []
        for i, j, l in itertools.product(range(nx), range(ny), range(nz)):
            for ax in range(3):
                for end in (0, 1):
                    if (i, j, l)[ax] + end not in (0, (nx, ny, nz)[ax]) or ((i, j, l)[ax] + end == 0) != (end == 0):
                        continue
                    u, v = [x for x in range(3) if x != ax]
                    def at(du, dv):
                        q = [i, j, l]
                        q[ax] += end
                        q[u] += du
                        q[v] += dv
                        return P[tuple(q)]
                    self.sides.append((at(0, 0), at(1, 0), at(1, 1), at(0, 1)))

    # -- helpers -------------------------------------------------------------
    def live(self, t):
        return [e for e, v in sorted(self.E.items()) if v[0] == t and e not in self.drop]

    def around(self, nodes):
        """Nodes of all elements at the given nodes."""
        nodes = set(nodes)
        out = set(nodes)
        for t, tags, ns in self.E.values():
            if nodes & set(ns):
                out |= set(ns)
        return out

    def claim(self, nodes):
        f = self.around(nodes)
        if f & self.foot:
            return False
        self.foot |= f
        return True

    def diam(self):
        c = list(self.N.values())
        return max(max(x) - min(x) for x in zip(*c))

    def length(self, a, b):
        return norm(sub(self.N[a], self.N[b]))

    # -- defects -------------------------------------------------------------
    def dup(self, t, k, rot):
        es = self.live(t)
        if not es:
            return False
        e = es[k % len(es)]
        t, tags, ns = self.E[e]
        if not self.claim(ns):
            return False
        r = rot % 3
        self.drop.add(self.el(t, tags, (ns[r:3] + ns[:r] + ns[3:]) if len(ns) > 2 else ns[rot % 2:] + ns[:rot % 2] if len(ns) == 2 else ns))
        return True

    def rep(self, t, k, a, b):
        es = self.live(t)
        if not es:
            return False
        e = es[k % len(es)]
        t, tags, ns = self.E[e]
        if t == 15 or not self.claim(ns):
            return False
        ns = list(ns)
        i, j = a % len(ns), b % len(ns)
        if i == j:
            j = (i + 1) % len(ns)
        ns[i] = ns[j]
        self.drop.add(self.el(t, tags, tuple(ns)))
        return True

    def split(self, k, mask, d, tol):
        """Node k becomes two nodes closer than the tolerance with degenerate
        elements between."""
        ids = sorted(self.N)
        n = ids[k % len(ids)]
        own = [e for e, v in sorted(self.E.items()) if n in v[2]]
        if n in self.gone or not own or not self.claim([n]):
            return False
        d = d if any(d) else (1, 0, 0)
        if not hasattr(self, "sides"):
            d = (d[0] or 1, d[1], self_tilt(self, d[0] or 1, d[1]))
        vec = tuple(0.4 * tol * x / norm(d) for x in d)
        m = self.node(add(self.N[n], vec))
        self.gone.add(("either", n, m))
        mid = mean(self.N[n], self.N[m])
        self.pos[n] = mid
        second = [e for i, e in enumerate(own) if mask >> (i % 8) & 1]
        first = [e for e in own if e not in second]
        top = max(DIM[self.E[e][0]] for e in own)
        el_t = {3: 4, 2: 2, 1: 1, 0: 1}[top]
        # degenerate elements over the facets between the two groups
        facet = {}
        for e in own:
            t, tags, ns = self.E[e]
            if DIM[t] == top and top:
                rest = [x for x in ns if x != n]
                for f in itertools.combinations(rest, top - 1):
                    facet.setdefault(frozenset(f), []).append(e)
        for e in second:
            t, tags, ns = self.E[e]
            self.E[e] = (t, tags, tuple(m if x == n else x for x in ns))
            self.repl[e] = [tuple(n if x == m else x for x in self.E[e][2])]
        made = False
        for f, es in sorted(facet.items(), key=lambda it: sorted(it[0])):
            if len(es) == 2 and (es[0] in second) != (es[1] in second):
                tags = self.E[es[0]][1]
                self.drop.add(self.el(el_t, tags, (n, m) + tuple(sorted(f))))
                made = True
        if not made:
            self.drop.add(self.el(1, (70, 7), (n, m)))
        return True

    def hang(self, k, w, h):
        """Flat triangle on an edge (plane meshes)."""
        es = self.live(2)
        e = es[k % len(es)]
        t, tags, ns = self.E[e]
        if not self.claim(ns):
            return False
        i = k % 3
        a, b, c = ns[i], ns[(i + 1) % 3], ns[(i + 2) % 3]
        A, B, C = self.N[a], self.N[b], self.N[c]
        u = sub(B, A)
        foot = add(A, u, w)
        v = sub(C, A)
        v = add(v, u, -dot(v, u) / dot(u, u))
        v = tuple(x / norm(v) for x in v)
        if gamma_tri([A, B, add(foot, v, h * norm(u))]) > 0.75 * GAMMA_TOL:
            return False
        p = self.node(add(foot, v, h * norm(u)))
        self.pos[p] = foot
        self.E[e] = (t, tags, (a, p, c))
        self.repl[e] = [(a, p, c)]
        f = self.el(t, tags, (p, b, c))
        self.repl[f] = [(p, b, c)]
        self.drop.add(self.el(t, tags, (a, b, p)))
        for g, (tt, tg, nn) in sorted(self.E.items()):
            if a in nn and b in nn and g not in self.drop:
                self.repl[g] = [tuple(p if x == a else x for x in nn), tuple(p if x == b else x for x in nn)]
        return True

    def pit(self, k, i, w, h):
        """Flat tetrahedron on a face (space meshes)."""
        es = self.live(4)
        e = es[k % len(es)]
        t, tags, ns = self.E[e]
        if not self.claim(ns):
            return False
        d = ns[i % 4]
        a, b, c = [x for x in ns if x != d]
        A, B, C, D = [self.N[x] for x in (a, b, c, d)]
        # near the centre of the inscribed circle
        w = [l * (1 + 0.05 * q) for l, q in zip((self.length(b, c), self.length(a, c), self.length(a, b)), w)]
        w = [x / sum(w) for x in w]
        foot = tuple(w[0] * x + w[1] * y + w[2] * z for x, y, z in zip(A, B, C))
        nrm = cross(sub(B, A), sub(C, A))
        nrm = tuple(x / norm(nrm) for x in nrm)
        if dot(nrm, sub(D, A)) < 0:
            nrm = tuple(-x for x in nrm)
        size = max(self.length(a, b), self.length(b, c), self.length(a, c))
        if not self.flat([A, B, C, add(foot, nrm, h * size)]):
            return False
        p = self.node(add(foot, nrm, h * size))
        self.pos[p] = foot
        self.loose = max(self.loose, 2 * h * size)
        parts = [tuple(p if x == y else x for x in ns) for y in (a, b, c)]
        self.E[e] = (t, tags, parts[0])
        self.repl[e] = [parts[0]]
        for q in parts[1:]:
            f = self.el(t, tags, q)
            self.repl[f] = [q]
        flat = [p if x == d else x for x in ns]
        s = (k * 5 + i) % 4
        self.drop.add(self.el(t, tags, tuple(flat[s:] + flat[:s])))
        for g, (tt, tg, nn) in sorted(self.E.items()):
            if {a, b, c} <= set(nn) and g not in self.drop:
                self.repl[g] = [tuple(p if x == y else x for x in nn) for y in (a, b, c)]
        return True

    def flat(self, p):
        """Clearly a flat tetrahedron with good faces."""
        faces = min(gamma_tri([p[i] for i in f]) for f in itertools.combinations(range(4), 3))
        return faces > 1.3 * GAMMA_TOL ** 0.5 and gamma_tet(p) < 0.75 * GAMMA_TOL

    def sliver(self, k, rot, h):
        """Flat tetrahedron over the two triangles of a cell side on the border."""
        s = self.sides[k % len(self.sides)]
        tri = [[g for g in self.live(2) if set(self.E[g][2]) == set(q)] for q in ((s[0], s[1], s[2]), (s[0], s[2], s[3]))]
        a, b, c, d = s
        if not (tri[0] and tri[1]):
            a, b, c, d = s[1:] + s[:1]
            tri = [[g for g in self.live(2) if set(self.E[g][2]) == set(q)] for q in ((a, b, c), (a, c, d))]
        if not (tri[0] and tri[1]) or not self.claim(s):
            return False
        # diagonal a-c is used by the mesh below, the sliver has b-d on top
        A, B, C, D = [self.N[x] for x in (a, b, c, d)]
        below = [g for g in self.live(4) if {a, c} <= set(self.E[g][2])]
        if len(below) != 2 or not self.flat([A, B, C, D]):
            return False
        inner = mean(*[self.N[x] for g in below for x in self.E[g][2]])
        nrm = cross(sub(C, A), sub(D, B))
        nrm = tuple(x / norm(nrm) for x in nrm)
        if dot(nrm, sub(inner, A)) > 0:
            nrm = tuple(-x for x in nrm)
        size = self.length(a, c)
        self.loose = max(self.loose, 4 * h * size + 0.5 * abs(volume([A, B, C, D])) * 6 / size ** 2 * 2)
        v6 = volume([A, B, C, D])
        ns = (a, b, c, d) if v6 > 0 else (b, a, c, d)
        r = rot % 4
        e = self.el(4, self.E[below[0]][1], ns[r:] + ns[:r] if r % 2 == 0 else ns)
        self.drop.add(e)
        x = ("x", len(self.newn))
        # crossing of the diagonals in the common plane
        u, v, w = sub(C, A), sub(D, B), sub(B, A)
        n = cross(u, v)
        t = dot(cross(w, v), n) / dot(n, n)
        s2 = dot(cross(w, u), n) / dot(n, n)
        if not (0.25 < t < 0.75 and 0.25 < s2 < 0.75):
            self.drop.discard(e)
            del self.E[e]
            return False
        self.newn[x] = mean(add(A, u, t), add(B, v, s2))
        # top triangles replace the old ones
        t0, t1 = tri[0][0], tri[1][0]
        o0 = self.E[t0][2]
        i = o0.index(c)
        # (a, b, c) -> (a, b, d), (a, c, d) -> (b, c, d) keeping the orientation
        n0 = tuple(d if y == c else y for y in o0)
        n1 = tuple(b if y == a else y for y in self.E[t1][2])
        for g, nn in ((t0, n0), (t1, n1)):
            self.E[g] = (self.E[g][0], self.E[g][1], nn)
            self.repl[g] = [tuple(x if y == b else y for y in nn), tuple(x if y == d else y for y in nn)]
        for g in below:
            nn = self.E[g][2]
            self.repl[g] = [tuple(x if y == a else y for y in nn), tuple(x if y == c else y for y in nn)]
        return True

    # -- what is expected ------------------------------------------------------
    def expected(self):
        pos = dict(self.N)
        for g in self.gone:
            pos.pop(g[2])
        pos.update(self.pos)
        pos.update(self.newn)
        els = []
        for e, (t, tags, ns) in self.E.items():
            if e in self.drop:
                continue
            for q in self.repl.get(e, [ns]):
                els.append((t, tags, q))
        return pos, els


def self_tilt(m, dx, dy):
    """z component of a direction in the plane of a plane mesh."""
    ids = sorted(m.N)
    p, q = m.N[ids[0]], None
    # plane from three nodes of a triangle
    for t, tags, ns in m.E.values():
        if t == 2:
            A, B, C = [m.N[x] for x in ns]
            n = cross(sub(B, A), sub(C, A))
            return -(n[0] * dx + n[1] * dy) / n[2]
    raise HarnessError("no triangle")


class C16(Scenario):
    ID = "C16"
    QUICK_RUNS = 4000
    THOROUGH_RUNS = 100000
    QUICK_WALL = 60
    RULE = ("plane and space meshes with random ids and jitter get defects of known repair (duplicate elements, elements repeating a "
            "node, nodes split within the tolerance with degenerate elements between, flat triangles on edges, flat tetrahedra on "
            "faces and over border sides), are healed in one or several interrupted passes, saved and read back; non-trivial = at "
            "least one defect was injected and healed")
    REAL = ["bgem.gmsh.heal_mesh.HealMesh", "bgem.gmsh.gmsh_io"]
    STUB = ["disk: in-memory raw file", "sys.stdout (progress messages dropped)"]
    ASSUME = ["defects do not touch each other (their elements share no node)"]
    STATE_MEASURE = "distinct combinations of mesh and defects"

    def gen(self, rng, tier):
        dim = rng.choice([2, 3])
        size = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])] if dim == 2 else rng.choice([[1, 1, 1], [2, 1, 1], [2, 2, 1], [2, 2, 2], [3, 1, 2]])
        conf = {"dim": dim, "size": size, "scale": rng.choice([1.0, 1.0, 0.01, 250.0, 2e4]), "off": rng.choice([0.0, 0.0, 3.5, -20.0]),
                "tilt": rng.choice([0.0, 0.0, 0.75]), "jit3": rng.choice([0.0, 0.002, 0.005, 0.01])}
        conf["ids"] = [rng.choice([0, 0, 1, 2, 3]), rng.randrange(10 ** 6)]
        conf["jit"] = rng.randrange(10 ** 6)
        conf["rough"] = rng.choice([0, 0, 0, 1, 2]) if dim == 2 else 0
        conf["extra"] = rng.choice([0, 0, 0, 1, 2, 3, 4, -1, -2])
        ops = []
        if rng.random() < 0.15:
            ops.append(["short", rng.randrange(256), round(rng.choice([rng.uniform(1.04, 1.75), rng.uniform(0.6, 0.96)]), 3)])
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            r = rng.random()
            t = rng.choice([15, 1, 2, 2, 4])
            if r < 0.2:
                ops.append(["dup", t, rng.randrange(60), rng.randrange(4)])
            elif r < 0.35:
                ops.append(["rep", t, rng.randrange(60), rng.randrange(4), rng.randrange(4)])
            elif r < 0.6:
                ops.append(["split", rng.randrange(60), rng.randrange(256), [rng.randrange(-2, 3) for _ in range(3)]])
            elif dim == 2:
                ops.append(["hang", rng.randrange(60), rng.randrange(3, 8), rng.choice([1, 3])])
            elif r < 0.8:
                ops.append(["pit", rng.randrange(60), rng.randrange(4), [rng.randrange(-2, 3) for _ in range(3)], rng.choice([1, 2])])
            else:
                ops.append(["sliver", rng.randrange(60), rng.randrange(4), 0])
        ops.append(["stats"])
        for _ in range(rng.choice([0, 0, 1])):
            ops.append(["heal", rng.choice([1, 1.02])])
        ops.append(["heal", None])
        if rng.random() < 0.6:
            ops.append(["save", rng.random() < 0.5])
        ops.append(["again"])
        if conf["rough"]:
            ops.append(["loosen", rng.randrange(1000)])
        return {"config": conf, "ops": ops}

    def execute(self, plan, ctx):
        disk = simdisk.SimDisk(ctx)
        out = sys.stdout
        sys.stdout = Quiet()
        try:
            with simdisk.mounted(disk):
                Heal(plan, ctx).run()
        finally:
            sys.stdout = out

    def nontrivial(self, plan, ctx):
        return ctx.probes.get("healed-defects", 0) > 0


class Quiet:
    def write(self, s):
        pass

    def flush(self):
        pass


class Heal:
    def __init__(self, plan, ctx):
        from bgem.gmsh import heal_mesh, gmsh_io
        self.hm, self.io = heal_mesh, gmsh_io
        self.plan, self.ctx = plan, ctx
        self.M = Model(plan["config"], numbers(plan["config"]))
        self.tol = 1e-4 * self.M.diam()
        self.h = None
        self.rough = plan["config"].get("rough", 0) and plan["config"]["dim"] == 2
        self.gamma = 0.3 if self.rough else GAMMA_TOL
        self.defects = 0
        self.complete = False

    def run(self):
        for op in self.plan["ops"]:
            getattr(self, "op_" + op[0])(op)

    # -- defects ---------------------------------------------------------------
    def defect(self, name, ok):
        if self.h is not None:
            return
        if ok:
            self.ctx.fault("defect-" + name)
            self.defects += 1
        else:
            self.ctx.probe("defect-does-not-fit")

    def op_dup(self, op):
        if self.h is None:
            self.defect("duplicate", self.M.dup(op[1], op[2], op[3]))

    def op_rep(self, op):
        if self.h is None:
            self.defect("repeated-node", self.M.rep(op[1], op[2], op[3], op[4]))

    def op_split(self, op):
        if self.h is None:
            self.defect("close-nodes", self.M.split(op[1], op[2], op[3], self.tol))

    def op_hang(self, op):
        if self.h is None and self.M.live(2) and not hasattr(self.M, "sides"):
            self.defect("flat-triangle", self.M.hang(op[1], max(3, op[2]) / 10.0, 0.01 * max(1, op[3])))

    def op_short(self, op):
        if self.h is None:
            self.M.short(op[1], op[2], self.tol)
            if op[2] < 1:
                self.defect("short-line", True)
            else:
                self.ctx.probe("line-just-above-tolerance")

    def op_pit(self, op):
        if self.h is None and hasattr(self.M, "sides"):
            self.defect("flat-tetrahedron", self.M.pit(op[1], op[2], op[3], 0.004 * max(1, op[4])))

    def op_sliver(self, op):
        if self.h is None and hasattr(self.M, "sides"):
            self.defect("sliver", self.M.sliver(op[1], op[2], 0.0))

    # -- the mesh under repair -------------------------------------------------
    def start(self):
        if self.h is not None:
            return
        import numpy as np
        g = self.io.GmshIO()
        g.nodes = {i: np.array(c) for i, c in self.M.N.items()}
        g.elements = {e: (t, list(tags), list(ns)) for e, (t, tags, ns) in self.M.E.items()}
        self.h = self.ctx.call("create", self.hm.HealMesh, g, simdisk.PREFIX + "in.msh")
        self.ctx.state((sorted(self.M.N.items()), sorted(self.M.E.items())))

    def now(self):
        m = self.h.mesh
        N = {int(i): tuple(float(x) for x in c) for i, c in m.nodes.items()}
        E = {int(e): (int(v[0]), tuple(int(x) for x in v[1]), tuple(int(x) for x in v[2])) for e, v in m.elements.items()}
        return N, E

    def incidence(self, what):
        N, E = self.now()
        ctx = self.ctx
        for e, (t, tags, ns) in E.items():
            ctx.expect(all(n in N for n in ns), "missing-node", lambda: "after %s: element %d %r uses a node that does not exist" % (what, e, ns))
        inc = {n: set() for n in N}
        for e, v in E.items():
            for n in v[2]:
                inc[n].add(e)
        for n in N:
            got = {int(x) for x in self.h.node_els[n]}
            ctx.expect(got == inc[n], "incidence", lambda: "after %s: node %d knows elements %r, it is used by %r" % (what, n, sorted(got), sorted(inc[n])))
        return N, E

    def op_stats(self, op):
        self.start()
        ctx, M = self.ctx, self.M
        if self.h is None:
            return
        before = self.now()
        self.h.reset_modified()
        hist, bins, bad = ctx.call("quality_statistics", self.h.quality_statistics, 0.01)
        modif = set(self.h.reset_modified())
        ctx.expect(not modif, "stats-effect", lambda: "the quality statistics reported modified elements %r" % sorted(modif))
        ctx.expect(self.now() == before, "stats-effect", "the quality statistics changed the mesh")
        N, E = before
        want = [e for e, v in E.items() if DIM[v[0]] > 1]
        for name in hist:
            ctx.expect(int(sum(hist[name])) == len(want), "stats-count", lambda: "%s counts %d elements, the mesh has %d" % (name, int(sum(hist[name])), len(want)))
        got = {int(e) for e in bad["gamma_stats"]}
        for e in want:
            p = [N[x] for x in E[e][2]]
            q = gamma_tri(p) if len(p) == 3 else gamma_tet(p)
            if not 0.009 < q < 0.011:
                ctx.expect((e in got) == (q < 0.01), "stats-bad", lambda: "element %d of quality %g is%s reported as bad" % (e, q, "" if e in got else " not"))
        ctx.log("stats", sorted(got))

    def op_heal(self, op):
        self.start()
        ctx = self.ctx
        before = self.now()
        limit = op[1]
        args = (self.gamma,) if limit is None and not self.defects and not self.rough else (self.gamma, 1000 if limit is None and self.rough else 50 if limit is None else limit)
        ctx.call("heal_mesh", self.h.heal_mesh, *args)
        N, E = self.incidence("healing")
        ctx.log("heal", sorted(N.items()), sorted(E.items()))
        if self.rough:
            if limit is None:
                self.clean(N, E)
                self.complete = True
                ctx.probe("rough")
                if (N, E) != before:
                    ctx.probe("healed-defects")
            else:
                ctx.fault("interrupted-healing")
            return
        if not self.defects:
            ctx.expect((N, E) == before, "healthy-changed", lambda: "healing changed a mesh without defects: " + diff(before, (N, E)))
            ctx.probe("healthy")
            return
        if limit is None:
            self.judge(N, E, "healing")
            self.complete = True
            ctx.probe("healed-defects")
            if ctx.probes.get("interrupted"):
                ctx.probe("healed-after-interruption")
        else:
            ctx.fault("interrupted-healing")
            ctx.probe("interrupted")
            self.measures(N, E, "interrupted healing")

    def op_again(self, op):
        """Healing a healed mesh does nothing."""
        self.start()
        if not self.complete:
            return
        ctx = self.ctx
        before = self.now()
        ctx.call("heal_mesh", self.h.heal_mesh, self.gamma, 1000)
        now = self.now()
        ctx.expect(now == before, "healed-changed", lambda: "healing a healed mesh changed it: " + diff(before, now))
        ctx.probe("again")

    def op_loosen(self, op):
        """A later call with a smaller quality limit keeps what an earlier
        call with a larger one would have repaired."""
        self.start()
        if not self.complete or not self.rough:
            return
        ctx = self.ctx
        N, E = self.now()
        r = random.Random(op[1])
        use = sorted({n for t, tags, ns in E.values() if t == 2 for n in ns})
        for _ in range(60):
            if not use:
                return
            n = r.choice(use)
            ts = [ns for t, tags, ns in E.values() if t == 2 and n in ns]
            t = r.choice(ts)
            # towards the middle of the opposite edge
            mid = mean(*[N[x] for x in t if x != n])
            p = add(N[n], sub(mid, N[n]), r.uniform(0.6, 0.97))
            M = dict(N)
            M[n] = p
            q = [gamma_tri([M[x] for x in ns]) for ns in ts]
            short = min(norm(sub(M[a], M[b])) for _, _, ns in E.values() if n in ns for a in ns for b in ns if a != b and (a == n or b == n))
            if 0.03 < min(q) < 0.25 and short > 1.1 * self.tol:
                break
        else:
            ctx.probe("loosen-does-not-fit")
            return
        import numpy as np
        ctx.call("move_node", self.h.move_node, n, np.array(p))
        before = self.now()
        ctx.call("heal_mesh", self.h.heal_mesh, GAMMA_TOL, 1000)
        now = self.now()
        ctx.expect(now == before, "healthy-changed", lambda: "healing with quality limit %g changed a mesh whose worst quality is %g: %s" % (GAMMA_TOL, min(q), diff(before, now)))
        ctx.probe("smaller-limit-later")

    def op_save(self, op):
        self.start()
        ctx = self.ctx
        p = simdisk.PREFIX + ("out.msh" if op[1] else "in_healed.msh")
        ctx.call("write", self.h.write, *([p] if op[1] else []))
        r = ctx.call("read", self.io.GmshIO, p)
        N, E = self.now()
        got = meshio.content(r)
        want = {"nodes": {i: list(c) for i, c in N.items()}, "elements": {e: (v[0], list(v[1]), list(v[2])) for e, v in E.items()}, "physical": {}}
        ctx.expect(meshio.same(got, want), "saved-mesh", lambda: "the healed mesh was saved wrong: " + meshio.differ(got, want))
        ctx.probe("saved")

    def clean(self, N, E):
        """No element of a healed mesh is one that healing removes."""
        ctx = self.ctx
        seen = {}
        for e, (t, tags, ns) in sorted(E.items()):
            ctx.expect(len(set(ns)) == len(ns), "left-repeated", lambda: "element %d %r repeats a node" % (e, ns))
            k = (t, tuple(sorted(ns)))
            ctx.expect(k not in seen, "left-duplicate", lambda: "elements %d and %d are the same, %r" % (seen[k], e, ns))
            seen[k] = e
            if t != 15:
                d = min(norm(sub(N[a], N[b])) for a, b in itertools.combinations(ns, 2))
                ctx.expect(d > self.tol * (1 - 1e-9), "left-close", lambda: "element %d %r has an edge of length %g, the tolerance is %g" % (e, ns, d, self.tol))
            if DIM[t] == 2:
                q = gamma_tri([N[n] for n in ns])
                ctx.expect(q > self.gamma * (1 - 1e-6), "left-flat", lambda: "triangle %d %r has quality %g after healing" % (e, ns, q))

    # -- oracle ------------------------------------------------------------------
    def measures(self, N, E, what):
        pass

    def judge(self, N, E, what):
        ctx, M = self.ctx, self.M
        pos, els = M.expected()
        move = max(self.tol, M.loose) + 1e-9 * M.diam() + (0.011 * M.diam() if False else 0)
        ctx.expect(len(N) == len(pos), "healed-nodes", lambda: "after %s there are %d nodes, expected %d" % (what, len(N), len(pos)))
        match = {}
        for n, p in N.items():
            best = min(pos, key=lambda k: norm(sub(pos[k], p)))
            d = norm(sub(pos[best], p))
            ctx.expect(d <= move, "healed-place", lambda: "after %s node %d is at %r, the nearest expected place is %r (distance %g)" % (what, n, p, pos[best], d))
            ctx.expect(best not in match.values(), "healed-nodes", lambda: "after %s two nodes are at the place of one, %r" % (what, pos[best]))
            match[n] = best
        key = lambda t, tags, ns: (t, tags, tuple(sorted(map(str, ns))))
        want = {}
        for t, tags, ns in els:
            want.setdefault(key(t, tags, ns), []).append(ns)
        for e, (t, tags, ns) in E.items():
            k = key(t, tags, [match[n] for n in ns])
            ctx.expect(want.get(k), "healed-element", lambda: "after %s element %d (type %d, tags %r, nodes %r) is not one of the repaired mesh" % (what, e, t, tags, [match[n] for n in ns]))
            ref = want[k].pop()
            if t == 4:
                v = volume([N[n] for n in ns])
                ctx.expect(v > 0, "healed-orientation", lambda: "after %s tetrahedron %d %r has volume %g" % (what, e, ns, v))
            elif t == 2:
                m = [match[n] for n in ns]
                even = any(tuple(m[i:] + m[:i]) == tuple(ref) for i in range(3))
                ctx.expect(even, "healed-orientation", lambda: "after %s triangle %d %r is turned over, expected %r" % (what, e, m, ref))
        rest = [k for k, v in want.items() if v]
        ctx.expect(not rest, "healed-missing", lambda: "after %s elements are missing: %r" % (what, rest[:4]))


def diff(a, b):
    for x, y, n in zip(a, b, ("node", "element")):
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                return "%s %d: %r -> %r" % (n, k, x.get(k), y.get(k))
    return "equal"


SCENARIO = C16()
