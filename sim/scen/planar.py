"""Exact from-scratch reference for planar subdivisions.

Input: points {id: (x, y)} (floats, taken exactly) and segments
{id: (a, b)}.  Output: faces, their boundary walks, nesting and areas, all in
integer arithmetic.  Written without looking at how the code under test keeps
its wires.
"""
from fractions import Fraction
from functools import cmp_to_key


def to_int(points):
    """Scale all coordinates by one power of two so that they are integers."""
    shift = 1
    ratios = {}
    for i, (x, y) in points.items():
        rx, ry = float(x).as_integer_ratio(), float(y).as_integer_ratio()
        ratios[i] = (rx, ry)
        shift = max(shift, rx[1], ry[1])
    return {i: (rx[0] * (shift // rx[1]), ry[0] * (shift // ry[1])) for i, (rx, ry) in ratios.items()}, shift


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sign(v):
    return (v > 0) - (v < 0)


def on_segment(p, a, b):
    """p on the closed segment ab."""
    if cross(a, b, p) != 0:
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def half(d):
    return 0 if (d[1] > 0 or (d[1] == 0 and d[0] > 0)) else 1


def angle_cmp(d, e):
    """Counter clockwise order of directions from the positive x axis."""
    hd, he = half(d), half(e)
    if hd != he:
        return hd - he
    c = d[0] * e[1] - d[1] * e[0]
    return -1 if c > 0 else (1 if c < 0 else 0)


class NotPlanar(Exception):
    pass


class Planar:
    """Half-edges are (segment id, side): side 1 runs from the first to the
    second end point, side 0 back; the face is on the left of the run."""

    def __init__(self, points, segments, check=True):
        self.pts, self.unit = to_int(points)
        self.segs = dict(segments)
        if check:
            self.check_planar()
        self.build()

    # ------------------------------------------------------------------
    def check_planar(self):
        P = self.pts
        seen = {}
        for s, (a, b) in self.segs.items():
            if a == b:
                raise NotPlanar("segment %s joins point %s with itself" % (s, a))
            key = (min(a, b), max(a, b))
            if key in seen:
                raise NotPlanar("segments %s and %s join the same points %s" % (seen[key], s, key))
            seen[key] = s
        pos = {}
        for i, p in P.items():
            if p in pos:
                raise NotPlanar("points %s and %s coincide" % (pos[p], i))
            pos[p] = i
        items = sorted(self.segs.items())
        box = {}
        for s, (a, b) in items:
            pa, pb = P[a], P[b]
            box[s] = (min(pa[0], pb[0]), min(pa[1], pb[1]), max(pa[0], pb[0]), max(pa[1], pb[1]))
        for s, (a, b) in items:
            bx = box[s]
            for i, p in P.items():
                if i != a and i != b and bx[0] <= p[0] <= bx[2] and bx[1] <= p[1] <= bx[3]:
                    if cross(P[a], P[b], p) == 0:
                        raise NotPlanar("point %s lies inside segment %s" % (i, s))
        for k, (s, (a, b)) in enumerate(items):
            bx = box[s]
            for t, (c, d) in items[k + 1:]:
                by = box[t]
                if bx[0] > by[2] or by[0] > bx[2] or bx[1] > by[3] or by[1] > bx[3]:
                    continue
                if len({a, b, c, d}) < 4:
                    continue
                if sign(cross(P[a], P[b], P[c])) * sign(cross(P[a], P[b], P[d])) < 0 and \
                        sign(cross(P[c], P[d], P[a])) * sign(cross(P[c], P[d], P[b])) < 0:
                    raise NotPlanar("segments %s and %s cross" % (s, t))

    # ------------------------------------------------------------------
    def origin(self, h):
        return self.segs[h[0]][0 if h[1] == 1 else 1]

    def target(self, h):
        return self.segs[h[0]][1 if h[1] == 1 else 0]

    def build(self):
        P = self.pts
        out = {}
        for s, (a, b) in self.segs.items():
            out.setdefault(a, []).append((s, 1))
            out.setdefault(b, []).append((s, 0))
        self.ccw = {}
        nxt = {}
        for v, hs in out.items():
            pv = P[v]

            def d(h):
                t = P[self.target(h)]
                return (t[0] - pv[0], t[1] - pv[1])
            hs = sorted(hs, key=cmp_to_key(lambda h, g: angle_cmp(d(h), d(g))))
            self.ccw[v] = hs
            n = len(hs)
            for i, h in enumerate(hs):
                # arriving along the twin of h, leave by the clockwise neighbour
                nxt[(h[0], 1 - h[1])] = hs[(i - 1) % n]
        self.next = nxt
        # components
        comp = {}

        def find(v):
            while comp[v] != v:
                comp[v] = comp[comp[v]]
                v = comp[v]
            return v
        for v in out:
            comp[v] = v
        for a, b in self.segs.values():
            ra, rb = find(a), find(b)
            if ra != rb:
                comp[max(ra, rb)] = min(ra, rb)
        self.comp = {v: find(v) for v in out}
        # boundary walks
        self.walk_of = {}
        self.walks = []
        self.area2 = []
        for h in sorted(nxt):
            if h in self.walk_of:
                continue
            w = len(self.walks)
            walk = []
            g = h
            while g not in self.walk_of:
                self.walk_of[g] = w
                walk.append(g)
                g = nxt[g]
            self.walks.append(walk)
            a = 0
            for g in walk:
                p, q = P[self.origin(g)], P[self.target(g)]
                a += p[0] * q[1] - p[1] * q[0]
            self.area2.append(a)
        self.walk_comp = [self.comp[self.origin(w[0])] for w in self.walks]
        self.outer_walks = [i for i, a in enumerate(self.area2) if a > 0]     # bounded faces
        self.hole_walks = [i for i, a in enumerate(self.area2) if a <= 0]     # one per component
        # face of a hole walk: smallest bounded face of another component around it
        self.hole_face = {}
        for w in self.hole_walks:
            c = self.walk_comp[w]
            p = P[self.origin(self.walks[w][0])]
            self.hole_face[w] = self.locate(p, skip=c)
        self.face_holes = {f: [] for f in self.outer_walks}
        self.face_holes[None] = []
        for w, f in self.hole_face.items():
            self.face_holes[f].append(w)
        # face of every half-edge: outer walk index, None is the infinite face
        self.face_of = {}
        for w, walk in enumerate(self.walks):
            f = w if self.area2[w] > 0 else self.hole_face[w]
            for h in walk:
                self.face_of[h] = f

    def in_walk(self, p, w):
        """p (integer or Fraction pair) strictly inside walk w, even-odd rule."""
        inside = False
        P = self.pts
        for h in self.walks[w]:
            a, b = P[self.origin(h)], P[self.target(h)]
            if (a[1] > p[1]) != (b[1] > p[1]):
                c = cross(a, b, p)
                if (c > 0) == (b[1] > a[1]):
                    inside = not inside
        return inside

    def locate(self, p, skip=None):
        """Bounded face containing p, None for the infinite one."""
        best = None
        for w in self.outer_walks:
            if self.walk_comp[w] == skip:
                continue
            if (best is None or self.area2[w] < self.area2[best]) and self.in_walk(p, w):
                best = w
        return best

    def locate_xy(self, x, y):
        return self.locate((Fraction(x) * self.unit, Fraction(y) * self.unit))

    def face_area2(self, f):
        """Twice the area of the face without its holes, in input units."""
        if f is None:
            return None
        a = self.area2[f] + sum(self.area2[w] for w in self.face_holes[f])
        return Fraction(a, self.unit * self.unit)

    def descendants(self, f):
        """Faces nested inside the outer boundary of f (with f itself)."""
        out = {f}
        if f is None:
            return out | set(self.outer_walks)
        for w in self.outer_walks:
            if w == f:
                continue
            # walk up: the chain of faces around w
            c = self.walk_comp[w]
            g = self.hole_face[[h for h in self.hole_walks if self.walk_comp[h] == c][0]]
            while g is not None:
                if g == f:
                    out.add(w)
                    break
                c = self.walk_comp[g]
                g = self.hole_face[[h for h in self.hole_walks if self.walk_comp[h] == c][0]]
        return out

    def canon_walk(self, w):
        """Cyclic sequence of half-edges in canonical rotation."""
        return canon(self.walks[w])


def canon(walk):
    walk = [tuple(h) for h in walk]
    if not walk:
        return ()
    i = walk.index(min(walk))
    return tuple(walk[i:] + walk[:i])
