"""Independent strict reader of the BREP text format (the part this package
writes), following the published description of the format."""


class NotBrep(Exception):
    pass


HEAD = "DBRep_DrawableShape\n\nCASCADE Topology V1, (c) Matra-Datavision\n"
TYPES = {"Ve", "Ed", "Wi", "Fa", "Sh", "So", "Cs", "Co"}
ALLOWED = {"Ve": set(), "Ed": {"Ve"}, "Wi": {"Ed"}, "Fa": {"Wi"}, "Sh": {"Fa"}, "So": {"Sh"}, "Cs": {"So"},
           "Co": {"Cs", "So", "Sh", "Wi", "Fa", "Ed", "Ve"}}


class Tokens:
    def __init__(self, text):
        self.t = text.split()
        self.i = 0

    def word(self):
        if self.i >= len(self.t):
            raise NotBrep("ends early")
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, w):
        g = self.word()
        if g != w:
            raise NotBrep("expected %r, found %r after %r" % (w, g, " ".join(self.t[max(0, self.i - 6):self.i - 1])))

    def int(self):
        w = self.word()
        try:
            return int(w)
        except ValueError:
            raise NotBrep("expected an integer, found %r after %r" % (w, " ".join(self.t[max(0, self.i - 6):self.i - 1])))

    def num(self):
        w = self.word()
        try:
            return float(w)
        except ValueError:
            raise NotBrep("expected a number, found %r after %r" % (w, " ".join(self.t[max(0, self.i - 6):self.i - 1])))

    def ref(self, n, what, low=1):
        k = self.int()
        if not low <= k <= n:
            raise NotBrep("reference to %s %d of %d" % (what, k, n))
        return k


def _knots(t, n):
    return [(t.num(), t.int()) for _ in range(n)]


def _curve(t, dim):
    t.expect("7")
    rat = t.int()
    t.expect("0")
    deg, n, nk = t.int(), t.int(), t.int()
    poles = [tuple(t.num() for _ in range(dim + (1 if rat else 0))) for _ in range(n)]
    knots = _knots(t, nk)
    if sum(m for _, m in knots) != deg + n + 1:
        raise NotBrep("curve of degree %d with %d poles has %d knots" % (deg, n, sum(m for _, m in knots)))
    return {"rational": rat, "degree": deg, "poles": poles, "knots": knots}


def parse(text):
    if not text.startswith(HEAD):
        raise NotBrep("bad header")
    t = Tokens(text[len(HEAD):])
    out = {}
    t.expect("Locations")
    nl = t.int()
    locs = []
    for i in range(nl):
        k = t.int()
        if k == 1:
            locs.append(("m", tuple(tuple(t.num() for _ in range(4)) for _ in range(3))))
        elif k == 2:
            items = []
            while True:
                l = t.ref(i, "location", 0)
                if l == 0:
                    break
                items.append((l, t.int()))
            locs.append(("c", tuple(items)))
        else:
            raise NotBrep("location of kind %d" % k)
    t.expect("Curve2ds")
    c2 = [_curve(t, 2) for _ in range(t.int())]
    t.expect("Curves")
    c3 = [_curve(t, 3) for _ in range(t.int())]
    for w in ("Polygon3D", "0", "PolygonOnTriangulations", "0", "Surfaces"):
        t.expect(w)
    surf = []
    for _ in range(t.int()):
        t.expect("9")
        ru, rv = t.int(), t.int()
        t.expect("0")
        t.expect("0")
        du, dv, nu, nv, ku, kv = (t.int() for _ in range(6))
        if ru != rv:
            raise NotBrep("half rational surface")
        poles = [[tuple(t.num() for _ in range(4 if ru else 3)) for _ in range(nv)] for _ in range(nu)]
        uk, vk = _knots(t, ku), _knots(t, kv)
        if sum(m for _, m in uk) != du + nu + 1 or sum(m for _, m in vk) != dv + nv + 1:
            raise NotBrep("surface knots")
        surf.append({"rational": ru, "degree": (du, dv), "poles": poles, "knots": (uk, vk)})
    t.expect("Triangulations")
    t.expect("0")
    t.expect("TShapes")
    n = t.int()
    shapes = {}
    for p in range(n):
        ty = t.word()
        if ty not in TYPES:
            raise NotBrep("shape of type %r" % ty)
        s = {"type": ty}
        if ty == "Ve":
            s["tol"] = t.num()
            s["point"] = tuple(t.num() for _ in range(3))
            t.expect("0")
            t.expect("0")
        elif ty == "Ed":
            s["tol"] = t.num()
            s["eflags"] = tuple(t.int() for _ in range(3))
            s["repr"] = []
            while True:
                k = t.int()
                if k == 0:
                    break
                if k == 1:
                    s["repr"].append((1, t.ref(len(c3), "curve"), t.ref(nl, "location", 0), t.num(), t.num()))
                elif k == 2:
                    s["repr"].append((2, t.ref(len(c2), "2d curve"), t.ref(len(surf), "surface"), t.ref(nl, "location", 0), t.num(), t.num()))
                else:
                    raise NotBrep("edge representation %d" % k)
        elif ty == "Fa":
            s["restr"] = t.int()
            s["tol"] = t.num()
            s["surface"] = t.ref(len(surf), "surface")
            s["loc"] = t.ref(nl, "location", 0)
        f = t.word()
        if len(f) != 7 or set(f) - set("01"):
            raise NotBrep("flags %r" % f)
        s["flags"] = f
        s["childs"] = []
        while True:
            w = t.word()
            if w == "*":
                break
            if w[0] not in "+-ie" or not w[1:].isdigit():
                raise NotBrep("shape reference %r" % w)
            k = int(w[1:])
            # shapes are numbered from the last one, a child comes before its parent
            if k not in shapes:
                raise NotBrep("%s refers to shape %d which is not above it" % (ty, k))
            if shapes[k]["type"] not in ALLOWED[ty]:
                raise NotBrep("%s has a child %s" % (ty, shapes[k]["type"]))
            s["childs"].append((w[0], k, t.ref(nl, "location", 0)))
        shapes[n - p] = s
    w = t.word()
    if w[0] != "+" or not w[1:].isdigit() or int(w[1:]) not in shapes:
        raise NotBrep("root %r" % w)
    root = int(w[1:])
    rloc = t.ref(nl, "location", 0)
    if t.i != len(t.t):
        raise NotBrep("text after the end")
    # everything in the file belongs to the model
    seen, todo = {root}, [root]
    while todo:
        for _, k, _ in shapes[todo.pop()]["childs"]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    if len(seen) != n:
        raise NotBrep("%d shapes are not used" % (n - len(seen)))
    return {"locations": locs, "curves2": c2, "curves3": c3, "surfaces": surf, "shapes": shapes, "root": root, "root_loc": rloc}


def bezier(poles, t):
    """Point of a Bezier curve given by its poles (any dimension)."""
    p = [tuple(float(x) for x in q) for q in poles]
    while len(p) > 1:
        p = [tuple((1 - t) * a + t * b for a, b in zip(x, y)) for x, y in zip(p[:-1], p[1:])]
    return p[0]


def surf_point(s, u, v):
    return bezier([bezier(row, v) for row in s["poles"]], u)


def curve_point(c, t):
    return bezier(c["poles"], t)
