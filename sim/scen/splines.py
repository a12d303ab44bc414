"""Independent reference evaluation of B-splines (Cox - de Boor, the triangular
scheme on the active knot interval; nothing of bgem is used)."""
import numpy as np


class Basis:
    """Open equidistant or given knots with end knots of full multiplicity."""

    def __init__(self, deg, inner, lo=0.0, hi=1.0):
        self.deg = deg
        self.knots = [lo] * (deg + 1) + list(inner) + [hi] * (deg + 1)
        self.size = len(self.knots) - deg - 1
        self.lo, self.hi = lo, hi

    @staticmethod
    def equidistant(deg, n):
        return Basis(deg, [i / n for i in range(1, n)])

    def interval(self, t):
        k = self.deg
        while k < self.size - 1 and t >= self.knots[k + 1]:
            k += 1
        return k

    def combine(self, poles, t):
        """Value of the spline with given poles (array, first axis = basis)."""
        p, U = self.deg, self.knots
        k = self.interval(t)
        d = [np.array(poles[j + k - p], dtype=float) for j in range(p + 1)]
        for r in range(1, p + 1):
            for j in range(p, r - 1, -1):
                a = U[j + k - p]
                b = U[j + 1 + k - r]
                al = (t - a) / (b - a)
                d[j] = (1 - al) * d[j - 1] + al * d[j]
        return d[p]

    def values(self, t):
        return self.combine(np.eye(self.size), t)


def surface(bu, bv, poles, u, v):
    """poles: Nu x Nv x D array."""
    P = np.asarray(poles, dtype=float)
    return bv.combine(bu.combine(P, u), v)


def rational(val):
    return val[:-1] / val[-1]


def weighted(poles):
    P = np.array(poles, dtype=float)
    P[..., :-1] *= P[..., -1:]
    return P


def hull(P):
    """Convex hull of points in a plane, counter-clockwise."""
    P = sorted(set((float(x), float(y)) for x, y in P))

    def chain(pts):
        h = []
        for p in pts:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return chain(P) + chain(P[::-1])
