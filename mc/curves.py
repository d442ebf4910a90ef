"""Reference curves: subpaths of Bezier segments addressed by arc length."""
import math
import numpy
from . import geom as g

GX, GW = numpy.polynomial.legendre.leggauss(8)
N = 48


def coeffs(seg):
    p = numpy.array(seg, float)
    if len(p) == 2:
        return numpy.array([p[0], p[1]-p[0], (0, 0), (0, 0)])
    return numpy.array([p[0], 3*(p[1]-p[0]), 3*(p[0]-2*p[1]+p[2]), p[3]-3*p[2]+3*p[1]-p[0]])


def evaluate(c, t):
    t = numpy.asarray(t, float)[..., None]
    return c[0] + t*(c[1] + t*(c[2] + t*c[3]))


def d1(c, t):
    t = numpy.asarray(t, float)[..., None]
    return c[1] + t*(2*c[2] + t*3*c[3])


def d2(c, t):
    t = numpy.asarray(t, float)[..., None]
    return 2*c[2] + t*6*c[3]


class Piece:
    def __init__(self, seg, sub, index, start):
        self.seg, self.sub, self.index, self.start = seg, sub, index, start
        self.c = coeffs(seg)
        if len(seg) == 2:
            self.table = numpy.array([0, math.dist(*seg)])
        else:
            a = numpy.arange(N)/N
            t = a[:, None] + (GX[None, :]+1)/2/N
            d = d1(self.c, t.ravel()).reshape(N, len(GX), 2)
            self.table = numpy.concatenate([[0], numpy.cumsum((numpy.hypot(d[..., 0], d[..., 1])*GW).sum(1)/2/N)])
        self.len = float(self.table[-1])

    def param(self, s):
        """curve parameter at arc length s within the piece"""
        if len(self.seg) == 2:
            return s/self.len
        i = int(min(max(numpy.searchsorted(self.table, s) - 1, 0), N-1))
        lo, hi = i/N, (i+1)/N
        base = self.table[i]
        for _ in range(40):
            m = (lo+hi)/2
            if base + self._part(i/N, m) < s:
                lo = m
            else:
                hi = m
        return (lo+hi)/2

    def _part(self, a, b):
        d = d1(self.c, a + (GX+1)/2*(b-a))
        return float((numpy.hypot(d[:, 0], d[:, 1])*GW).sum()*(b-a)/2)

    def at(self, t):
        return tuple(float(v) for v in evaluate(self.c, t))

    def tangent(self, t):
        dx, dy = d1(self.c, t)
        if math.hypot(dx, dy) < 1e-9:
            dx, dy = d1(self.c, t + (1e-4 if t < .5 else -1e-4))
        l = math.hypot(dx, dy)
        return float(dx/l), float(dy/l)

    def curvature(self, t):
        (dx, dy), (ex, ey) = d1(self.c, t), d2(self.c, t)
        return float((dx*ey - dy*ex)/math.hypot(dx, dy)**3)


class Curve:
    """[(closed, [segments])] with arc length addressing"""

    def __init__(self, subs):
        self.subs = [(c, [tuple(map(tuple, s)) for s in l]) for c, l in subs]
        self.pieces = []
        self.start = []
        L = 0.0
        for i, (c, l) in enumerate(self.subs):
            self.start.append(L)
            for j, s in enumerate(l):
                p = Piece(s, i, j, L)
                self.pieces.append(p)
                L += p.len
        self.len = L

    def bounds(self):
        return [p.start for p in self.pieces] + [self.len]

    def locate(self, s, tol=1e-6):
        """all (piece, t) at arc length s: two at a boundary of pieces"""
        out = []
        for p in self.pieces:
            u = s - p.start
            if -tol <= u <= p.len + tol:
                out.append((p, p.param(min(max(u, 0), p.len))))
        return out

    def at(self, s, tol=1e-6):
        return [p.at(t) for p, t in self.locate(s, tol)]


def ofnormpath(np):
    return Curve([x for x in g.segs(np) if x[1]])


def polylines(subs, n=24):
    """flattened subpaths"""
    out = []
    for c, l in subs:
        pts = [l[0][0]]
        for s in l:
            if len(s) == 2:
                pts.append(s[1])
            else:
                pts.extend(map(tuple, evaluate(coeffs(s), numpy.arange(1, n+1)/n)))
        out.append((c, pts))
    return out
