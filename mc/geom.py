"""Independent geometry on Bezier segments, used as reference."""
import math

IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)     # a b c d e f, PostScript order


def mul(m, n):
    """matrix applying n first, then m (PostScript: n x m)"""
    a, b, c, d, e, f = n
    A, B, C, D, E, F = m
    return (A*a + C*b, B*a + D*b, A*c + C*d, B*c + D*d, A*e + C*f + E, B*e + D*f + F)


def app(m, p):
    a, b, c, d, e, f = m
    return (a*p[0] + c*p[1] + e, b*p[0] + d*p[1] + f)


def inv(m):
    a, b, c, d, e, f = m
    det = a*d - b*c
    ia, ib, ic, idd = d/det, -b/det, -c/det, a/det
    return (ia, ib, ic, idd, -(ia*e + ic*f), -(ib*e + idd*f))


def translate(x, y):
    return (1, 0, 0, 1, x, y)


def scale(sx, sy=None):
    return (sx, 0, 0, sx if sy is None else sy, 0, 0)


def rotate(deg):
    w = complex(math.cos(math.radians(deg)), math.sin(math.radians(deg)))
    return (w.real, w.imag, -w.imag, w.real, 0, 0)


def about(m, x, y):
    return mul(translate(x, y), mul(m, translate(-x, -y)))


def mirror(deg):
    return mul(rotate(deg), mul((1, 0, 0, -1, 0, 0), rotate(-deg)))


def slant(a, deg=0):
    return mul(rotate(deg), mul((1, 0, a, 1, 0, 0), rotate(-deg)))


def bez(seg, t):
    """de Casteljau for a segment of any degree"""
    pts = [tuple(p) for p in seg]
    while len(pts) > 1:
        pts = [((1-t)*p[0] + t*q[0], (1-t)*p[1] + t*q[1]) for p, q in zip(pts, pts[1:])]
    return pts[0]


def deriv(seg):
    n = len(seg) - 1
    return [(n*(q[0]-p[0]), n*(q[1]-p[1])) for p, q in zip(seg, seg[1:])]


def sub(seg, t0, t1):
    """part of a cubic or line between t0 and t1 via blossoming"""
    n = len(seg) - 1

    def blossom(ts):
        pts = [tuple(p) for p in seg]
        for t in ts:
            pts = [((1-t)*p[0] + t*q[0], (1-t)*p[1] + t*q[1]) for p, q in zip(pts, pts[1:])]
        return pts[0]
    return [blossom([t0]*(n-i) + [t1]*i) for i in range(n+1)]


def seglen(seg, eps=1e-9, depth=0):
    """arc length by adaptive subdivision with Gauss-like bound"""
    chord = math.dist(seg[0], seg[-1])
    if len(seg) == 2:
        return chord
    poly = sum(math.dist(p, q) for p, q in zip(seg, seg[1:]))
    if poly - chord < eps or depth > 18:
        return (2*chord + (len(seg)-2)*poly) / len(seg)
    return seglen(sub(seg, 0, .5), eps/2, depth+1) + seglen(sub(seg, .5, 1), eps/2, depth+1)


def extent(seg):
    """tight bounding box of one segment by solving the derivative"""
    out = []
    for k in (0, 1):
        vals = [seg[0][k], seg[-1][k]]
        if len(seg) == 4:
            p0, p1, p2, p3 = (p[k] for p in seg)
            a = -p0 + 3*p1 - 3*p2 + p3
            b = 2*(p0 - 2*p1 + p2)
            c = p1 - p0
            ts = []
            if abs(a) < 1e-9 * max(1.0, abs(b), abs(c)):
                if abs(b) > 1e-12:
                    ts.append(-c/b)
            else:
                disc = b*b - 4*a*c
                if disc >= 0:
                    r = math.sqrt(disc)
                    ts.extend([(-b+r)/(2*a), (-b-r)/(2*a)])
            for t in ts:
                if 0 < t < 1:
                    vals.append(bez(seg, t)[k])
        out.append((min(vals), max(vals)))
    return out[0][0], out[1][0], out[0][1], out[1][1]


def union(boxes):
    boxes = [b for b in boxes if b is not None]
    if not boxes:
        return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


def segs(np):
    """normpath -> [(closed, [segment...])] with segments as tuples of points in pt"""
    out = []
    for nsp in np.normsubpaths:
        l = []
        for it in nsp.normsubpathitems:
            if hasattr(it, "x3_pt"):
                l.append(((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), (it.x3_pt, it.y3_pt)))
            else:
                l.append(((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt)))
        out.append((bool(nsp.closed), l))
    return out


def sample(subpaths, n=16):
    return [bez(s, i/n) for _, l in subpaths for s in l for i in range(n+1)]


def near(p, q, eps=1e-6):
    return abs(p[0]-q[0]) <= eps*max(1, abs(p[0]), abs(q[0])) and abs(p[1]-q[1]) <= eps*max(1, abs(p[1]), abs(q[1]))


def dist_point_seg(p, seg, n=24):
    """distance of point to a Bezier segment (dense samples, then refined)"""
    if len(seg) == 2:
        (x0, y0), (x1, y1) = seg
        dx, dy = x1-x0, y1-y0
        l2 = dx*dx + dy*dy
        t = 0 if l2 == 0 else max(0, min(1, ((p[0]-x0)*dx + (p[1]-y0)*dy)/l2))
        return math.hypot(x0+t*dx-p[0], y0+t*dy-p[1])
    d = [math.dist(bez(seg, i/n), p) for i in range(n+1)]
    best = min(d)
    for i in range(n+1):
        if d[i] <= best*1.5 + 1e-9 or (0 < i < n and d[i] <= d[i-1] and d[i] <= d[i+1]):
            lo, hi = max(0, (i-1)/n), min(1, (i+1)/n)
            for _ in range(40):
                m1, m2 = lo + (hi-lo)*.382, lo + (hi-lo)*.618
                if math.dist(bez(seg, m1), p) < math.dist(bez(seg, m2), p):
                    hi = m2
                else:
                    lo = m1
            best = min(best, math.dist(bez(seg, (lo+hi)/2), p))
    return best


def dist_point_path(p, subpaths):
    return min([dist_point_seg(p, s) for _, l in subpaths for s in l] or [math.inf])
