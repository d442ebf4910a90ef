"""P08: intersections are complete and consistent on both paths."""
import itertools, math
import numpy
from mc import core, geom as g, machines as M, curves
from mc.core import Space, require
from checks import p04
from pyx import path, trafo, normpath

PROPERTY = "P08"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of pairs of paths in relative positions on a grid, incl. all part boundaries on part boundaries, each compared with an independent polyline and Newton solver"
LEVEL_NOTE = "Every pair of shapes and relative position of the stated grid is executed on the real intersection code; the oracle finds crossings by flattening both curves and Newton refinement."
RULE = "A case is a pair of paths with a relative position; non-trivial when the oracle finds a common point or the paths come near each other."
ASSUMPTIONS = ["tangential contacts (below 1 degree) and overlaps may or may not be reported", "the order of the result is specified for paths of a single part only"]

CAT = {
    "line": [("moveto", -6, -4), ("lineto", 7, 5)],
    "hline": [("moveto", -9, 0), ("lineto", 8, 0)],
    "zigzag": [("moveto", -8, -3), ("lineto", -3, 5), ("lineto", 0, -4), ("lineto", 4, 6), ("lineto", 8, -2)],
    "curve": [("moveto", -8, -3), ("curveto", -2, 12, 3, -13, 8, 3)],
    "loop": [("moveto", -5, -4), ("curveto", 14, 9, -13, 8, 5, -5)],
    "circle": [("moveto", 5, 0), ("arc", 0, 0, 5, 0, 360), ("closepath",)],
    "triangle": [("moveto", -5, -4), ("lineto", 6, -3), ("lineto", 1, 6), ("closepath",)],
    "rect": [("moveto", -4, -4), ("lineto", 4, -4), ("lineto", 4, 4), ("lineto", -4, 4), ("closepath",)],
    "closedcurve": [("moveto", -5, -4), ("curveto", 2, 11, 12, 3, 1, -5), ("lineto", -3, -5), ("closepath",)],
    "parts": [("moveto", -7, -5), ("rlineto", 5, 9), ("moveto", 0, -6), ("rcurveto", 5, 3, -4, 9, 3, 12), ("moveto", 3, 0), ("rlineto", 5, 1), ("rlineto", -3, 4), ("closepath",)],
    "smooth": [("moveto", -9, 0), ("curveto", -6, 4, -4, 4, -1, 1), ("curveto", 1, -1, 4, -5, 7, -1), ("lineto", 9, 2)],
    "steep": [("moveto", 0, -7), ("curveto", 0.5, 0, -0.5, 0, 0, 7)],
}
NAMES = list(CAT)
EPS = 1e-5


def build(name):
    return path.path(*[p04.build(op) for op in CAT[name]])


def flat(seg):
    if len(seg) == 2:
        return numpy.array(seg, float), numpy.array([0., 1.])
    t = numpy.linspace(0, 1, 65)
    return curves.evaluate(curves.coeffs(seg), t), t


def contacts(a, b):
    """[(t, u, point, kind)] of common points of two segments; kind cross or vague"""
    ea, eb = g.extent(a), g.extent(b)
    if ea[0] > eb[2]+.1 or eb[0] > ea[2]+.1 or ea[1] > eb[3]+.1 or eb[1] > ea[3]+.1:
        return []
    (p, ta), (q, tb) = flat(a), flat(b)
    # all pairs of chords whose boxes come near each other
    e = .02
    plo, phi = numpy.minimum(p[:-1], p[1:])-e, numpy.maximum(p[:-1], p[1:])+e
    qlo, qhi = numpy.minimum(q[:-1], q[1:]), numpy.maximum(q[:-1], q[1:])
    hit = ((plo[:, None] <= qhi[None]) & (phi[:, None] >= qlo[None])).all(2)
    ca, cb = curves.coeffs(a), curves.coeffs(b)
    out = []
    for i, j in zip(*numpy.nonzero(hit)):
        t, u = (ta[i]+ta[i+1])/2, (tb[j]+tb[j+1])/2
        ok = False
        for _ in range(30):
            f = curves.evaluate(ca, t) - curves.evaluate(cb, u)
            da, db = curves.d1(ca, t), curves.d1(cb, u)
            D = -da[0]*db[1] + da[1]*db[0]
            if abs(D) < 1e-12:
                break
            dt = (f[0]*db[1] - f[1]*db[0])/D
            du = (da[1]*f[0] - da[0]*f[1])/D
            t, u = t+dt, u+du
            if abs(t-.5) > 1 or abs(u-.5) > 1:
                break
            if abs(dt)+abs(du) < 1e-12:
                ok = True
                break
        if not ok:
            continue
        da, db = curves.d1(ca, t), curves.d1(cb, u)
        la, lb = math.hypot(*da), math.hypot(*db)
        sine = abs(da[0]*db[1]-da[1]*db[0])/la/lb
        # how far outside of the segments, in points
        over = max(-t*la, (t-1)*la, -u*lb, (u-1)*lb)
        if over > 2e-4:
            continue
        kind = "cross" if sine > .02 and over < 1e-7 else "vague"
        pt = tuple(float(v) for v in curves.evaluate(ca, min(max(t, 0), 1)))
        if not any(abs(t-x[0])*la < 1e-6 and abs(u-x[1])*lb < 1e-6 for x in out):
            out.append((float(t), float(u), pt, kind))
    return out


def reference(A, B):
    """clusters of common points by position on both curves: [(pos a, pos b, point, kind)]"""
    out = []
    for x in A.pieces:
        for y in B.pieces:
            for t, u, pt, kind in contacts(x.seg, y.seg):
                sa = x.start + x._part(0, min(max(t, 0), 1)) if len(x.seg) > 2 else x.start + x.len*min(max(t, 0), 1)
                sb = y.start + y._part(0, min(max(u, 0), 1)) if len(y.seg) > 2 else y.start + y.len*min(max(u, 0), 1)
                out.append((x.sub, sa, y.sub, sb, pt, kind))
    clusters = []

    def close(C, i, s, j, r):
        if i != j:
            return False
        lo = C.start[i]
        hi = (C.start + [C.len])[i+1]
        d = abs(s-r)
        if C.subs[i][0]:
            d = min(d, hi-lo-d)
        return d < 1e-3
    for e in out:
        for c in clusters:
            if any(close(A, e[0], e[1], f[0], f[1]) and close(B, e[2], e[3], f[2], f[3]) for f in c):
                c.append(e)
                break
        else:
            clusters.append([e])
    return [(c[0][0], c[0][1], c[0][2], c[0][3], c[0][4], "vague" if any(e[5] == "vague" for e in c) and not any(e[5] == "cross" for e in c) else
             "mixed" if any(e[5] == "vague" for e in c) else "cross") for c in clusters]




def coincide(A, B):
    """some curved part of one runs along the other"""
    for C, D in ((A, B), (B, A)):
        a = numpy.concatenate([flat(p.seg)[0][:-1] for p in D.pieces])
        b = numpy.concatenate([flat(p.seg)[0][1:] for p in D.pieces])
        d = b - a
        n = (d**2).sum(1)
        for p in C.pieces:
            if len(p.seg) > 2:
                q = curves.evaluate(p.c, numpy.linspace(.05, .95, 10))
                w = q[:, None] - a[None]
                t = numpy.clip((w*d[None]).sum(2)/n, 0, 1)
                r = numpy.sqrt(((w - t[..., None]*d[None])**2).sum(2)).min(1) < 3e-3*max(1, p.len/10)
                if any(r[k] and r[k+1] and r[k+2] for k in range(8)):
                    return True
    return False


def check(pa, pb, na, nb):
    A, B = curves.ofnormpath(na), curves.ofnormpath(nb)
    if coincide(A, B):
        return (), 0
    ra, rb = pa.intersect(pb)
    require(isinstance(ra, list) and len(ra) == len(rb), "%d parameters on one path, %d on the other", len(ra), len(rb))
    qa, qb = (pa.at_pt(ra), pb.at_pt(rb)) if ra else ([], [])
    ref = reference(A, B)
    for p, q in zip(qa, qb):
        require(math.dist(p, q) < 1e-3, "reported parameters address %r and %r", p, q)
    # completeness, multiplicity
    robust = [r for r in ref if r[5] == "cross"]
    vague = [r[4] for r in ref if r[5] != "cross"]
    used = set()
    for r in robust:
        mult = [x for x in ref if math.dist(x[4], r[4]) < 1e-3]
        if any(x[5] != "cross" for x in mult):
            continue
        if any(1e-5 < math.dist(x[4], r[4]) < 1e-2 for x in ref):
            continue        # several common points next to each other
        rep = [k for k, (p, q) in enumerate(zip(qa, qb)) if math.dist(p, r[4]) < 2e-3 and math.dist(q, r[4]) < 2e-3]
        used.update(rep)
        require(len(rep) == len(mult), "common point %r: %d reports for %d crossing(s)", r[4], len(rep), len(mult))
        for k in rep:
            require(math.dist(qa[k], qb[k]) < 2e-4 and math.dist(qa[k], r[4]) < 1.5e-3, "crossing %r reported at %r and %r", r[4], qa[k], qb[k])
    # other reports are contacts of some kind
    for k, (p, q) in enumerate(zip(qa, qb)):
        if k not in used:
            m = min([1e9] + [g.dist_point_seg(p, s) for _, l in B.subs for s in l])
            require(m < 1e-3, "%r reported, which is %r away from the other path", p, m)
            tan = tangential(A, B, p)
            if not tan and not any(math.dist(v, p) < 2e-3 for v in vague):
                near = [r for r in ref if math.dist(r[4], p) < 5e-3]
                require(near, "%r reported, but no common point found there", p)
    # order
    if len(A.subs) == 1 and len(B.subs) == 1:
        for x, y in zip(ra, ra[1:]):
            require(not y < x, "parameters not in order")
    return tuple(sorted((round(r[4][0], 2), round(r[4][1], 2)) for r in robust)), len(ra)


def tangential(A, B, q):
    """nearly parallel directions of both curves at q"""
    dirs = []
    for C in (A, B):
        l = []
        for p in C.pieces:
            if g.dist_point_seg(q, p.seg) < 2e-3:
                n = 200 if len(p.seg) > 2 else 1
                t = numpy.linspace(0, 1, n+1)
                pts = curves.evaluate(p.c, t)
                k = numpy.argsort(numpy.hypot(pts[:, 0]-q[0], pts[:, 1]-q[1]))[:3]
                l.extend(p.tangent(float(t[j])) for j in k)
        dirs.append(l)
    return any(abs(a[0]*b[1]-a[1]*b[0]) < .1 for a in dirs[0] for b in dirs[1])


SHIFT = [-7.3, -4, -1.7, 0, 2.9, 5]
TRS = {"id": trafo.identity if hasattr(trafo, "identity") else trafo.trafo(), "rot": trafo.rotate(90), "rot33": trafo.rotate(33), "small": trafo.scale(.23), "flip": trafo.mirror(0), "big": trafo.scale(40)}


def gen_grid(tier):
    sh = SHIFT if tier != "thorough" else SHIFT + [-6, -3.1, 1.3, 4.4, 7]
    for a in NAMES:
        for b in NAMES:
            for tr in ("id", "rot33") if tier != "thorough" else ("id", "rot", "rot33", "small", "flip"):
                for dx in sh:
                    for dy in sh:
                        if tier != "thorough" and (NAMES.index(a)+NAMES.index(b)+SHIFT.index(dx)+SHIFT.index(dy)) % 3 and not (dx in (0, -4) and dy in (0, 5)):
                            continue
                        yield (a, b, tr, dx, dy)


def run_grid(case):
    a, b, tr, dx, dy = case
    pa = build(a)
    pb = build(b).transformed(TRS[tr]).transformed(trafo.translate_pt(dx, dy))
    na, nb = pa.normpath(), pb.normpath()
    s = check(pa, pb, na, nb)
    return (a, b) + s if s[0] or s[1] else ("apart", a, b)


# part boundaries put exactly on each other and on parts
def knots(np):
    out = []
    for c, l in g.segs(np):
        for s in l:
            out.append(s[0])
            out.append(g.bez(s, .5))
        out.append(l[-1][-1])
    return out


def gen_knots(tier):
    small = ["line", "zigzag", "curve", "circle", "triangle", "rect", "closedcurve", "parts", "smooth"]
    for a in small:
        ka = len(knots(build(a).normpath()))
        for b in small:
            kb = len(knots(build(b).normpath()))
            for i in range(ka):
                for j in range(kb):
                    for tr in ("rot33",) if tier != "thorough" else ("id", "rot", "rot33", "small", "flip"):
                        if tier == "thorough" or (i*5+j+len(a)+len(b)) % 2 == 0:
                            yield (a, b, i, j, tr)


def run_knots(case):
    a, b, i, j, tr = case
    pa = build(a)
    na = pa.normpath()
    nb = build(b).transformed(TRS[tr])
    (x, y), (u, v) = knots(na)[i], knots(nb)[j]
    pb = nb.transformed(trafo.translate_pt(x-u, y-v))
    s = check(na, pb, na, pb.normpath())
    return (a, b) + s


# mutual consistency: swapping, reversing and transforming
def run_sym(case):
    a, b, tr, dx, dy = case
    pa, pb = build(a).normpath(), build(b).transformed(TRS[tr]).transformed(trafo.translate_pt(dx, dy))
    A, B = curves.ofnormpath(pa), curves.ofnormpath(pb)
    if coincide(A, B):
        return None
    ref = reference(A, B)
    if any(r[5] != "cross" for r in ref):
        return None
    n = len(ref)
    want = sorted((round(r[4][0], 2), round(r[4][1], 2)) for r in ref)
    for x, y in ((pb, pa), (pa.reversed(), pb), (pa, pb.reversed()), (pa.path(), pb.path()), (pb.path(), pa.reversed())):
        ra, rb = x.intersect(y)
        if len(ra) != n:
            # contacts the oracle classifies as tangential only
            pts = x.at_pt(ra) if ra else []
            require(any(tangential(A, B, p) for p in pts + [r[4] for r in ref]), "%d crossings instead of %d after swapping or reversing", len(ra), n)
            continue
        for p, q in zip(x.at_pt(ra) if ra else [], y.at_pt(rb) if rb else []):
            require(math.dist(p, q) < 1e-3 and any(math.dist(p, r[4]) < 2e-3 for r in ref), "crossing at %r and %r", p, q)
    core.TRACE.step(tuple(want))
    return tuple(want)


def gen_sym(tier):
    for k, c in enumerate(gen_grid(tier)):
        if k % 4 == 0:
            yield c


# straight lines: all pairs over a grid of end points (exact arithmetic oracle)
def gen_lines(tier):
    n = 4 if tier != "thorough" else 5
    pts = list(itertools.product(range(n), repeat=2))
    segs = [(a, b) for a in pts for b in pts if a < b]
    fixed = segs if tier == "thorough" else segs[::3]
    for s in fixed:
        for t in segs:
            yield (s, t)


def run_lines(case):
    (a, b), (c, d) = case
    cross = lambda o, p, q: (p[0]-o[0])*(q[1]-o[1]) - (p[1]-o[1])*(q[0]-o[0])
    on = lambda p, s, t: cross(s, t, p) == 0 and min(s[0], t[0]) <= p[0] <= max(s[0], t[0]) and min(s[1], t[1]) <= p[1] <= max(s[1], t[1])
    meets = (cross(a, b, c)*cross(a, b, d) < 0 and cross(c, d, a)*cross(c, d, b) < 0) or on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d)
    for (p, q), (r, t) in (((a, b), (c, d)), ((b, a), (c, d)), ((c, d), (b, a))):
        l1, l2 = path.line_pt(*p, *q), path.line_pt(*r, *t)
        ra, rb = l1.intersect(l2)
        require(len(ra) == len(rb) == (1 if meets else 0), "lines %r-%r and %r-%r: %d common points reported", a, b, c, d, len(ra))
        if ra:
            x, y = l1.at_pt(ra[0]), l2.at_pt(rb[0])
            require(math.dist(x, y) < 2e-5, "reported at %r and %r", x, y)
    return (case, meets)


# lines shorter than epsilon arise when curves are subdivided
SHORT = [(1, 2), (3, -4), (0, 0), (-2.5, 7)]
DIRS = [(1, 0), (0, 1), (.6, .8), (-.8, .6), (0, 0)]


def run_short(case):
    i, d, l, j, e, m, off = case
    (x, y), (ux, uy), (vx, vy) = SHORT[i], DIRS[d], DIRS[e]
    a = normpath.normline_pt(x-ux*l/2, y-uy*l/2, x+ux*l/2, y+uy*l/2)
    # other line through the middle (or off it) with the middle at fraction j
    b = normpath.normline_pt(x-vx*m*j-vy*off, y-vy*m*j+vx*off, x+vx*m*(1-j)-vy*off, y+vy*m*(1-j)+vx*off)
    for p, q in ((a, b), (b, a)):
        r = p.intersect(q, EPS)
        if off < EPS/4:
            require(len(r) == 1, "short line through another: %r", r)
            (x0, y0), (x1, y1) = p.at_pt([r[0][0]])[0], q.at_pt([r[0][1]])[0]
            require(math.hypot(x0-x1, y0-y1) < 2*EPS, "reported at different points")
        elif off > 4*EPS:
            require(not r, "lines apart reported to meet: %r", r)
    return case


def gen_short():
    for i in range(len(SHORT)):
        for d in range(5):
            for l in (1e-7, 3e-6):
                for j in (.2, .5, .9):
                    for e in range(4):
                        for m in (2e-6, 1, 30):
                            for off in (0, 1e-4, .5):
                                yield (i, d, l, j, e, m, off)


def spaces(tier):
    return [Space("lines", lambda: gen_lines(tier), run_lines, "all pairs of straight lines between points of a %d x %d grid (quick: a third of the first lines), exact oracle" % ((4, 4) if tier != "thorough" else (5, 5))),
            Space("grid", lambda: gen_grid(tier), run_grid, "all pairs of %d paths, shifted over a grid, in up to five orientations and sizes" % len(CAT)),
            Space("knots", lambda: gen_knots(tier), run_knots, "all pairs of part boundaries and part middles of two paths put on each other"),
            Space("short", gen_short, run_short, "lines shorter than epsilon against short and long lines"),
            Space("symmetry", lambda: gen_sym(tier), run_sym, "pairs of the grid, swapped, reversed, as path and normpath")]
