"""P17: boxes align, stack and keep distance exactly as asked."""
import itertools, math
from mc import core
from mc.core import Space, require
from pyx import box, trafo, unit

PROPERTY = "P17"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of convex lattice polygons, centres, directions and distances; alignment vectors, extents, distances and group operations of the real code compared with brute-force geometry"
LEVEL_NOTE = "All convex lattice polygons up to 4 (5) corners in a 4x4 grid up to translation, plus degenerate ones, all lattice and half-lattice centres in them, 16 directions, 4 distances; all relative placements of pairs; all groups of up to 3 boxes."
RULE = "A case is one polygon with centre and direction, one pair of boxes with an offset, or one group; non-trivial if a vector or distance was returned; outcomes are the results rounded."
ASSUMPTIONS = ["Circle alignment is specified for non-negative distances, line alignment for any.",
               "Boxes which just touch may be reported as overlapping or at distance zero."]

EPS = 1e-7


# ------------------------------------------------------------ geometry
def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])


def hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    lo, up = [], []
    for p in pts:
        while len(lo) > 1 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(pts):
        while len(up) > 1 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1]+up[:-1]


def polygons(kmax, size):
    """convex lattice polygons with exactly k corners touching x=0 and y=0"""
    grid = [(x, y) for x in range(size) for y in range(size)]
    out = []
    for k in range(3, kmax+1):
        for pts in itertools.combinations(grid, k):
            if min(p[0] for p in pts) or min(p[1] for p in pts):
                continue
            h = hull(pts)
            if len(h) == k:
                out.append(tuple(h))
    return out


def segdist(p, a, b):
    gx, gy = b[0]-a[0], b[1]-a[1]
    l = gx*gx+gy*gy
    t = 0 if l == 0 else max(0, min(1, ((p[0]-a[0])*gx+(p[1]-a[1])*gy)/l))
    return math.hypot(p[0]-a[0]-t*gx, p[1]-a[1]-t*gy)


def inside(p, poly):
    """-1 outside, 0 on the boundary, 1 inside of a convex polygon"""
    if min(segdist(p, a, b) for a, b in edges(poly)) < 1e-9:
        return 0
    s = [cross(a, b, p) for a, b in edges(poly) if a != b]
    return 1 if s and (all(v > 0 for v in s) or all(v < 0 for v in s)) else -1


def edges(poly):
    return [(poly[i-1], poly[i]) for i in range(len(poly))]


def polydist(p, poly):
    if inside(p, poly) == 1:
        return 0.0
    return min(segdist(p, a, b) for a, b in edges(poly))


def circlet(poly, c, d, a):
    """the largest t for which the distance of c from poly+t*d is a"""
    cand = []
    # q(t) = c-t*d has distance a from the polygon
    for p in poly:
        wx, wy = c[0]-p[0], c[1]-p[1]
        b = -(wx*d[0]+wy*d[1])
        q = wx*wx+wy*wy-a*a
        disc = b*b-q
        if disc > -1e-12:
            r = math.sqrt(max(0, disc))
            cand += [-b+r, -b-r]
    for u, v in edges(poly):
        l = math.hypot(v[0]-u[0], v[1]-u[1])
        if l == 0:
            continue
        nx, ny = (v[1]-u[1])/l, -(v[0]-u[0])/l
        den = -(d[0]*nx+d[1]*ny)
        if abs(den) > 1e-12:
            for s in (a, -a):
                cand.append((s-((c[0]-u[0])*nx+(c[1]-u[1])*ny))/den)
    best = None
    for t in cand:
        q = (c[0]-t*d[0], c[1]-t*d[1])
        if abs(polydist(q, poly)-a) < 1e-9 and (best is None or t > best):
            best = t
    return best


def linet(poly, c, d, a):
    return a-min((p[0]-c[0])*d[0]+(p[1]-c[1])*d[1] for p in poly)


DIRS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (2, 1), (1, 2), (-1, 2), (-3, 1), (-2, -1), (-1, -3), (0.3, -0.7), (5, -2)]


def norm(d):
    n = math.hypot(*d)
    return d[0]/n, d[1]/n


def centers(poly):
    xs = [p[0] for p in poly]
    ys = [p[1] for p in poly]
    out = []
    for i in range(2*min(xs), 2*max(xs)+1):
        for j in range(2*min(ys), 2*max(ys)+1):
            p = (i/2, j/2)
            if inside(p, poly) >= 0:
                out.append(p)
    return out


EXTRA = [((0, 0), (3, 0), (3, 0), (3, 2), (0, 2)), ((0, 0), (2, 0), (3, 0), (3, 2), (0, 2)), ((0, 0), (3, 0)), ((0, 0), (3, 0), (3, 0), (0, 0)),
         ((0, 0), (0, 2), (0, 2)), ((0.1, 0.2), (2.7, 0.4), (3.1, 1.9), (0.6, 2.3))]


def gen_align(tier):
    ps = polygons(4, 4) if tier == "quick" else polygons(5, 5)
    if tier == "quick":
        ps = ps[::2]
    for p in ps + EXTRA[:2] + EXTRA[5:]:
        if p in EXTRA[5:]:
            yield (p, (1.3, 0.9))
            yield (p, (0.1, 0.2))
            continue
        for c in centers(p):
            yield (p, c)


def run_align(case):
    poly, c = case
    P = box.polygon_pt(corners=list(poly), center=tuple(c))
    sig = []
    for dd in DIRS:
        d = norm(dd)
        for a in (0.0, 0.7, 2.0, 5.5):
            v = P.circlealignvector_pt(a, *dd)
            t = circlet(poly, c, d, a)
            require(abs(v[0]-t*d[0]) < EPS and abs(v[1]-t*d[1]) < EPS,
                    "circle alignment at %g in direction %r moves by %r instead of %r", a, dd, v, (t*d[0], t*d[1]))
            sig.append(round(t, 4))
        for a in (0.0, 0.7, 4.0, -1.3):
            v = P.linealignvector_pt(a, *dd)
            t = linet(poly, c, d, a)
            require(abs(v[0]-t*d[0]) < EPS and abs(v[1]-t*d[1]) < EPS,
                    "line alignment at %g in direction %r moves by %r instead of %r", a, dd, v, (t*d[0], t*d[1]))
        e = P.extent_pt(*dd)
        s = [p[0]*d[0]+p[1]*d[1] for p in poly]
        require(abs(e-(max(s)-min(s))) < EPS, "extent in direction %r is %g instead of %g", dd, e, max(s)-min(s))
        N = box.polygon_pt(corners=list(poly))
        m = tuple(sum(p[i] for p in poly)/len(poly) for i in (0, 1))
        require(abs(N.extent_pt(*dd)-e) < EPS and math.dist(N.center, m) < EPS, "extent or default centre")
        # applying it
        Q = box.polygon_pt(corners=list(poly), center=tuple(c))
        r = Q.circlealign_pt(0.7, *dd)
        require(r is Q, "circlealign does not return the box")
        t = circlet(poly, c, d, 0.7)
        for got, was in zip(list(Q.corners)+[Q.center], list(poly)+[c]):
            require(math.dist(got, (was[0]+t*d[0], was[1]+t*d[1])) < EPS, "circlealign moves %r to %r", was, got)
        Q = box.polygon_pt(corners=list(poly), center=tuple(c))
        Q.linealign_pt(0.7, *dd)
        t = linet(poly, c, d, 0.7)
        for got, was in zip(list(Q.corners)+[Q.center], list(poly)+[c]):
            require(math.dist(got, (was[0]+t*d[0], was[1]+t*d[1])) < EPS, "linealign moves %r to %r", was, got)
    require(list(P.corners) == list(poly) and tuple(P.center) == tuple(c), "asking for a vector moved the box")
    return sig


# ------------------------------------------------------------ units, rect, transformations
def run_units(case):
    x, y, w, h, rel, ab, u = case
    U = {"cm": unit.t_cm, "pt": unit.t_pt, "mm": unit.t_mm}[u]
    f = unit.topt(1*U)
    R = box.rect(x*U, y*U, w*U, h*U, relcenter=rel, abscenter=(ab[0]*U, ab[1]*U))
    want = [(x, y), (x+w, y), (x+w, y+h), (x, y+h)]
    c = (x+rel[0]*w+ab[0], y+rel[1]*h+ab[1])
    for got, p in zip(list(R.corners)+[R.center], want+[c]):
        require(math.dist(got, (p[0]*f, p[1]*f)) < 1e-6, "rect corner or centre %r instead of %r", got, p)
    require(len(R.corners) == 4, "%d corners", len(R.corners))
    b = R.bbox()
    for got, want1 in zip((b.left(), b.bottom(), b.width(), b.height()), (min(x, x+w), min(y, y+h), abs(w), abs(h))):
        require(abs(unit.topt(got)-want1*f) < 1e-6, "bbox")
    if w < 0 or h < 0:
        return None
    sig = []
    poly = [(p[0]*f, p[1]*f) for p in want]
    cc = (c[0]*f, c[1]*f)
    cin = inside(cc, poly) >= 0
    for dd in DIRS[::3]:
        d = norm(dd)
        for a in (0.0, 0.5):
            if cin:
                v = [unit.topt(q) for q in R.circlealignvector(a*U, *dd)]
                t = circlet(poly, cc, d, a*f)
                require(math.dist(v, (t*d[0], t*d[1])) < 1e-5, "circlealignvector %r instead of %r", v, (t*d[0], t*d[1]))
                Q = box.rect(x*U, y*U, w*U, h*U, relcenter=rel, abscenter=(ab[0]*U, ab[1]*U)).circlealign(a*U, *dd)
                require(math.dist(Q.center, (cc[0]+t*d[0], cc[1]+t*d[1])) < 1e-5 and math.dist(Q.corners[2], (poly[2][0]+t*d[0], poly[2][1]+t*d[1])) < 1e-5, "circlealign")
            v = [unit.topt(q) for q in R.linealignvector(a*U, *dd)]
            t = linet(poly, cc, d, a*f)
            require(math.dist(v, (t*d[0], t*d[1])) < 1e-5, "linealignvector %r instead of %r", v, (t*d[0], t*d[1]))
            Q = box.rect(x*U, y*U, w*U, h*U, relcenter=rel, abscenter=(ab[0]*U, ab[1]*U)).linealign(a*U, *dd)
            require(math.dist(Q.center, (cc[0]+t*d[0], cc[1]+t*d[1])) < 1e-5 and math.dist(Q.corners[2], (poly[2][0]+t*d[0], poly[2][1]+t*d[1])) < 1e-5, "linealign")
            sig.append(round(t, 3))
        s = [p[0]*d[0]+p[1]*d[1] for p in poly]
        require(abs(unit.topt(R.extent(*dd))-(max(s)-min(s))) < 1e-5, "extent")
    p = (poly[0][0]-7.1, poly[0][1]+3.3)
    if inside(p, poly) < 0:
        require(abs(unit.topt(R.pointdistance(p[0]*unit.t_pt, p[1]*unit.t_pt))-polydist(p, poly)) < 1e-6, "pointdistance")
    # the outline
    n = R.path().normpath()
    require(len(n.normsubpaths) == 1 and n.normsubpaths[0].closed, "path of the box is not one closed subpath")
    require(abs(n.arclen_pt()-2*(abs(w)+abs(h))*f) < 1e-5, "path length %r", n.arclen_pt())
    bb = n.bbox()
    require(abs(bb.llx_pt-poly[0][0]) < 1e-6 and abs(bb.ury_pt-poly[2][1]) < 1e-6, "path position")
    return sig


TRAFOS = {"t": (trafo.translate_pt(3, -2), lambda p: (p[0]+3, p[1]-2)), "r": (trafo.rotate(90), lambda p: (-p[1], p[0])),
          "s": (trafo.scale(2, 0.5), lambda p: (2*p[0], 0.5*p[1])), "m": (trafo.mirror(0), lambda p: (p[0], -p[1]))}


def run_trafo(case):
    poly, c, seq, rel, keep = case
    P = box.polygon_pt(corners=list(poly), center=c)
    ts = [TRAFOS[s][0] for s in seq]
    if c is None:
        # the default is the mean of the corners
        c = tuple(sum(p[i] for p in poly)/len(poly) for i in (0, 1))
    off = c if rel else (0, 0)

    def ap(p):
        p = (p[0]-off[0], p[1]-off[1])
        for s in seq:
            p = TRAFOS[s][1](p)
        return (p[0]+off[0], p[1]+off[1])
    if rel:
        P.reltransform(*ts)
    else:
        P.transform(*ts, keep_anchor=keep)
    want = [ap(p) for p in poly]
    for a, b in zip(P.corners, want):
        require(math.dist(a, b) < 1e-9, "corner %r instead of %r", a, b)
    w = c if keep and not rel else ap(c)
    require(math.dist(P.center, w) < 1e-9, "centre %r instead of %r", P.center, w)
    return [tuple(round(v, 3) for v in p) for p in P.corners]


def gen_trafo(tier):
    for poly in (((0, 0), (3, 0), (2, 2)), ((1, 1), (4, 0), (5, 3), (2, 2))):
        for c in (None, (2, 1), (0.5, 0.25)):
            for k in range(0, 4 if tier == "quick" else 5):
                for seq in itertools.product("trsm", repeat=k):
                    for rel, keep in ((True, False), (False, False), (False, True)):
                        yield (poly, c, seq, rel, keep)


# ------------------------------------------------------------ distances
def overlap(p, q):
    """1 interiors overlap, 0 touch, -1 apart (convex polygons), by separating axes"""
    best = -math.inf
    for poly in (p, q):
        for a, b in edges(poly):
            l = math.hypot(b[0]-a[0], b[1]-a[1])
            if l == 0:
                continue
            for nx, ny in (((b[1]-a[1])/l, -(b[0]-a[0])/l), ((b[0]-a[0])/l, (b[1]-a[1])/l)):
                s = [v[0]*nx+v[1]*ny for v in p]
                t = [v[0]*nx+v[1]*ny for v in q]
                best = max(best, min(t)-max(s), min(s)-max(t))
    return -1 if best > 1e-9 else (0 if best > -1e-9 else 1)


def gen_dist(tier):
    ps = polygons(4, 3)
    ps = ps[::2] if tier == "quick" else polygons(4, 4)[::3]
    small = [((0, 0), (1, 0), (0, 1)), ((0, 0), (0.5, 0), (0.5, 0.5), (0, 0.5)), ((0, 0), (7, 0), (7, 7), (0, 7))] + [EXTRA[2], EXTRA[5]]
    for p in ps:
        for q in ps[::3] + small:
            yield (p, q)
            yield (q, p)


OFFS = [(x, y) for x in (-4, -2.5, -1, -0.25, 0, 0.75, 2, 3, 5) for y in (-3, -1.5, -0.3, 0, 1, 2.25, 4)]


def run_dist(case):
    p, q = case
    sig = []
    for o in OFFS:
        r = [(x+o[0], y+o[1]) for x, y in q]
        P, Q = box.polygon_pt(corners=list(p)), box.polygon_pt(corners=list(r))
        k = overlap(p, r)
        want = min(min(polydist(v, r) for v in p), min(polydist(v, p) for v in r))
        for A, B in ((P, Q), (Q, P)):
            try:
                d = A.boxdistance_pt(B)
            except box.BoxCrossError:
                d = None
            if k == 1:
                require(d is None, "overlapping boxes at offset %r have distance %r", o, d)
            elif k == 0:
                require(d is None or abs(d) < 1e-6, "touching boxes at offset %r have distance %r", o, d)
            else:
                require(d is not None and abs(d-want) < 1e-6, "distance at offset %r is %r instead of %r", o, d, want)
                dd = unit.topt(A.boxdistance(B))
                require(abs(dd-want) < 1e-6, "boxdistance %r instead of %r", dd, want)
        sig.append((k, round(want, 3)))
        for v in r:
            if inside(v, p) < 0:
                require(abs(P.pointdistance_pt(*v)-polydist(v, p)) < 1e-9, "distance of the point %r is %r instead of %r", v, P.pointdistance_pt(*v), polydist(v, p))
    return sig


# ------------------------------------------------------------ groups
GP = [(((0, 0), (3, 0), (3, 2), (0, 2)), (0, 0)), (((0, 0), (5, 0), (5, 1), (0, 1)), (1, 0.5)), (((0, 0), (2, 0), (1, 4)), (1, 1)),
      (((-1, -1), (2, 0), (3, 3), (0, 2)), (0.5, 0.5)), (((0, 0), (1, 0), (1, 6), (0, 6)), (0.25, 5))]


def gen_groups(tier):
    for k in (1, 2, 3) + (() if tier == "quick" else (4,)):
        for s in itertools.product(range(len(GP)), repeat=k):
            for dd in DIRS:
                yield (s, dd)


def run_groups(case):
    s, dd = case
    d = norm(dd)
    sig = []

    def fresh(shift=False):
        return [box.polygon_pt(corners=[(x+9*i*shift, y) for x, y in GP[j][0]], center=(GP[j][1][0]+9*i*shift, GP[j][1][1])) for i, j in enumerate(s)]
    for a in (0.0, 0.8, 3.0, -2.0, -7.5):
        for name, fn, ref in (("circle", box.circlealignequal_pt, circlet), ("line", box.linealignequal_pt, linet),
                              ("circle u", lambda b, a, *d: box.circlealignequal(b, a*unit.t_pt, *d), circlet),
                              ("line u", lambda b, a, *d: box.linealignequal(b, a*unit.t_pt, *d), linet)):
            if a < 0 and ref is circlet:
                continue
            B = fresh()
            fn(B, a, *dd)
            t = max(ref(GP[j][0], GP[j][1], d, a) for j in s)
            for b, j in zip(B, s):
                for got, was in zip(list(b.corners)+[b.center], list(GP[j][0])+[GP[j][1]]):
                    require(math.dist(got, (was[0]+t*d[0], was[1]+t*d[1])) < EPS, "%s alignment of a group at %g moves %r to %r instead of by %g", name, a, was, got, t)
            sig.append(round(t, 3))
        if a < 0:
            continue
        for name, fn in (("tile_pt", box.tile_pt), ("tile", lambda b, a, *d: unit.topt(box.tile(b, a*unit.t_pt, *d)))):
            B = fresh()
            delta = fn(B, a, *dd)
            ext = []
            for j in s:
                v = [p[0]*d[0]+p[1]*d[1] for p in GP[j][0]]
                ext.append(max(v)-min(v))
            require(abs(delta-(max(ext)+a)) < EPS, "%s returns %g instead of %g", name, delta, max(ext)+a)
            for i, (b, j) in enumerate(zip(B, s)):
                for got, was in zip(list(b.corners)+[b.center], list(GP[j][0])+[GP[j][1]]):
                    require(math.dist(got, (was[0]+i*delta*d[0], was[1]+i*delta*d[1])) < EPS, "%s moves %r of box %d to %r instead of by %g", name, was, i, got, i*delta)
    return sig


def gen_units(tier):
    for x, y in ((0, 0), (1.5, -2.5)):
        for w, h in ((3, 2), (0.5, 4), (-1, 2)):
            for rel in ((0, 0), (0.5, 0.5), (1, 0.25)):
                for ab in ((0, 0), (0.25, 0.125), (-1, 3)):
                    for u in ("cm", "pt", "mm"):
                        yield (x, y, w, h, rel, ab, u)


def spaces(tier):
    return [
        Space("align", lambda: gen_align(tier), run_align, "every convex lattice polygon in the grid x all lattice and half-lattice centres x 16 directions x 4 distances, circle and line"),
        Space("units", lambda: gen_units(tier), run_units, "rectangles in 3 units with relative and absolute centres"),
        Space("transform", lambda: gen_trafo(tier), run_trafo, "all sequences of up to 3 (4) of 4 transformations, absolute, relative and keeping the anchor"),
        Space("distance", lambda: gen_dist(tier), run_dist, "pairs of convex polygons (containment and degenerate ones included) at 63 offsets, both orders"),
        Space("groups", lambda: gen_groups(tier), run_groups, "all groups of up to 3 (4) of 5 boxes x 16 directions x 5 distances (negative ones included), equal alignment and tiling"),
    ]
