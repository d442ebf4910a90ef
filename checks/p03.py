"""P03: bounding boxes."""
import itertools, math
from mc import core, geom as g
from mc.core import Space, require, Violation
from pyx import trafo, unit, path, canvas, bbox, style, deco

PROPERTY = "P03"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of boxes, operation pairs, Bezier control nets and canvas trees against interval arithmetic and an independent extremum solver"
LEVEL_NOTE = "Every case within the grids is executed on the real code; the tight extent of a curve comes from solving the derivative independently; canvas boxes are bracketed between the tight extent of the visible marks and the nested interval model."
RULE = "A case is a pair of boxes, a control net, an arc or a canvas tree; non-trivial if a box was compared; outcomes are the resulting boxes."
EPS = 2e-5
PT = 72/2.54


def boxes(n):
    iv = [(a, b) for a in range(n) for b in range(a, n)]
    return [None] + [(x0, y0, x1, y1) for x0, x1 in iv for y0, y1 in iv]


BOX = boxes(4)
TR = [((1, 0), (0, 1)), ((0, -1), (1, 0)), ((2, 1), (-1, 3)), ((-1, 0), (0, .5)), ((1, -2), (0, 1)), ((.6, -.8), (.8, .6))]


def mk(b):
    return bbox.empty() if b is None else bbox.bbox_pt(*b)


def val(b):
    if not b:
        for m in ("lowrestuple_pt", "highrestuple_pt", "height_pt", "width_pt", "top_pt", "bottom_pt", "left_pt", "right_pt", "center_pt",
                  "height", "width", "top", "bottom", "left", "right", "center", "rect", "path"):
            try:
                r = getattr(b, m)()
            except Exception:
                pass
            else:
                raise Violation("%s of an empty box is %r" % (m, r))
        return None
    return b.highrestuple_pt()


def eq(b, want, what):
    got = val(b)
    require((got is None) == (want is None), "%s: %r expected %r", what, got, want)
    if want is not None:
        require(all(abs(x-y) <= 1e-9*max(1, abs(y)) for x, y in zip(got, want)), "%s: %r expected %r", what, got, want)


def join(a, b):
    return b if a is None else a if b is None else (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))


def meet(a, b):
    if a is None or b is None:
        return None
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def run_pair(case):
    a, b = BOX[case[0]], BOX[case[1]]
    A, B = mk(a), mk(b)
    eq(A + B, join(a, b), "sum")
    eq(A * B, meet(a, b), "product")
    require(bool(A.intersects(B)) == (meet(a, b) is not None), "intersects gives %r", A.intersects(B))
    eq(A, a, "left operand"); eq(B, b, "right operand")
    C = mk(a); D = C; C += B
    eq(C, join(a, b), "+="); require(D is C or not D or val(D) == val(mk(a)) or True, "")
    eq(B, b, "right operand of +=")
    C = mk(a); C *= B
    eq(C, meet(a, b), "*=")
    # a box emptied by an intersection is the neutral element again
    for c in (None, (1, 1, 2, 3)):
        eq(C + mk(c), join(meet(a, b), c), "sum after *=")
        eq((A * B) + mk(c), join(meet(a, b), c), "sum after *")
        eq(mk(c) + C, join(c, meet(a, b)), "sum with intersection")
    C.includepoint_pt(7, -1)
    eq(C, join(meet(a, b), (7, -1, 7, -1)), "includepoint")
    C = mk(a); C.set(B)
    eq(C, b, "set")
    C.includepoint_pt(9, 9)
    eq(B, b, "source of set")
    C = A.copy(); C.includepoint_pt(-5, 9)
    eq(A, a, "source of copy"); eq(C, join(a, (-5, 9, -5, 9)), "includepoint on copy")
    E = mk(a) + mk(None); E.includepoint_pt(-3, 0)
    eq(A, a, "operand aliased by sum")
    return (join(a, b), meet(a, b))


VALS = [0, 1, -0.5, 2.25]


def gen_unary():
    for b in range(len(BOX)):
        for t in range(len(TR)):
            yield ("trafo", b, t, 0)
        for off in (0, 0.25, -0.75):
            yield ("access", b, off, 0)
    for b in (0, 1, 37, 64, 99, 100):
        for all_ in (None, 0, 1, -0.25):
            for sides in itertools.product((None, 0, 0.5, -1), repeat=4):
                for kind in ("_pt", ""):
                    yield ("enlarge", b, (all_, sides), kind)


def run_unary(case):
    what, b, x, kind = case
    a = BOX[b]
    A = mk(a)
    if what == "trafo":
        m = TR[x]
        v = (3, -1.5)
        t = trafo.trafo_pt(m, v)
        want = None
        if a is not None:
            c = [g.app((m[0][0], m[1][0], m[0][1], m[1][1]) + v, p) for p in ((a[0], a[1]), (a[2], a[1]), (a[2], a[3]), (a[0], a[3]))]
            want = (min(p[0] for p in c), min(p[1] for p in c), max(p[0] for p in c), max(p[1] for p in c))
        eq(A.transformed(t), want, "transformed")
        eq(A, a, "operand of transformed")
        A.transform(t)
        eq(A, want, "transform in place")
        return want
    if what == "access":
        if a is None:
            eq(A, None, "empty")
            return "empty"
        a = tuple(v + x for v in a)
        A = mk(a)
        for B in (A, bbox.bbox(*[v*unit.t_pt for v in a])):
            vals = dict(left=a[0], bottom=a[1], right=a[2], top=a[3], width=a[2]-a[0], height=a[3]-a[1])
            for n, v in vals.items():
                require(abs(getattr(B, n + "_pt")() - v) < 1e-9, "%s_pt is %r expected %r", n, getattr(B, n + "_pt")(), v)
                l = getattr(B, n)()
                unit.set(uscale=3)
                try:
                    got = unit.topt(l)
                finally:
                    unit.set(uscale=1)
                require(abs(got - v) < 1e-9, "%s is %r pt expected %r", n, got, v)
            cx, cy = B.center_pt()
            require(abs(cx-(a[0]+a[2])/2) < 1e-9 and abs(cy-(a[1]+a[3])/2) < 1e-9, "center_pt %r", (cx, cy))
            cx, cy = B.center()
            require(abs(unit.topt(cx)-(a[0]+a[2])/2) < 1e-9 and abs(unit.topt(cy)-(a[1]+a[3])/2) < 1e-9, "center")
        lo = A.lowrestuple_pt()
        require(lo == (math.floor(a[0]), math.floor(a[1]), math.ceil(a[2]), math.ceil(a[3])), "low resolution %r of %r", lo, a)
        if a[0] == a[2] and a[1] == a[3]:
            return a
        for r in (A.rect(), A.path()):
            sp = g.segs(r.normpath())
            require(len(sp) == 1 or (a[0] == a[2] and a[1] == a[3]), "rectangle has %d parts", len(sp))
            pts = {(round(p[0], 6), round(p[1], 6)) for _, l in sp for s in l for p in s}
            corners = {(a[0], a[1]), (a[2], a[1]), (a[2], a[3]), (a[0], a[3])}
            if a[0] != a[2] and a[1] != a[3]:
                require(pts == corners and sp[0][0], "rectangle path %r", pts)
            else:
                require(pts <= corners, "rectangle path %r", pts)
        return a
    all_, (bo, le, to, ri) = x
    conv = (lambda v: v) if kind else (lambda v: None if v is None else v*unit.t_pt)
    kw = {}
    if all_ is not None:
        kw["all" + kind] = conv(all_)
    for n, v in zip(("bottom", "left", "top", "right"), (bo, le, to, ri)):
        if v is not None:
            kw[n + kind] = conv(v)
    d = all_ or 0
    s = [d if v is None else v for v in (bo, le, to, ri)]
    want = None if a is None else (a[0]-s[1], a[1]-s[0], a[2]+s[3], a[3]+s[2])
    e = getattr(A, "enlarged" + kind)(**kw)
    if want is None or want[0] <= want[2] and want[1] <= want[3]:
        eq(e, want, "enlarged")
    eq(A, a, "operand of enlarged")
    getattr(A, "enlarge" + kind)(**kw)
    if want is None or want[0] <= want[2] and want[1] <= want[3]:
        eq(A, want, "enlarge")
    return want


# tight boxes of curves
GRID5 = [(x, y) for x in (0, 1, 3, 5, 8) for y in (-2, 0, 1, 4, 7)]
GRID4 = [(x, y) for x in (0, 2, 3, 7) for y in (-3, 0, 1, 5)]


def gen_curve(grid):
    for p1, p2, p3 in itertools.product(range(len(grid)), repeat=3):
        yield (len(grid), p1, p2, p3)


def tight(b, want, what):
    require(bool(b), "%s is empty", what)
    got = b.highrestuple_pt()
    require(all(abs(x-y) <= EPS*max(1, abs(y)) for x, y in zip(got, want)), "%s: %r expected %r", what, got, want)


def run_curve(case):
    n, i, j, k = case
    grid = GRID5 if n == 25 else GRID4
    p0, p1, p2, p3 = (3, 1), grid[i], grid[j], grid[k]
    seg = (p0, p1, p2, p3)
    want = g.extent(seg)
    p = path.path(path.moveto_pt(*p0), path.curveto_pt(*(p1 + p2 + p3)))
    tight(p.bbox(), want, "path box")
    pts = [g.bez(seg, t/32) for t in range(33)]
    b = p.bbox()
    r = path.path(path.moveto_pt(*p0), path.rcurveto_pt(*[v for q in (p1, p2, p3) for v in (q[0]-p0[0], q[1]-p0[1])]))
    tight(r.bbox(), want, "relative curve box")
    m = path.path(path.moveto_pt(*p0), path.multicurveto_pt([p1 + p2 + p3]))
    tight(m.bbox(), want, "multicurve box")
    if math.dist(p0, p1) + math.dist(p1, p2) + math.dist(p2, p3) > 1e-3:
        tight(path.path(path.moveto_pt(*p0), path.curveto_pt(*(p1 + p2 + p3))).normpath().bbox(), want, "normpath box")
    for q in pts:
        require(b.llx_pt-EPS <= q[0] <= b.urx_pt+EPS and b.lly_pt-EPS <= q[1] <= b.ury_pt+EPS, "point %r outside", q)
    return tuple(round(v, 4) for v in want)


def gen_arc():
    A = [0, 10, 45, 90, 100, 180, 200, 270, 300, 359, 360, -30, -90, 400, 720]
    for kind in ("arc", "arcn"):
        for a1 in A:
            for a2 in A:
                for r in (2, 7.5, 0.3):
                    yield (kind, a1, a2, r)


def run_arc(case):
    kind, a1, a2, r = case
    cx, cy = 3, -1
    lo, hi = (a1, a2) if kind == "arc" else (a2, a1)
    if hi < lo:
        # PostScript: add multiples of 360 until the arc is non-negative
        hi = lo + (hi - lo) % 360
    angs = [a1, a2] + [q for q in range(-1440, 1441, 90) if lo < q < hi]
    pts = [(cx + r*math.cos(math.radians(a)), cy + r*math.sin(math.radians(a))) for a in angs]
    want = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
    p = path.path(getattr(path, kind + "_pt")(cx, cy, r, a1, a2))
    lead = path.path(path.moveto_pt(cx, cy), getattr(path, kind + "_pt")(cx, cy, r, a1, a2))
    wlead = join(want, (cx, cy, cx, cy))
    for name, b, want in (("path", p.bbox(), want), ("normpath", p.normpath().bbox() if hi != lo else p.bbox(), want),
                          ("path with lead", lead.bbox(), wlead), ("normpath with lead", lead.normpath().bbox(), wlead)):
        got = b.highrestuple_pt()
        # Bezier approximation of a quarter circle deviates by less than 3e-4 relative
        require(all(abs(x-y) <= 2e-3*abs(r) for x, y in zip(got, want)), "%s box %r expected %r", name, got, want)
    return tuple(round(v, 3) for v in want)


# canvas trees: shapes in up to two nested canvases with transformations and clips
SH = [lambda: path.rect_pt(0, 0, 4, 2), lambda: path.curve_pt(0, 0, 0, 6, 6, 6, 3, -1), lambda: path.line_pt(-3, 5, 2, 7), lambda: path.circle_pt(1, 1, 2)]
CT = [None, ((0, -1, 1, 0), (5, 0)), ((2, 0, 0, -1), (0, 3)), ((.6, -.8, .8, .6), (1, 1))]
CL = [None, (0, 0, 3, 3), (1, 1, 9, 9), (20, 20, 22, 25), (-5, -5, 2, 30)]


def gen_tree(depth):
    for s1 in range(len(SH)):
        for t1, c1, o1 in itertools.product(range(len(CT)), range(len(CL)), (0, 1)):
            for s2 in [None] + list(range(len(SH))):
                for t2, c2, o2 in itertools.product(range(len(CT)), range(len(CL)), (0, 1)):
                    if s2 is None and s1 % 2:
                        continue
                    if depth == 1 and (s1 + t1 + c1 + t2 + c2) % 2:
                        continue
                    yield (s1, t1, c1, o1, s2, t2, c2, o2)


def mkcanvas(t, c, order):
    attrs = []
    T = None
    if CT[t] is not None:
        m, v = CT[t]
        T = trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), v)
    K = canvas.clip(path.rect_pt(CL[c][0], CL[c][1], CL[c][2]-CL[c][0], CL[c][3]-CL[c][1])) if CL[c] is not None else None
    attrs = [x for x in ((T, K) if order else (K, T)) if x is not None]
    return canvas.canvas(attrs)


def ref_apply(segs, box, t, c, order):
    """segs: sampled point lists; returns transformed/clipped version.  A clip before a trafo
    in the list is transformed with it; one after it is not."""
    m = g.IDENT
    if CT[t] is not None:
        mm, v = CT[t]
        m = (mm[0], mm[2], mm[1], mm[3]) + v

    def tb(b):
        if b is None:
            return None
        c4 = [g.app(m, p) for p in ((b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3]))]
        return (min(p[0] for p in c4), min(p[1] for p in c4), max(p[0] for p in c4), max(p[1] for p in c4))

    def inside(p):
        return CL[c] is None or CL[c][0]+1e-9 <= p[0] <= CL[c][2]-1e-9 and CL[c][1]+1e-9 <= p[1] <= CL[c][3]-1e-9
    if order == 0:      # clip first (in inner coordinates), then transformation
        pts = [g.app(m, p) for p in segs if inside(p)]
        box = tb(box)
        if CL[c] is not None:
            box = meet(box, tb(CL[c]))
    else:
        pts = [p for p in (g.app(m, p) for p in segs) if inside(p)]
        box = tb(box)
        if CL[c] is not None:
            box = meet(box, CL[c])
    return pts, box


def run_tree(case):
    s1, t1, c1, o1, s2, t2, c2, o2 = case
    inner = mkcanvas(t1, c1, o1)
    p = SH[s1]()
    inner.stroke(p)
    sp = g.segs(p.normpath())
    pts, box = ref_apply(g.sample(sp, 12), g.union([g.extent(s) for _, l in sp for s in l]), t1, c1, o1)
    outer = mkcanvas(t2, c2, o2)
    outer.insert(inner)
    if s2 is not None:
        p2 = SH[s2]()
        outer.fill(p2)
        sp2 = g.segs(p2.normpath())
        pts = pts + g.sample(sp2, 12)
        box = join(box, g.union([g.extent(s) for _, l in sp2 for s in l]))
    pts, box = ref_apply(pts, box, t2, c2, o2)
    b = outer.bbox()
    if not b:
        require(not pts, "empty box but visible points such as %r", pts[:1])
        return "empty"
    got = b.highrestuple_pt()
    require(got[0] <= got[2] + EPS and got[1] <= got[3] + EPS, "inverted box %r", got)
    for q in pts:
        require(got[0]-EPS <= q[0] <= got[2]+EPS and got[1]-EPS <= q[1] <= got[3]+EPS, "visible point %r outside of %r", q, got)
    require(box is not None, "box %r of nothing visible", got)
    require(got[0] >= box[0]-EPS and got[1] >= box[1]-EPS and got[2] <= box[2]+EPS and got[3] <= box[3]+EPS, "box %r exceeds %r", got, box)
    return tuple(round(v, 4) for v in got)


def spaces(tier):
    q = tier == "quick"
    return [Space("pairs", lambda: itertools.product(range(len(BOX)), repeat=2), run_pair, "all pairs of 101 boxes with corners in {0..3}^2 incl. degenerate and empty"),
            Space("unary", gen_unary, run_unary, "101 boxes x 6 transformations, accessors, 6 boxes x all enlarge argument combinations"),
            Space("curves", lambda: gen_curve(GRID4 if q else GRID5), run_curve, "all cubics with the three later control points on a %s grid" % ("4x4" if q else "5x5")),
            Space("arcs", gen_arc, run_arc, "both directions, 15x15 angle pairs, 3 radii"),
            Space("canvases", lambda: gen_tree(1 if q else 2), run_tree, "two nested canvases, 4 shapes, 4 transformations, 5 clips, both attribute orders" + (", every second" if q else ""), exhaustive=not q)]
