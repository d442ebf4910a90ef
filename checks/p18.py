"""P18: connectors run from box edge to box edge with the given distance."""
import io, itertools, math
from mc import core, machines
from mc.core import Space, require
from pyx import box, canvas, connector, document, unit

PROPERTY = "P18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of box pairs, connector kinds, angle, bulge and length arguments and end distances; the written curve compared with an independently constructed centre-to-centre curve cut at the polygon edges"
LEVEL_NOTE = "All ordered pairs of 5 box shapes at 10 relative positions with all argument values from the sets, end distances from 4 pairs; all argument pairs of two-lines connectors over a grid of apex positions on both sides."
RULE = "A case is one pair of boxes with one connector and its arguments; trivial if the curve grazes a box or the boxes overlap; outcomes are the rounded end points and length."
ASSUMPTIONS = ["Curves grazing a box boundary (closer than 0.05 pt without crossing) are skipped.",
               "Boxes are disjoint and convex with their centre inside or on the boundary.",
               "End distances are straight distances from the points where the curve meets the boxes, smaller than the curve."]

SHAPES = {"r": ([(-10, -6), (10, -6), (10, 6), (-10, 6)], (0, 0)), "rc": ([(0, 0), (22, 0), (22, 11), (0, 11)], (0, 0)),
          "t": ([(-9, -7), (12, -4), (1, 13)], (1.5, 0.5)), "p": ([(-6, -8), (7, -9), (14, 2), (3, 12), (-11, 5)], (2, -1)),
          "d": ([(-3, -3), (3, -3), (3, 3), (-3, 3)], (0.5, 0.25))}
PLACES = [(61, 7), (53, 49), (-4, 71), (-58, 33), (-67, -3), (-41, -55), (5, -63), (57, -37), (37, 3), (-21, -39)]


def edges(p):
    return [(p[i-1], p[i]) for i in range(len(p))]


def sd(p, poly):
    """signed distance to a convex counterclockwise polygon, negative inside"""
    ins = min(((b[0]-a[0])*(p[1]-a[1])-(b[1]-a[1])*(p[0]-a[0]))/math.dist(a, b) for a, b in edges(poly))
    if ins >= 0:
        return -ins
    best = math.inf
    for a, b in edges(poly):
        gx, gy = b[0]-a[0], b[1]-a[1]
        t = max(0, min(1, ((p[0]-a[0])*gx+(p[1]-a[1])*gy)/(gx*gx+gy*gy)))
        best = min(best, math.dist(p, (a[0]+t*gx, a[1]+t*gy)))
    return best


class Grazing(Exception):
    pass


def crossings(f, t0, t1, pieces, n=240):
    """zeros of f between t0 and t1"""
    ts = sorted({t0+(t1-t0)*i/n for i in range(n+1)} | {t for t in pieces if t0 < t < t1})
    v = [f(t) for t in ts]
    out = []
    for i in range(len(ts)-1):
        if v[i] == 0:
            out.append(ts[i])
        elif v[i]*v[i+1] < 0:
            a, b, fa = ts[i], ts[i+1], v[i]
            for _ in range(50):
                m = (a+b)/2
                fm = f(m)
                if fa*fm <= 0:
                    b = m
                else:
                    a, fa = m, fm
            out.append((a+b)/2)
        elif 0 < i and v[i-1]*v[i] > 0 and abs(v[i]) < abs(v[i-1]) and abs(v[i]) <= abs(v[i+1]) and abs(v[i]) < 0.3:
            raise Grazing
    return out


def cut(curve, pieces, p1, p2, dists):
    """parameter range of the connector"""
    a, b = 0.0, 1.0
    c = crossings(lambda t: sd(curve(t), p1), a, b, pieces)
    if c:
        a = c[-1]
    c = [t for t in crossings(lambda t: sd(curve(t), p2), a, b, pieces) if t > a+1e-9]
    if c:
        b = c[0]
    s, e = curve(a), curve(b)
    if dists[0]:
        c = crossings(lambda t: math.dist(curve(t), s)-dists[0], a, b, pieces)
        if not c:
            raise Grazing
        a = c[-1]
    if dists[1]:
        c = crossings(lambda t: math.dist(curve(t), e)-dists[1], a, b, pieces)
        if not c:
            raise Grazing
        b = c[0]
    return a, b


def written(con):
    c = canvas.canvas()
    c.stroke(con)
    f = io.BytesIO()
    document.document([document.page(c)]).writePSfile(f)
    return machines.psmarks(f.getvalue())[0].path


def check(con, curve, pieces, p1, p2, dists):
    try:
        a, b = cut(curve, pieces, p1, p2, dists)
    except Grazing:
        return None
    s, e = curve(a), curve(b)
    got = con.atbegin_pt(), con.atend_pt()
    require(math.dist(got[0], s) < 2e-2, "connector begins at %r instead of %r", got[0], s)
    require(math.dist(got[1], e) < 2e-2, "connector ends at %r instead of %r", got[1], e)
    subs = written(con)
    require(len(subs) == 1 and not subs[0][0], "connector consists of %d subpaths", len(subs))
    if hasattr(curve, "points"):
        ref = [sub(curve.points, a, b)]
    else:
        ts = sorted({a+(b-a)*i/300 for i in range(301)} | {t for t in pieces if a < t < b})
        pts = [curve(t) for t in ts]
        ref = list(zip(pts, pts[1:]))
    r = machines.samepath(subs, [(False, ref)], 6e-4)
    require(r is None, "%s", r)
    # no part inside of a box
    for q in machines.polyline(subs[0][1], 20):
        for p in (p1, p2):
            require(sd(q, p) > -3e-2, "connector passes %r inside of a box", q)
    return [round(v, 2) for v in s+e] + [round(con.arclen_pt(), 1)]


def sub(p, a, b):
    """the part of a Bezier curve between two parameters"""
    def blossom(x, y, z):
        q = p
        for t in (x, y, z):
            q = [((1-t)*u[0]+t*v[0], (1-t)*u[1]+t*v[1]) for u, v in zip(q, q[1:])]
        return q[0]
    return (blossom(a, a, a), blossom(a, a, b), blossom(a, b, b), blossom(b, b, b))


# ------------------------------------------------------------ reference curves
def line(c1, c2):
    return lambda t: (c1[0]+t*(c2[0]-c1[0]), c1[1]+t*(c2[1]-c1[1]))


def arc(c1, c2, bulge):
    """circular arc whose middle is bulge to the left of the line"""
    d = math.dist(c1, c2)
    if abs(bulge) < 1e-9:
        return line(c1, c2)
    tx, ty = (c2[0]-c1[0])/d, (c2[1]-c1[1])/d
    theta = 2*math.atan2(2*bulge, d)         # angle between chord and tangent
    r = d/2/math.sin(theta)

    def f(t):
        # turning right by 2*theta while proceeding
        a = theta*(1-t)
        x = r*(math.sin(theta)-math.sin(theta-2*theta*t))
        y = r*(math.cos(theta-2*theta*t)-math.cos(theta))
        return (c1[0]+x*tx-y*ty, c1[1]+x*ty+y*tx)
    return f


def bezier(c1, c2, a1, a2, arm):
    p = [c1, (c1[0]+arm*math.cos(a1), c1[1]+arm*math.sin(a1)), (c2[0]-arm*math.cos(a2), c2[1]-arm*math.sin(a2)), c2]

    def f(t):
        u = 1-t
        w = (u*u*u, 3*u*u*t, 3*u*t*t, t*t*t)
        return (sum(k*q[0] for k, q in zip(w, p)), sum(k*q[1] for k, q in zip(w, p)))
    f.points = p
    return f


def setup(s1, s2, place):
    p1, c1 = SHAPES[s1]
    p2, c2 = SHAPES[s2]
    p2 = [(x+place[0], y+place[1]) for x, y in p2]
    c2 = (c2[0]+place[0], c2[1]+place[1])
    return p1, tuple(c1), p2, c2, box.polygon_pt(corners=p1, center=tuple(c1)), box.polygon_pt(corners=p2, center=c2)


DISTS = [(0, 0), (3, 0), (0, 2), (4, 1.5)]
ARCS = [("relangle", v) for v in (45, -45, 0, 15, -80, 110, 140)] + [("relbulge", v) for v in (0, 0.3, -0.2, 0.7)] + [("absbulge", v) for v in (8, -13, 45)] + [("both", (5, 0.1)), ("both", (-30, 0.2))]
CURVES = [dict(), dict(relangle1=-30, relangle2=60), dict(relangle1=20, relangle2=-20, relbulge=0.5), dict(absangle1=90, relangle2=10), dict(absangle2=-45, relbulge=0.2),
          dict(absangle1=10, absangle2=200, absbulge=30, relbulge=0.1), dict(relangle1=0, relangle2=0), dict(relangle1=100, relangle2=-120, relbulge=0.8), dict(absbulge=-70, relangle2=-30)]


def gen_line(tier):
    for s1 in SHAPES:
        for s2 in SHAPES:
            for pl in PLACES:
                for d in DISTS:
                    yield ("line", s1, s2, pl, d, None)


def gen_arc(tier):
    for s1 in sorted(SHAPES):
        for s2 in sorted(SHAPES):
            for pl in PLACES:
                for i, a in enumerate(ARCS):
                    for d in (DISTS if tier != "quick" or i == 0 else DISTS[3:] if i == 1 else DISTS[:1]):
                        yield ("arc", s1, s2, pl, d, a)


def gen_curve(tier):
    for s1 in sorted(SHAPES):
        for s2 in sorted(SHAPES):
            for pl in PLACES:
                for i, a in enumerate(CURVES):
                    for d in (DISTS if tier != "quick" or i == 0 else DISTS[3:] if i == 1 else DISTS[:1]):
                        yield ("curve", s1, s2, pl, d, sorted(a.items()))


def run(case):
    kind, s1, s2, pl, d, args = case
    p1, c1, p2, c2, b1, b2 = setup(s1, s2, pl)
    D = math.dist(c1, c2)
    ang = math.atan2(c2[1]-c1[1], c2[0]-c1[0])
    ud = [x*unit.t_pt for x in d]
    keep = [list(b1.corners), b1.center, list(b2.corners), b2.center]
    if kind == "line":
        cons = [connector.line_pt(b1, b2, boxdists=list(d)), connector.line(b1, b2, boxdists=ud)]
        f = line(c1, c2)
    elif kind == "arc":
        n, v = args
        if n == "relangle":
            kw, ukw = dict(relangle=v), dict(relangle=v)
            bulge = D/2*math.tan(math.radians(v)/2)
        elif n == "relbulge":
            kw, ukw = dict(relbulge=v), dict(relbulge=v)
            bulge = v*D
        elif n == "absbulge":
            kw, ukw = dict(absbulge=v), dict(absbulge=v*unit.t_pt)
            bulge = v
        else:
            kw, ukw = dict(absbulge=v[0], relbulge=v[1]), dict(absbulge=v[0]*unit.t_pt, relbulge=v[1])
            bulge = v[0]+v[1]*D
        if abs(bulge) > 1.5*D:
            return None
        f = arc(c1, c2, bulge)
        cons = [connector.arc_pt(b1, b2, boxdists=list(d), **kw), connector.arc(b1, b2, boxdists=ud, **ukw)]
    else:
        kw = dict(args)
        ukw = dict(kw)
        if "absbulge" in ukw:
            ukw["absbulge"] = kw["absbulge"]*unit.t_pt
        a1 = math.radians(kw["absangle1"]) if "absangle1" in kw else ang+math.radians(kw.get("relangle1", 45))
        a2 = math.radians(kw["absangle2"]) if "absangle2" in kw else ang+math.radians(kw.get("relangle2", 45))
        f = bezier(c1, c2, a1, a2, abs(kw.get("relbulge", 0.39)*D+kw.get("absbulge", 0)))
        cons = [connector.curve_pt(b1, b2, boxdists=list(d), **kw), connector.curve(b1, b2, boxdists=ud, **ukw)]
    sig = [check(con, f, [], p1, p2, d) for con in cons]
    if sig[0] is None:
        return None
    require([list(b1.corners), b1.center, list(b2.corners), b2.center] == keep, "connecting changed the boxes")
    return (kind, sig[0])


# ------------------------------------------------------------ two lines
APEX = [(0.5, 0.4), (0.2, 0.7), (1.2, 0.5), (-0.3, 0.6), (0.5, -0.5), (0.8, -0.3), (1.3, -0.9)]
PAIRS = list(itertools.combinations(("a1", "a2", "aM", "l1", "l2"), 2))


def gen_two(tier):
    shapes = sorted(SHAPES)
    for i, (s1, s2) in enumerate(itertools.product(shapes, shapes)):
        for pl in PLACES:
            for ap in APEX:
                for pr in PAIRS:
                    for ab in ((False, True) if "a1" in pr or "a2" in pr else (False,)):
                        for d in ((0, 0), (3, 2)):
                            # the end distances do not depend on the arguments
                            if tier == "quick" and (d[0] and (pr != ("l1", "l2") or ab) or (i+int(pl[0])) % 2):
                                continue
                            yield (s1, s2, pl, ap, pr, ab, d)


def run_two(case):
    s1, s2, pl, ap, pr, ab, d = case
    p1, c1, p2, c2, b1, b2 = setup(s1, s2, pl)
    D = math.dist(c1, c2)
    ang = math.atan2(c2[1]-c1[1], c2[0]-c1[0])
    rx, ry = (c2[0]-c1[0])/D, (c2[1]-c1[1])/D
    # the apex: fraction along, and to the right of, the line between the centres
    M = (c1[0]+ap[0]*D*rx+ap[1]*D*ry, c1[1]+ap[0]*D*ry-ap[1]*D*rx)
    side = 1 if ap[1] > 0 else -1
    l1, l2 = math.dist(c1, M), math.dist(c2, M)
    t1 = math.acos((D*D+l1*l1-l2*l2)/(2*D*l1))
    t2 = math.acos((D*D+l2*l2-l1*l1)/(2*D*l2))
    tM = math.pi-t1-t2
    kw = {}
    for n in pr:
        if n == "a1":
            if ab:
                kw["absangle1"] = math.degrees(math.atan2(M[1]-c1[1], M[0]-c1[0]))
            else:
                kw["relangle1"] = math.degrees(side*t1)
        elif n == "a2":
            if ab:
                kw["absangle2"] = math.degrees(math.atan2(M[1]-c2[1], M[0]-c2[0]))
            else:
                kw["relangle2"] = math.degrees(side*t2)
        elif n == "aM":
            kw["relangleM"] = math.degrees(side*tM)
        elif n == "l1":
            kw["length1"] = l1
        else:
            kw["length2"] = l2
    ukw = {k: (v*unit.t_pt if k.startswith("length") else v) for k, v in kw.items()}
    # all apex positions fulfilling the arguments
    cands = []

    def apex(x, y):
        cands.append((c1[0]+x*rx+y*ry, c1[1]+x*ry-y*rx))
    if set(pr) <= {"a1", "a2", "aM"} or set(pr) in ({"a1", "l1"}, {"a2", "l2"}):
        cands.append(M)
    elif set(pr) == {"l1", "l2"}:
        x, y = l1*math.cos(t1), l1*math.sin(t1)
        apex(x, y)
        apex(x, -y)
    else:
        # side-side-angle: up to two triangles; without an end angle on both sides
        given = l1 if "l1" in pr else l2
        if "aM" in pr:
            r = math.sqrt(max(0, D*D-(given*math.sin(tM))**2))
            others = [given*math.cos(tM)+r, given*math.cos(tM)-r]
            sides = (1, -1)
        else:
            t = t1 if "a1" in pr else t2
            r = math.sqrt(max(0, given*given-(D*math.sin(t))**2))
            others = [D*math.cos(t)+r, D*math.cos(t)-r]
            sides = (side,)
        for o in others:
            if o > 1e-6:
                if "aM" in pr:
                    L1, L2 = (given, o) if "l1" in pr else (o, given)
                elif "a1" in pr:
                    L1, L2 = o, given
                else:
                    L1, L2 = given, o
                cs = (D*D+L1*L1-L2*L2)/(2*D*L1)
                if abs(cs) <= 1+1e-9:
                    a = math.acos(max(-1, min(1, cs)))
                    for sg in sides:
                        apex(L1*math.cos(a), sg*L1*math.sin(a))
    msgs = []
    for con in (connector.twolines_pt(b1, b2, boxdists=list(d), **kw), connector.twolines(b1, b2, boxdists=[x*unit.t_pt for x in d], **ukw)):
        ok = None
        for m in cands:
            la, lb = math.dist(c1, m), math.dist(m, c2)
            k = la/(la+lb)

            def f(t, m=m, k=k):
                return line(c1, m)(t/k) if t < k else line(m, c2)((t-k)/(1-k))
            try:
                ok = check(con, f, [k], p1, p2, d) or ()
                break
            except core.Violation as e:
                msgs.append(str(e))
        require(ok is not None, "two lines with %r: %s", kw, msgs)
    return ok or None


def spaces(tier):
    return [
        Space("line", lambda: gen_line(tier), run, "25 ordered pairs of shapes x 10 placements x 4 end distances"),
        Space("arc", lambda: gen_arc(tier), run, "25 pairs x 10 placements x 14 angles and bulges x end distances"),
        Space("curve", lambda: gen_curve(tier), run, "25 pairs x 10 placements x 9 argument sets x end distances"),
        Space("twolines", lambda: gen_two(tier), run_two, "25 pairs x 10 placements x 7 apex positions x all 10 argument pairs, absolute and relative angles"),
    ]
