"""P34: path deformers keep their defining geometric relation."""
import itertools, math
import numpy
from mc import curves, geom as g, machines
from mc import core
from mc.core import Space
from pyx import canvas, deco, deformer, metapost, normpath, path, style, unit
import pyx.metapost.path as mp

PROPERTY = "P34"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of polylines over an alphabet of turning angles and lengths and of a catalogue of curves, with all deformer parameters on a grid, against independently computed parallels, smoothed corners and springs"
LEVEL_NOTE = "All open and closed polylines of up to three (thorough: four) corners over the alphabet; outcomes are compared as point sets, in order and with tangents, over dense samples of both the path and the deformed path."
RULE = "A case is one path with one deformer; outcomes are the number of kinds of subpath items."
ASSUMPTIONS = ["The parallel is compared with the exact one only where no part of the path is lost as a whole (the parallel of every item survives the trimming at its corners and keeps its distance from all other items); where parts get lost only distances are compared.",
               "The number of points at which curves are compared (32 per item) shows every deviation by more than the tolerance."]


def require(cond, msg, *args):
    if not cond:
        n = msg.count("%s") + msg.count("%d")
        core.require(False, "%s", (msg % args[:n] if n else msg) + "".join(" %s" % (a,) for a in args[n:]))


def pl(*pts, closed=False):
    e = [path.moveto_pt(*pts[0])] + [path.lineto_pt(*p) for p in pts[1:]]
    return path.path(*(e + [path.closepath()] if closed else e))


def subs(np, n=32):
    return curves.polylines([x for x in g.segs(np) if x[1]], n)


def join(lines):
    """segments (A, B) of all polylines"""
    a = [p for l in lines for p in l[:-1]]
    b = [p for l in lines for p in l[1:]]
    return numpy.array(a, float).reshape(-1, 2), numpy.array(b, float).reshape(-1, 2)


def dist(pts, lines):
    """distance of each point to the polylines, and the index of the segment and position therein"""
    A, B = join(lines)
    q = numpy.array(pts, float).reshape(-1, 1, 2)
    d = B - A
    l = (d*d).sum(1)
    t = numpy.clip(((q - A)*d).sum(2)/numpy.where(l > 0, l, 1), 0, 1)
    x = q - A - t[:, :, None]*d
    r = numpy.sqrt((x*x).sum(2))
    i = r.argmin(1)
    k = numpy.arange(len(i))
    return r[k, i], i, t[k, i]


def dense(line, closed=False, n=8):
    """points in between of a polyline"""
    out = []
    for a, b in zip(line, line[1:]):
        out += [((1-k/n)*a[0] + k/n*b[0], (1-k/n)*a[1] + k/n*b[1]) for k in range(n)]
    return out + [line[-1]]


def state(np):
    return [(bool(s.closed), [(type(i).__name__, i.at_pt([0, 0.37, 1])) for i in s.normsubpathitems]) for s in np.normsubpaths]


def deform(d, p, twice=True):
    """deformed path, neither changing the path nor depending on its kind"""
    was = str(p)
    np = p.normpath()
    before = state(np)
    a = d.deform(np)
    require(state(np) == before, "deforming changed the path", type(d).__name__)
    if not twice:
        return np, a
    b = d.deform(p)
    require(str(p) == was, "deforming changed the path", type(d).__name__)
    a, b = a.normpath(), b.normpath()
    require(state(a) == state(b), "deforming a path and its normpath differ", type(d).__name__)
    return np, a


def kinds(np):
    return tuple((bool(s.closed), len(s.normsubpathitems)) for s in np.normsubpaths)


def smooth(np, what, tol=1e-4):
    """continuous position and tangent within each subpath"""
    for s in np.normsubpaths:
        its = s.normsubpathitems
        for a, b in list(zip(its, its[1:])) + ([(its[-1], its[0])] if s.closed else []):
            p, q = a.atend_pt(), b.atbegin_pt()
            require(math.dist(p, q) < 1e-4, "%s is interrupted" % what, p, q)
            u, v = a.rotation([1])[0].apply_pt(1, 0), b.rotation([0])[0].apply_pt(1, 0)
            require(u[0]*v[0] + u[1]*v[1] > 1 - tol, "%s has a corner" % what, p, u, v)


# -------------------------------------------------------------- parallel
def offset(P, closed, d, sharp, margin=0.1):
    """exact parallel as polyline, or None if parts of it get lost"""
    n = len(P)
    m = n if closed else n-1
    e = []
    for i in range(m):
        a, b = P[i], P[(i+1) % n]
        l = math.dist(a, b)
        e.append(((b[0]-a[0])/l, (b[1]-a[1])/l, l))
    cut = [[0.0, x[2]] for x in e]
    corner = {}
    for i in range(m if closed else m-1):
        j = (i+1) % m
        s, c = e[i][0]*e[j][1] - e[i][1]*e[j][0], e[i][0]*e[j][0] + e[i][1]*e[j][1]
        corner[i] = math.atan2(s, c)
        if s*d > 0:
            x = abs(d)*math.tan(abs(corner[i])/2)
            cut[i][1] -= x
            cut[j][0] += x
    if any(abs(w) > 2.85 for w in corner.values()) or any(c[1]-c[0] < margin*abs(d) for c in cut):
        return None
    for i in range(m):  # no corner on another part
        for j in range(n):
            if j not in (i, (i+1) % n):
                x, y = P[j][0]-P[i][0], P[j][1]-P[i][1]
                if 0 <= x*e[i][0]+y*e[i][1] <= e[i][2] and abs(y*e[i][0]-x*e[i][1]) < 0.5:
                    return None
    at = lambda i, t: (P[i][0] + t*e[i][0] - d*e[i][1], P[i][1] + t*e[i][1] + d*e[i][0])
    out = []
    for i in range(m):
        out += [at(i, cut[i][0]), at(i, cut[i][1])]
        if i in corner and corner[i]*d < 0:
            C = P[(i+1) % n]
            if sharp:
                x = abs(d)*math.tan(abs(corner[i])/2)
                out.append(at(i, e[i][2]+x))
            else:
                w = math.atan2(d*e[i][0], -d*e[i][1])
                out += [(C[0] + abs(d)*math.cos(w + corner[i]*k/24), C[1] + abs(d)*math.sin(w + corner[i]*k/24)) for k in range(1, 24)]
    if closed:
        out.append(out[0])
    r = dist(dense(out), [P + [P[0]] if closed else P])[0]
    if r.min() < abs(d)*0.9985 or dist(P, [out])[0].min() < abs(d)*0.9985:
        return None
    return out


def same_line(got, want, closed, tol, what):
    """same curve in the same direction"""
    r = dist(dense(got), [want])
    require(r[0].max() < tol, "%s: a part of the path is not on the parallel" % what, dense(got)[int(r[0].argmax())], float(r[0].max()))
    b = dist(dense(want), [got])
    require(b[0].max() < tol, "%s: a part of the parallel is missing" % what, dense(want)[int(b[0].argmax())], float(b[0].max()))
    A, B = join([want])
    l = numpy.concatenate([[0], numpy.sqrt(((B-A)**2).sum(1)).cumsum()])
    s = l[r[1]] + r[2]*(l[r[1]+1] - l[r[1]])
    step = numpy.diff(s)
    if closed:
        step = (step + l[-1]/2) % l[-1] - l[-1]/2
    require(step.min() > -4*tol, "%s: the path runs backwards" % what, float(step.min()))
    total = step.sum()
    require(abs(total - l[-1]) < 8*tol, "%s: the path is not run through once" % what, float(total), float(l[-1]))
    if not closed:
        require(math.dist(got[0], want[0]) < tol and math.dist(got[-1], want[-1]) < tol, "%s: different end points" % what, got[0], got[-1])


def vertices(case):
    ang, ls, closed = case[:3]
    pts, w = [(0.0, 0.0)], 0.0
    for l, t in zip(ls, (0,) + ang):
        w += math.radians(t)
        pts.append((pts[-1][0] + l*math.cos(w), pts[-1][1] + l*math.sin(w)))
    return pts


def run_polyline(case):
    d, sharp = case[3:]
    P = vertices(case)
    closed = case[2]
    want = offset(P, closed, d, sharp)
    if want is None:
        return None
    np, r = deform(deformer.parallel(d*unit.t_pt, sharpoutercorners=sharp), pl(*P, closed=closed), False)
    require(len(r.normsubpaths) == 1, "the parallel has %d subpaths" % len(r.normsubpaths))
    require(bool(r[0].closed) == closed, "the parallel is %sclosed" % ("" if r[0].closed else "not "))
    same_line(subs(r)[0][1], want, closed, 0.002*abs(d), "parallel")
    return kinds(r)


def gen_polylines(angles, lengths, ds, ks):
    def gen():
        for k in ks:
            for ang in itertools.product(angles, repeat=k):
                for ls in itertools.product(lengths, repeat=k+1):
                    for closed in (False, True)[:2 if k > 1 else 1]:
                        for d in ds:
                            for sharp in (False, True):
                                yield ang, ls, closed, d, sharp
    return gen


# raw parallels: all pieces in full, at any polyline
def run_raw(case):
    d, sharp = case[3:]
    P = vertices(case)
    closed = case[2]
    np, r = deform(deformer.parallel(d*unit.t_pt, sharpoutercorners=sharp, dointersection=False), pl(*P, closed=closed))
    require(len(r.normsubpaths) == 1 and bool(r[0].closed) == closed, "the parallel has other subpaths", kinds(r))
    ends = list(zip(P, P[1:] + P[:1]))[:None if closed else -1]
    its = list(r[0].normsubpathitems)
    pos = 0
    for k, (a, b) in enumerate(ends):
        l = math.dist(a, b)
        n = -(b[1]-a[1])/l*d, (b[0]-a[0])/l*d
        A, B = (a[0]+n[0], a[1]+n[1]), (b[0]+n[0], b[1]+n[1])
        while pos < len(its) and not (math.dist(its[pos].atbegin_pt(), A) < 1e-4 and math.dist(its[pos].atend_pt(), B) < 1e-4):
            require(k > 0, "the parallel does not begin at the begin of the first line", its[pos].atbegin_pt(), A)
            C = a
            q = [its[pos].at_pt([t])[0] for t in (0, .25, .5, .75, 1)]
            corner = [math.dist(x, C) for x in q]
            if not sharp:
                require(max(abs(x-abs(d)) for x in corner) < 0.001*abs(d), "the path around a corner is not an arc", C, corner)
            else:
                require(min(corner) > 0.999*abs(d), "the path around a corner is nearer than the distance", C, corner)
            pos += 1
        require(pos < len(its), "the parallel of a line is missing", a, b)
        pos += 1
    if not closed:
        require(pos == len(its), "the parallel continues after the end")
    for x, y in zip(its, its[1:]):
        require(math.dist(x.atend_pt(), y.atbegin_pt()) < 1e-4, "the parallel is interrupted", x.atend_pt())
    return kinds(r)


# curves
K = 0.5522847498
def cv(*pts): return path.curve_pt(*pts)
def mixed(*els): return path.path(*els)
M, L, C, Z = path.moveto_pt, path.lineto_pt, path.curveto_pt, path.closepath
CAT = {
    "circle": lambda: path.circle_pt(10, 20, 40),
    "circlebig": lambda: path.circle_pt(-10, 0, 171),
    "circler": lambda: path.circle_pt(10, 20, 40).reversed(),
    "ellipse": lambda: path.ellipse_pt(0, 0, 90, 60, 25),
    "arc": lambda: mixed(path.arc_pt(0, 0, 40, 20, 250)),
    "arcn": lambda: mixed(path.arcn_pt(5, 5, 50, 250, 20)),
    "pie": lambda: mixed(M(0, 0), L(80, 0), path.arc_pt(0, 0, 80, 0, 70), Z()),
    "flat": lambda: cv(0, 0, 30, 1, 60, 1, 90, 0),
    "line": lambda: pl((0, 0), (70, 20)),
    "curveline": lambda: cv(0, 0, 20, 10, 40, 20, 80, 40),
    "S": lambda: cv(0, 0, 60, 0, 60, 60, 120, 60),
    "Sback": lambda: cv(120, 60, 60, 60, 60, 0, 0, 0),
    "U": lambda: cv(0, 0, 10, 90, 90, 90, 100, 0),
    "quarter": lambda: mixed(M(60, 0), C(60, 60*K, 60*K, 60, 0, 60)),
    "mix": lambda: mixed(M(0, 0), L(50, 0), C(90, 0, 110, 30, 110, 70), L(70, 100)),
    "mixc": lambda: mixed(M(0, 0), L(60, 0), C(110, 0, 110, 70, 60, 70), L(0, 70), Z()),
    "mixk": lambda: mixed(M(0, 0), C(20, 40, 60, 40, 80, 0), C(90, 40, 130, 50, 160, 10)),
    "heart": lambda: mixed(M(0, 0), C(90, 40, 90, 110, 0, 70), C(-90, 110, -90, 40, 0, 0), Z()),
    "wave": lambda: mixed(M(0, 0), C(30, 50, 40, 50, 70, 0), C(100, -50, 110, -50, 140, 0), C(170, 50, 180, 50, 210, 0)),
    "two": lambda: pl((0, 0), (83, 0), (83, 51.7)) + pl((0, 150), (81, 153), (40, 220), closed=True),
    "three": lambda: mixed(path.arc_pt(0, 0, 40, 20, 160)) + path.circle_pt(200, 0, 60) + pl((0, -90), (90, -90), (120, -150)),
    "empty": lambda: path.path(),
    "triangle": lambda: pl((0, 0), (90, 10), (30, 70), closed=True),
    "ell": lambda: pl((0, 0), (90, 0), (90, 30), (40, 30), (40, 80), (0, 80), closed=True),
    "zigzag": lambda: pl((0, 0), (30, 60), (60, 0), (90, 60), (120, 0)),
    "drop": lambda: mixed(M(0, 0), C(90, 90, -90, 90, 0, 0), Z()),
    "steps": lambda: pl((0, 0), (41, 0), (41, 27), (93, 27), (93, 88)),
}
PAR = ["circle", "circlebig", "circler", "ellipse", "arc", "arcn", "pie", "flat", "line", "curveline", "S", "Sback", "U", "quarter", "mix", "mixc", "mixk", "heart", "wave", "two", "three", "empty", "triangle", "ell", "zigzag", "steps", "drop"]


def run_curve(case):
    name, d, kw = case
    kw = dict(kw)
    p = CAT[name]()
    np, r = deform(deformer.parallel(d*unit.t_pt, **kw), p)
    if not np.normsubpaths:
        require(not r.normsubpaths, "parallel of an empty path")
        return ()
    o = [q for c, q in subs(np, 96)]
    got = [q for c, q in subs(r, 32)] if r.normsubpaths else []
    relerr = kw.get("relerr", 0.05)
    tol = (2*relerr + 0.003)*abs(d)     # the distance is checked in the middle of the items only
    sharp = kw.get("sharpoutercorners", False)
    cut = kw.get("dointersection", True)
    # what has to be there
    curv = []
    for s in np.normsubpaths:
        for it in s.normsubpathitems:
            ts = [k/32 for k in range(33)]
            curv.append((it, ts, it.curvature_pt(ts), it.at_pt(ts), [x.apply_pt(0, 1) for x in it.rotation(ts)]))
    mild = all(d*x < 0.9 for c in curv for x in c[2])
    need = []
    for it, ts, cs, ps, ns in curv:
        for k in range(33):
            if d*cs[k] < 0.9:
                need.append((ps[k][0] + d*ns[k][0], ps[k][1] + d*ns[k][1]))
    far = dist(need, o)[0] if need else []
    lost = [n for n, x in zip(need, far) if x < 0.9985*abs(d)]
    need = [n for n, x in zip(need, far) if x > 0.9985*abs(d)]
    if sharp and lost:
        need = []           # a sharp corner might meet other parts
    if got and need:
        x = dist(need, got)[0]
        require(x.max() < tol, "a part of the parallel is missing", need[int(x.argmax())], float(x.max()))
    else:
        require(not need, "the parallel is missing", len(need))
    if cut or (mild and not lost):
        for s in r.normsubpaths:
            q = numpy.array([p for it in s.normsubpathitems for p in it.at_pt([k/24 for k in range(25)])])
            x, i, t = dist(q, o)
            least = 1 - (2*relerr if mild else 0.2) - 0.003
            require(x.min() > least*abs(d), "the parallel is too near", float(x.min()/abs(d)))
            if not sharp:
                require(x.max() < abs(d) + tol, "the parallel is too far away", float(x.max()/abs(d)))
            # side: at points nearest to the inside of a segment
            A, B = join(o)
            v, w = (B-A)[i], q - A[i] - t[:, None]*(B-A)[i]
            side = (v[:, 0]*w[:, 1] - v[:, 1]*w[:, 0])*d
            inner = (t > 0.01) & (t < 0.99) & (x < abs(d)+tol)
            require(side[inner].size == 0 or side[inner].min() > 0, "the parallel is on the wrong side")
            # direction
            m = numpy.diff(q, axis=0)
            j = i[:-1]
            v = (B-A)/numpy.maximum(numpy.hypot(*(B-A).T), 1e-9)[:, None]
            ok = inner[:-1] & inner[1:] & ((v[j]*v[i[1:]]).sum(1) > 0.5) & (numpy.hypot(m[:, 0], m[:, 1]) > 0.05)
            along = (m*(B-A)[j]).sum(1)[ok]
            require(along.size == 0 or along.min() > 0 or not mild or (sharp and lost), "the parallel runs backwards")
    if mild and not lost:
        # cutting away parts may put the open subpaths in front
        key = [bool(s.closed) for s in np.normsubpaths], [bool(s.closed) for s in r.normsubpaths]
        require(key[0] == key[1] or cut and sorted(key[0]) == sorted(key[1]), "closedness or number of subpaths changed", kinds(r))
        for a, b in zip(np.normsubpaths, r.normsubpaths) if key[0] == key[1] else ():
            x = dist(b.at_pt([0.5]), [q for c, q in subs(normpath.normpath([a]), 96)])[0][0]
            require(x < abs(d)+tol, "the order of the subpaths changed", float(x))
    return (mild, len(lost) > 0) + kinds(r)


def gen_curves(ds, opts):
    def gen():
        for n in PAR:
            for d in ds:
                for kw in opts:
                    yield n, d, tuple(sorted(kw.items()))
    return gen


# ------------------------------------------------------------- smoothed
def kept(s, r):
    """for each item the arc length interval which is kept"""
    out = []
    its = s.normsubpathitems
    for i, it in enumerate(its):
        l = it.arclen_pt(1e-5)
        lo, hi = min(r, l/2), max(l/2, l-r)
        if not s.closed:
            if len(its) == 1:
                lo, hi = 0, l
            elif i == 0:
                lo, hi = 0, max(0, l-r)
            elif i == len(its)-1:
                lo, hi = min(r, l), l
        out.append((it, lo, hi, l))
    return out


def run_smoothed(case):
    p, rad, kw = case[0], case[1], dict(case[2])
    p = CAT[p]() if isinstance(p, str) else pl(*vertices(p), closed=p[2])
    np, r = deform(deformer.smoothed(rad*unit.t_pt, **kw), p)
    require([bool(s.closed) for s in r.normsubpaths] == [bool(s.closed) for s in np.normsubpaths], "closedness or number of subpaths changed", kinds(r))
    for s, t in zip(np.normsubpaths, r.normsubpaths):
        ls = [i.arclen_pt(1e-5) for i in s.normsubpathitems]
        if (not s.closed or min(ls) > 2*kw.get("relskipthres", 0.01)*rad) and max(ls) > 2*len(ls)*kw.get("relskipthres", 0.01)*rad:      # otherwise nothing may be left to be smoothed
            smooth(normpath.normpath([t]), "the smoothed path")
        k = kept(s, rad)
        thres = max(1e-5, kw.get("relskipthres", 0.01)*rad)
        if min(x[3] for x in k) < 2*thres:
            continue        # items may be left out
        new = [q for c, q in subs(normpath.normpath([t]), 96)]
        old = [q for c, q in subs(normpath.normpath([s]), 96)]
        for it, lo, hi, l in k:
            pts = it.at_pt(it.arclentoparam_pt([lo + (hi-lo)*i/8 for i in range(9)], 1e-5))
            x = dist(pts, new)[0]
            require(x.max() < 0.03, "a part outside of the corners is not kept", pts[int(x.argmax())], float(x.max()))
        if not s.closed:
            require(math.dist(s.atbegin_pt(), t.atbegin_pt()) < 1e-4 and math.dist(s.atend_pt(), t.atend_pt()) < 1e-4, "end points changed", t.atbegin_pt(), t.atend_pt())
        # the new parts stay near their corner
        corners = [x[0].atbegin_pt() for x in k] if s.closed else [x[0].atbegin_pt() for x in k[1:]]
        q = [x for l in new for x in l]
        x = dist(q, old)[0]
        for z, u in zip(q, x):
            if u > 0.03:
                require(u < 1.01*rad and min(math.dist(z, c) for c in corners) < 1.01*rad, "a new part is outside of the radius of the corners", z, float(u))
        # the corner itself is left
        if kw.get("softness", 1) and all(type(x[0]).__name__ == "normline_pt" for x in k) and corners:
            lines = len(k)
            require(len(t.normsubpathitems) >= 2*len(corners), "missing curves at corners", kinds(r))
            ar = dist(corners, new)[0]
            for i, c in enumerate(corners):
                a = k[i-1] if s.closed else k[i]
                b = k[i] if s.closed else k[i+1]
                ra, rb = a[3]-a[2], b[1]
                u, v = a[0].rotation([1])[0].apply_pt(1, 0), b[0].rotation([0])[0].apply_pt(1, 0)
                # the curves stay within the triangle of the corner
                e = (-u[0]*ra + v[0]*rb)/2, (-u[1]*ra + v[1]*rb)/2
                require(ar[i] <= math.hypot(*e) + 1e-4, "the corner is cut too much", c, float(ar[i]))
                if u[0]*v[0] + u[1]*v[1] < 0.9 and min(ra, rb) > 1:
                    require(ar[i] > 1e-4, "the corner is not smoothed", c, float(ar[i]))
    return kinds(r)


def run_softness(case):
    """curves at corners of lines: softness moves them away from the corner, zero curvature where they meet the lines"""
    ang, la, lb, rad = case
    P = vertices(((ang,), (la, lb), False))
    last = None
    for k in range(1, 11):
        np, r = deform(deformer.smoothed(rad*unit.t_pt, softness=k/10), pl(*P))
        its = r[0].normsubpathitems
        cs = [i for i in its if type(i).__name__ == "normcurve_pt"]
        require(len(cs) == 2, "a corner between lines consists of %d curves" % len(cs))
        for c, t in ((cs[0], 0), (cs[1], 1)):
            x = c.curvature_pt([t])[0]
            require(abs(x) < 1e-4, "curvature at the end of the curve is not zero", x)
        x, y = cs[0].curvature_pt([1])[0], cs[1].curvature_pt([0])[0]
        if la == lb or rad < min(la, lb):
            require(abs(x-y) < 1e-3*max(abs(x), abs(y)), "curvature not continuous in the middle of the corner", x, y)
        m = math.dist(cs[0].atend_pt(), P[1])
        require(last is None or m > last, "softness does not move the curve away from the corner", m, last)
        last = m
        side = (cs[0].atend_pt()[0]-P[1][0])*math.sin(0) - (cs[0].atend_pt()[1]-P[1][1])
        require(side*ang < 0, "the curve is not at the inside of the corner")
    return len(its)


# -------------------------------------------------------------- cycloid
def run_cycloid(case):
    name, rad, n, sf, sl, cph, sign, turn = case
    p = CAT[name]()
    d = deformer.cycloid(rad*unit.t_pt, halfloops=n, skipfirst=sf*unit.t_pt, skiplast=sl*unit.t_pt, curvesperhloop=cph, sign=sign, turnangle=turn)
    sg = 1 if sign >= 0 else -1
    np, r = deform(d, p, turn == 0)
    require(len(r.normsubpaths) == len(np.normsubpaths), "number of subpaths changed")
    S = math.sin(math.radians(turn))
    out = []
    for s, t in zip(np.normsubpaths, r.normsubpaths):
        total = s.arclen_pt()
        if total <= sf + sl + 2*rad*S:
            require(state(normpath.normpath([t])) == state(normpath.normpath([s])), "a subpath too short for a cycloid changed")
            out.append(None)
            continue
        require(not t.closed, "a cycloid is closed")
        require(math.dist(t.atbegin_pt(), s.at_pt([0])[0]) < 1e-4 + (0 if sf > 1e-5 else 1e-4), "the cycloid does not begin at the path", t.atbegin_pt())
        X = total - sf - sl - 2*rad*S
        line = subs(normpath.normpath([t]), 32)[0][1]
        axis = subs(normpath.normpath([s]), 96)[0][1]
        # points of the turned spring, in order
        pts = []
        at = [sf*k/4 for k in range(4)] if sf else []
        ys = [0]*len(at)
        for k in range(n*cph+1):
            phi = math.pi*k/cph
            z = sf + rad*S*(1-math.cos(phi)) + X*phi/(n*math.pi)
            at.append(z)
            ys.append(sg*rad*math.sin(phi))
        if sl:
            at += [total - sl*(3-k)/4 for k in range(4)]
            ys += [0]*4
        q = s.arclentoparam_pt(at)
        for b, nm, y in zip(s.at_pt(q), s.rotation(q), ys):
            nm = nm.apply_pt(0, 1)
            pts.append((b[0]+y*nm[0], b[1]+y*nm[1]))
        # without skiplast an even number of half loops ends where the last loop started
        require(math.dist(t.atend_pt(), s.atend_pt() if sl else pts[-1]) < 1e-3, "the cycloid does not end at the path", t.atend_pt(), s.atend_pt())
        x, i, u = dist(pts, [line])
        require(x.max() < 0.02 + 0.001*rad, "the cycloid does not run through a point of the spring", pts[int(x.argmax())], int(x.argmax()), float(x.max()))
        # the curves: never outside of the radius
        x = dist(line, [axis])[0]
        bend = max(abs(c) for it in s.normsubpathitems for c in it.curvature_pt([k/32 for k in range(33)])) if name in SMOOTHAXIS else 9
        require(bend*(X/(n*cph))**2 > 0.8*rad or bend*X/(n*cph) > 0.5 or bend*rad > 0.5 or x.max() < rad*1.2 + 0.02, "the cycloid leaves its radius", float(x.max()))
        want = max(abs(math.sin(math.pi*k/cph)) for k in range(cph+1))
        require(name not in SMOOTHAXIS or x.max() > rad*want*0.99 - 0.02, "the cycloid does not reach its radius", float(x.max()))
        # items: in the order of the points of the spring
        its = [c for c in t.normsubpathitems]
        first = [k for k, c in enumerate(its) if math.dist(c.atbegin_pt(), pts[4 if sf else 0]) < 0.02 + 0.001*rad and type(c).__name__ == "normcurve_pt"]
        require(any(all(a+k < len(its) and math.dist(its[a+k].atend_pt(), pts[(5 if sf else 1)+k]) < 0.02 + 0.001*rad for k in range(n*cph)) for a in first), "the points of the spring are not run through in order")
        out.append(len(its))
    return tuple(out)


# --------------------------------------------------------- linesmoothed
def run_lines(case):
    name, tension, atleast, lc, rc = case
    p = CAT[name]() if isinstance(name, str) else pl(*vertices(name), closed=name[2])
    np, r = deform(deformer.linesmoothed(tension=tension, atleast=atleast, lcurl=lc, rcurl=rc), p)
    r = r.normpath()
    require([bool(s.closed) for s in r.normsubpaths] == [bool(s.closed) for s in np.normsubpaths], "closedness or number of subpaths changed", kinds(r))
    if tension != 1 and not atleast or not r.normsubpaths:
        pass
    smooth(r, "the smoothed path")
    for s, t in zip(np.normsubpaths, r.normsubpaths):
        P = [i.atbegin_pt() for i in s.normsubpathitems] + [s.atend_pt()]
        Q = [i.atbegin_pt() for i in t.normsubpathitems] + [t.atend_pt()]
        require(len(P) == len(Q) and all(math.dist(a, b) < 1e-4 for a, b in zip(P, Q)), "the smoothed path does not run through the points", P, Q)
        T = -abs(tension) if atleast else abs(tension)
        knots = []
        for k, (x, y) in enumerate(P[:-1] if s.closed else P):
            if k:
                knots.append(mp.tensioncurve(T))
            if s.closed or 0 < k < len(P)-1:
                knots.append(mp.smoothknot_pt(x, y))
                continue
            cls, c, item, at = (mp.beginknot_pt, lc, s.normsubpathitems[0], 0) if k == 0 else (mp.endknot_pt, rc, s.normsubpathitems[-1], 1)
            if c is None:
                u = item.rotation([at])[0].apply_pt(1, 0)
                v = (t.normsubpathitems[0] if k == 0 else t.normsubpathitems[-1]).rotation([at])[0].apply_pt(1, 0)
                require(u[0]*v[0]+u[1]*v[1] > 1-1e-6, "the direction at an end is not the one of the path", u, v)
                knots.append(cls(x, y, angle=math.atan2(u[1], u[0])))
            else:
                knots.append(cls(x, y, curl=c))
        if s.closed:
            knots.append(mp.tensioncurve(T))
        w = mp.path(knots).normpath()
        for a, b in zip(w[0].normsubpathitems, t.normsubpathitems):
            for x in (.25, .5, .75):
                require(math.dist(a.at_pt([x])[0], b.at_pt([x])[0]) < 1e-4, "not the METAPOST path of the points", a.at_pt([x]), b.at_pt([x]))
    return kinds(r)


# ------------------------------------------------------------- attributes
PARAMS = {
    "cycloid": (dict(radius=4*unit.t_pt), dict(radius=6*unit.t_pt, halfloops=4, skipfirst=5*unit.t_pt, skiplast=8*unit.t_pt, curvesperhloop=4, sign=-1, turnangle=20)),
    "smoothed": (dict(radius=9*unit.t_pt), dict(radius=14*unit.t_pt, softness=0.4, obeycurv=1, relskipthres=0.3)),
    "parallel": (dict(distance=5*unit.t_pt), dict(distance=-8*unit.t_pt, relerr=0.01, sharpoutercorners=True, dointersection=False, checkdistanceparams=[0.2, 0.7], lookforcurvatures=7, searchstep=0.02)),
    "linesmoothed": (dict(), dict(tension=1.5, atleast=True, lcurl=0.2, rcurl=2)),
}
DRAWN = ["mix", "steps", "two", "ell", "U"]


def run_call(case):
    """calling a deformer modifies the given parameters only"""
    cls, names, shape = case
    base, other = PARAMS[cls]
    make = getattr(deformer, cls)
    if cls == "cycloid":
        base = dict(base, skipfirst=3*unit.t_pt, skiplast=2*unit.t_pt)
    a = make(**base)
    kw = {n: other[n] for n in names}
    p = CAT[shape]()
    before = state(a.deform(p).normpath())
    b = a(**kw)
    require(state(a.deform(p).normpath()) == before, "calling a deformer changed it", cls, names)
    full = dict(base)
    full.update(kw)
    want = state(make(**full).deform(p).normpath())
    require(state(b.deform(p).normpath()) == want, "called deformer differs from one with the same parameters", cls, names)
    # calling again keeps the modified parameters
    require(state(b().deform(p).normpath()) == want, "called deformer loses its parameters", cls, names)
    return len(names), want != before


def gen_call():
    for cls, (base, other) in PARAMS.items():
        keys = sorted(other)
        for k in range(0, min(3, len(keys))+1):
            for names in itertools.combinations(keys, k):
                if cls == "linesmoothed" and "atleast" in names and "tension" not in names:
                    continue
                for s in DRAWN[:3]:
                    yield cls, names, s


def DEF(n):
    return {"c": deformer.cycloid(4*unit.t_pt, halfloops=6, skipfirst=3*unit.t_pt, skiplast=2*unit.t_pt),
            "s": deformer.smoothed(12*unit.t_pt), "p": deformer.parallel(5*unit.t_pt), "l": deformer.linesmoothed(),
            "C": deformer.cycloid.clear, "S": deformer.smoothed.clear, "P": deformer.parallel.clear, "L": deformer.linesmoothed.clear,
            "q": deformer.parallel(-7*unit.t_pt)}[n]


def run_attr(case):
    """as attributes deformers apply in sequence; clear removes those of the class"""
    op, names, shape, order = case
    c, d = canvas.canvas(), canvas.canvas()
    eff = []
    for n in names:
        if n.isupper():
            drop = {"C": "c", "S": "s", "P": "pq", "L": "l"}[n]
            eff = [x for x in eff if x not in drop]
        else:
            eff.append(n)
    p = CAT[shape]()
    q = p
    for n in eff:
        q = DEF(n).deform(q).normpath()
    at = [DEF(n) for n in names]
    rest = [style.linewidth.THICK]
    if op == "deco":
        rest = [deco.stroked([style.linewidth.THICK]), deco.earrow.large]
    attrs = {0: at+rest, 1: rest+at, 2: at[:1]+rest+at[1:]}[order]
    was = list(attrs)
    {"stroke": c.stroke, "fill": c.fill, "deco": c.draw, "draw": c.stroke}[op](p, attrs if op != "fill" else at)
    require(attrs == was, "the attribute list was changed")
    {"stroke": d.stroke, "fill": d.fill, "deco": d.draw, "draw": d.stroke}[op](q, rest if op != "fill" else [])
    a, b = machines.psmarks(eps(c)), machines.psmarks(eps(d))
    x = machines.samemarks(a, b)
    require(not x, "drawing with deformers differs from drawing the deformed path: %s", x, eff)
    return len(a), len(eff)


def eps(c):
    import io
    f = io.BytesIO()
    c.writeEPSfile(f)
    return f.getvalue()


def gen_attr():
    for op in ("stroke", "fill", "deco"):
        for k in (0, 1, 2):
            for names in itertools.product("cspqlCSP", repeat=k):
                for s in DRAWN[:3]:
                    for order in (0, 1, 2) if op == "stroke" else (0,):
                        yield op, names, s, order
        for names in itertools.product("spSP", repeat=3):
            yield op, names, "steps", 0


def spaces(tier):
    T = tier == "thorough"
    A = (29, -29, 71, -71, 128, -128)
    out = [
        Space("parallel of polylines", gen_polylines(A, (41, 90), (7, -7, 19, -19), (1, 2)), run_polyline, bounds="1-2 corners, 6 angles, 2 lengths, open and closed, 4 distances, round and sharp"),
        Space("parallel of longer polylines", gen_polylines(A if T else (37, -62, 101), (41, 90), (7, -7, 19, -19) if T else (6, -13), (3,)), run_polyline, bounds="3 corners, 6 angles, 4 distances (quick: 3 angles, 2 distances)"),
        Space("uncut parallel of polylines", gen_polylines(A, (41, 90), (7, -19), (1, 2)), run_raw, bounds="1-2 corners, 6 angles, 2 lengths, open and closed, also crossing itself"),
        Space("parallel of curves", gen_curves((2, -2, 5, -5, 13, -13, 22, -22) + ((1, -1, 9, -9, 17, -17, 31, -31) if T else ()),
              [{}, dict(sharpoutercorners=True), dict(dointersection=False), dict(relerr=0.01), dict(relerr=0.005, checkdistanceparams=[0.25, 0.5, 0.75]), dict(lookforcurvatures=21)]), run_curve, bounds="%d paths, 8 distances (thorough 16), 6 options" % len(PAR)),
        Space("distance zero", lambda: ((n, d, ()) for n in PAR for d in (0, 1e-6, -1e-6)), run_zero, bounds="all paths"),
        Space("smoothed", lambda: ((n, r, tuple(sorted(kw.items()))) for n in CAT for r in ((3, 11, 27, 40, 90) if not T else (1, 3, 7, 11, 19, 27, 40, 60, 90)) for kw in SM), run_smoothed, bounds="%d paths, 5 (9) radii, %d options" % (len(CAT), len(SM))),
        Space("smoothed polylines", lambda: (((ang, ls, cl), r, tuple(sorted(kw.items()))) for k in ((1, 2, 3) if T else (1, 2)) for ang in itertools.product((29, -71, 128, -151), repeat=k) for ls in itertools.product((0.5, 23, 61), repeat=k+1) for cl in (False, True)[:k] for r in (5, 17, 44) for kw in SM[:3]), run_smoothed, bounds="1-2 (thorough 3) corners, 4 angles, 3 lengths, 3 radii, 3 options"),
        Space("softness", lambda: ((a, la, lb, r) for a in (10, 29, 71, 90, 128, 151, 170, -10, -45, -90, -140, -170) for la in (20, 55) for lb in (20, 55, 80) for r in (4, 15, 19)), run_softness, bounds="12 angles, 6 pairs of lengths, 3 radii, 10 values of softness"),
        Space("cycloid", lambda: ((n, r, hl, sf, sl, cph, sg, tu) for n in CYC for r in (3, 8) for hl in ((1, 2, 5, 10) if T else (1, 2, 5)) for sf, sl in ((0, 0), (7, 0), (0, 11), (6, 13)) for cph in (2, 3, 4) for sg in (1, -1) for tu in ((0, 20, 45, 70) if T else (0, 45, 70)))
              , run_cycloid, bounds="%d paths, 2 radii, 3 (4) numbers of halfloops, skips, 2-4 curves, both signs, 3 (4) angles" % len(CYC)),
        Space("cycloid signs and short paths", lambda: ((n, r, 3, sf, sl, 3, sg, tu) for n in ("line", "S", "two", "three", "circle") for r in (2, 20, 60) for sf, sl in ((0, 0), (30, 30), (100, 0), (0, 100)) for sg in (0, 5, -0.1) for tu in (0, 45, 90)), run_cycloid, bounds="5 paths with cycloids around the length of the path"),
        Space("linesmoothed", lambda: ((n, t, al, lc, rc) for n in [x for x in CAT if x not in ("empty", "drop")] + [(ang, ls, cl) for ang in itertools.product((29, -71, 128), repeat=2) for ls in ((41, 90, 41), (90, 41, 60)) for cl in (False, True)] for t in (1, 0.8, 2) for al in (False, True) for lc, rc in ((1, 1), (0, 2), (None, 1), (1, None), (None, None))), run_lines, bounds="catalogue and polylines, 3 tensions, atleast, 5 combinations of curl"),
        Space("calls", gen_call, run_call, bounds="up to three parameters modified, 3 paths"),
        Space("attributes", gen_attr, run_attr, bounds="up to two (three of one kind) deformers and clear attributes, three drawing operations"),
    ]
    return out


SM = [{}, dict(softness=0.3), dict(relskipthres=0.5), dict(obeycurv=1), dict(obeycurv=1, relskipthres=0)]
SMOOTHAXIS = ["line", "arc", "arcn", "S", "U", "circlebig", "flat", "curveline", "circle"]
CYC = ["line", "arc", "arcn", "S", "U", "mix", "steps", "circlebig", "two", "flat"]


def run_zero(case):
    name, d, kw = case
    np, r = deform(deformer.parallel(d*unit.t_pt), CAT[name]())
    require(kinds(r) == kinds(np), "the parallel at distance zero has other subpaths", kinds(r))
    if np.normsubpaths:
        same = max(dist(q, [w])[0].max() for (c, q), (e, w) in zip(subs(r), subs(np)))
        require(same < 1e-4, "the parallel at distance zero is another path", same)
    return kinds(r)
