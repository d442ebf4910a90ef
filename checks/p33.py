"""P33: MetaPost-style paths satisfy the MetaPost curve equations."""
import itertools, math, os, re, shutil, subprocess, tempfile
import numpy
from mc import core, geom as g
from mc.core import Space, require, TRACE
from pyx import unit
from pyx.metapost import path as mp

PROPERTY = "P33"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of knot and link lists; every path is compared with an independent solver of the mock curvature equations (dense linear system) and the solver and PyX with the MetaPost program itself"
LEVEL_NOTE = "All lists of knots and links up to the stated length over the stated alphabets, open, closed and several subpaths."
RULE = "A case is a list of knots and links; states are the resolved breakpoint structures of the lists (kinds of the sides of all knots)."
ASSUMPTIONS = ["MetaPost is run with its scaled numbers, as its curl ratio is wrong for some unequal tensions in the other number systems; the PyX default accuracy (epsilon) is used."]

# specifications: knots are (kind, point, left, right), sides None (smooth), ("curl", c), ("dir", degrees)
# links are ("curve", lt, rt) with negative tensions for atleast, ("line",), ("keep",), ("ctrl", (x, y), (x, y))
B, E, K, R = "BEKR"


def build(elems, pts=True):
    out = []
    for e in elems:
        if e[0] in (B, E, K, R):
            kind, (x, y), l, r = e
            rad = math.radians
            kw = {}
            if pts:
                cls = {B: mp.beginknot_pt, E: mp.endknot_pt, K: mp.smoothknot_pt, R: mp.roughknot_pt}[kind]
                ang = math.radians
            else:
                cls = {B: mp.startknot, E: mp.endknot, K: mp.knot, R: mp.roughknot}[kind]
                ang = lambda v: v
                x, y = x*unit.t_pt, y*unit.t_pt
            if kind in (B, E):
                s = r if kind == B else l
                if s[0] == "dir":
                    kw["angle"] = ang(s[1])
                elif s[1] != 1:
                    kw["curl"] = s[1]
            elif kind == R:
                for n, s in (("l", l), ("r", r)):
                    if s is not None:
                        kw[n+("curl" if s[0] == "curl" else "angle")] = s[1] if s[0] == "curl" else ang(s[1])
            out.append(cls(x, y, **kw))
        elif e[0] == "curve":
            kw = {}
            a, b = e[1:]
            kw["ltension"] = abs(a)
            if a < 0:
                kw["latleast"] = True
            if abs(b) != abs(a):
                kw["rtension"] = abs(b)
            if (b < 0) != (a < 0):
                kw["ratleast"] = b < 0
            out.append((mp.tensioncurve if pts else mp.curve)(**kw))
        elif e[0] == "line":
            out.append(mp.line())
        elif e[0] == "keep":
            out.append(mp.line(keepangles=True))
        elif pts:
            out.append(mp.controlcurve_pt(*e[1:]))
        else:
            out.append(mp.controlcurve(*[(x*unit.t_pt, y*unit.t_pt) for x, y in e[1:]]))
    return out


def parts(elems):
    """subpaths: (closed, knots [(point, left, right)], links)"""
    out = []
    cur = None
    for e in elems:
        if e[0] in (B, E, K, R):
            kind, p, l, r = e
            if kind == R and r is None:
                r = l
            if cur is None or cur[2] is not None and len(cur[2]) < len(cur[1]):
                cur = [False, [], []]
                out.append(cur)
            cur[1].append([p, l, r])
        else:
            cur[2].append(e)
    for sub in out:
        sub[0] = len(sub[2]) == len(sub[1])
    return out


def resolve(closed, knots, links):
    """sides of all knots as seen by the curves"""
    knots = [list(k) for k in knots]
    n = len(knots)
    for i, l in enumerate(links):
        a, b = knots[i], knots[(i+1) % n]
        if l[0] in ("line", "keep"):
            ang = ("dir", math.degrees(math.atan2(b[0][1]-a[0][1], b[0][0]-a[0][0])))
            for k, side in ((a, 1), (b, 2)):
                if l[0] == "keep":
                    k[side] = ang
                elif k[side] is None:
                    k[side] = ("curl", 1)
    for i, l in enumerate(links):
        a, b = knots[i], knots[(i+1) % n]
        if l[0] == "ctrl":
            for k, side, c in ((a, 2, l[1]), (b, 1, l[2])):
                if k[3-side] is None:
                    d = (c[0]-k[0][0], c[1]-k[0][1]) if side == 2 else (k[0][0]-c[0], k[0][1]-c[1])
                    k[3-side] = ("dir", math.degrees(math.atan2(d[1], d[0]))) if math.hypot(*d) > 1e-5 else ("curl", 1)
                k[side] = "explicit"
        elif l[0] in ("line", "keep"):
            a[2] = b[1] = "explicit"
        elif math.dist(a[0], b[0]) < 1e-5:
            a[2] = b[1] = "explicit"
            a[1] = a[1] or ("curl", 1)
            b[2] = b[2] or ("curl", 1)
    return knots


def velocity(th, ph, t):
    st, ct, sf, cf = math.sin(th), math.cos(th), math.sin(ph), math.cos(ph)
    num = 2+math.sqrt(2)*(st-sf/16)*(sf-st/16)*(ct-cf)
    den = 3*(1+(math.sqrt(5)-1)*ct/2+(3-math.sqrt(5))*cf/2)*t
    return 4 if num >= 4*den else num/den


def curlratio(c, t0, t1):
    a, b = 1/t0, 1/t1
    return min(4, ((3-a)*a*a*c+b**3)/(a**3*c+(3-b)*b*b))


def solve(zs, ts, first, last):
    """angles (theta, phi) of the curves between zs; first and last are None for a cycle, where zs ends by its first knot"""
    n = len(zs)-1
    d = [zs[k+1]-zs[k] for k in range(n)]
    norm = lambda x: (x+math.pi) % (2*math.pi)-math.pi
    arg = lambda z: math.atan2(z.imag, z.real)
    cyc = first is None
    psi = [None]*(n+1)
    for k in range(1, n):
        psi[k] = arg(d[k]/d[k-1])
    psi[0] = psi[n] = arg(d[0]/d[-1]) if cyc else 0
    if not cyc and n == 1:
        if first[0] == last[0] == "curl":
            return [(0, 0)]
    # unknowns: theta_0 ... theta_n; phi_k = -psi_k-theta_k
    m = numpy.zeros((n+1, n+1))
    v = numpy.zeros(n+1)
    al = [1/abs(t[0]) for t in ts]      # reciprocal tensions behind the knot
    be = [1/abs(t[1]) for t in ts]      # and before the next knot
    for k in range(0 if cyc else 1, n):
        # be^-2/d (al (theta'+phi)-3 phi) = al^-2/d (be (theta+phi')-3 theta)
        j = k-1 if k else n-1
        l, r = 1/(be[j]**2*abs(d[j])), 1/(al[k]**2*abs(d[k]))
        p, q = (j, k+1)
        m[k, p] += l*al[j]
        m[k, k] += -l*(al[j]-3)+3*r
        v[k] += l*(al[j]-3)*psi[k]
        m[k, k] -= r*be[k]
        m[k, q] += r*be[k]
        v[k] -= r*be[k]*psi[q]
    if cyc:
        m[n, 0], m[n, n] = 1, -1
    else:
        if first[0] == "dir":
            m[0, 0] = 1
            v[0] = norm(math.radians(first[1])-arg(d[0]))
        else:
            # theta_0 = -ratio*... so that the mock curvatures have the ratio of the curl
            c = curlratio(first[1], 1/al[0], 1/be[0])
            # theta_0 = c*phi_1
            m[0, 0] = 1
            m[0, 1] += c
            v[0] = -c*psi[1]
        if last[0] == "dir":
            m[n, n] = 1
            v[n] = norm(math.radians(last[1])-arg(d[-1]))
        else:
            c = curlratio(last[1], 1/be[-1], 1/al[-1])
            # phi_n = -theta_n = c*theta_{n-1}
            m[n, n] = 1
            m[n, n-1] += c
    th = numpy.linalg.solve(m, v)
    return [(th[k], -psi[k+1]-th[k+1]) for k in range(n)]


def reference(elems):
    """list of (closed, items), items being 2 or 4 points"""
    out = []
    for closed, knots, links in parts(elems):
        rk = resolve(closed, knots, links)
        n = len(rk)
        TRACE.visit((closed, tuple((("s" if isinstance(s, tuple) else str(s)) if not isinstance(s, tuple) else s[0]) for k in rk for s in k[1:]), tuple(l[0] for l in links)))
        items = [None]*len(links)
        z = lambda i: complex(*rk[i % n][0])
        for i, l in enumerate(links):
            a, b = rk[i][0], rk[(i+1) % n][0]
            if l[0] in ("line", "keep"):
                items[i] = (a, b)
            elif l[0] == "ctrl":
                items[i] = (a, l[1], l[2], b)
            elif math.dist(a, b) < 1e-5:
                items[i] = (a, a, a, b)
        smooth = [k[1] is None and k[2] is None for k in rk]

        def fill(i, j, first, last):
            ts = [links[k % n][1:] for k in range(i, j)]
            zs = [z(k) for k in range(i, j+1)]
            for k, (th, ph) in enumerate(solve(zs, ts, first, last)):
                d = zs[k+1]-zs[k]
                rho, sig = velocity(th, ph, abs(ts[k][0])), velocity(ph, th, abs(ts[k][1]))
                st, sf, s = math.sin(th), math.sin(ph), math.sin(th+ph)
                if st*sf >= 0:
                    s = (abs(st)*math.cos(ph)+abs(sf)*math.cos(th))*(1+2**-12)
                    if s > 0:
                        if ts[k][0] < 0:
                            rho = min(rho, abs(sf)/s)
                        if ts[k][1] < 0:
                            sig = min(sig, abs(st)/s)
                c1 = zs[k]+d*rho*complex(math.cos(th), st)
                c2 = zs[k+1]-d*sig*complex(math.cos(ph), -sf)
                items[(i+k) % n] = tuple((w.real, w.imag) for w in (zs[k], c1, c2, zs[k+1]))
        i0 = 0
        if closed:
            brk = [i for i in range(n) if not smooth[i]]
            if not brk:
                fill(0, n, None, None)
            else:
                i0 = brk[0]
        i = i0
        while i < i0+len(links):
            if items[i % n] is None:
                j = i+1
                while smooth[j % n]:
                    j += 1
                fill(i, j, rk[i % n][2], rk[j % n][1])
                i = j
            else:
                i += 1
        out.append((closed, items))
    return out


def pathof(p):
    """the same from the path"""
    if len(p.pathitems) == 2 and hasattr(p.pathitems[1], "x3_pt"):
        # a single curve is taken as is, since curves along a line are split when going back
        a, b = p.pathitems
        return [(False, [tuple((float(x), float(y)) for x, y in ((a.x_pt, a.y_pt), (b.x1_pt, b.y1_pt), (b.x2_pt, b.y2_pt), (b.x3_pt, b.y3_pt)))])]
    return [(c, [tuple(tuple(map(float, x)) for x in s) for s in l]) for c, l in g.segs(p.normpath(1e-7))]


def compare(got, want, what="", tol=2e-4):
    def clean(l, closed):
        l = [s for s in l if max(math.dist(s[0], q) for q in s) > 1e-4]
        return l
    got, want = [(c, clean(l, c)) for c, l in got if l], [(c, clean(l, c)) for c, l in want if l]
    require(len(got) == len(want), "%s%d subpaths instead of %d", what, len(got), len(want))
    for (c, l), (d, m) in zip(got, want):
        require(bool(c) == bool(d), "%sclosed is %r", what, c)
        require(len(l) == len(m), "%s%d pieces instead of %d", what, len(l), len(m))
        for s, t in zip(l, m):
            if len(s) != len(t):
                s, t = [x if len(x) == 4 else (x[0], tuple((2*u+v)/3 for u, v in zip(x[0], x[1])), tuple((u+2*v)/3 for u, v in zip(x[0], x[1])), x[1]) for x in (s, t)]
            size = max(1, max(math.dist(t[0], q) for q in t))
            require(all(math.dist(x, y) < tol*size for x, y in zip(s, t)), "%spiece %r instead of %r", what, [tuple(round(v, 4) for v in x) for x in s], [tuple(round(v, 4) for v in x) for x in t])


def metapost(elems):
    """MetaPost expressions of the subpaths"""
    out = []
    side = lambda s: "{curl %.7g}" % s[1] if s[0] == "curl" else "{dir %.7g}" % s[1]
    ten = lambda t: ("atleast " if t < 0 else "")+"%.7g" % abs(t)
    for closed, knots, links in parts(elems):
        rk = resolve(closed, knots, links)
        s = ""
        n = len(rk)
        for i in range(n+1 if closed else n):
            k = rk[i % n]
            if i and isinstance(k[1], tuple) and links[i-1][0] == "curve":
                s += side(k[1])
            s += "(%.7g,%.7g)" % tuple(k[0]) if i < n else "cycle"
            if i < len(links):
                if links[i][0] == "curve":
                    if isinstance(k[2], tuple):
                        s += side(k[2])
                    s += "..tension %s and %s.." % (ten(links[i][1]), ten(links[i][2]))
                elif links[i][0] == "ctrl":
                    s += "..controls (%.7g,%.7g) and (%.7g,%.7g).." % (links[i][1]+links[i][2])
                else:
                    a, b = k[0], rk[(i+1) % n][0]
                    s += "..controls (%.7g,%.7g) and (%.7g,%.7g).." % ((2*a[0]+b[0])/3, (2*a[1]+b[1])/3, (a[0]+2*b[0])/3, (a[1]+2*b[1])/3)
        out.append(s)
    return out


def runmetapost(exprs):
    d = tempfile.mkdtemp(prefix="p33")
    try:
        with open(d+"/a.mp", "w") as f:
            f.write("\n".join("show %s;" % e for e in exprs)+"\nend\n")
        env = dict(os.environ, max_print_line="100000", TEXMFOUTPUT=d)
        subprocess.run(["mpost", "-numbersystem=scaled", "-interaction=nonstopmode", "a.mp"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        with open(d+"/a.log", encoding="latin1") as f:
            log = f.read()
    finally:
        shutil.rmtree(d)
    out = []
    for part in log.split(">> Path at line")[1:]:
        part = part.split(":", 1)[1].split("\n\n")[0].replace("\n", "")
        part = re.sub(r"\s+", "", part)
        closed = part.endswith("cycle")
        num = r"\((-?[\d.e+-]+),(-?[\d.e+-]+)\)"
        first = re.match(num, part)
        z0 = z = tuple(map(float, first.groups()))
        items = []
        for m in re.finditer(r"\.\.controls"+num+"and"+num+r"\.\.(?:"+num+"|cycle)", part):
            v = [None if x is None else float(x) for x in m.groups()]
            e = (v[4], v[5]) if v[4] is not None else z0
            items.append((z, (v[0], v[1]), (v[2], v[3]), e))
            z = e
        out.append((closed, items))
    return out


# points, avoiding exactly opposite directions
PTS = [[(0, 0), (50, 13), (61, 60), (17, 81), (-20, 35)],
       [(0, 0), (40, 70), (-30, 44), (60, 20), (5, -60)],
       [(0, 0), (100, 1), (103, 40), (90, 33), (40, 200)],
       [(0, 0), (30, 10), (30, 10), (71, 62), (3, 44)],
       [(0, 0), (10, 0), (20, 0), (30, 0), (47, 31)]]


def enumerate_lists(tier):
    thorough = tier == "thorough"
    ends = [("curl", 1), ("curl", 0), ("curl", 30), ("dir", 77), ("dir", -160)]
    inner = [None, (("curl", 1), None), (("curl", 2.5), ("curl", .5)), (("dir", 40), None), (("dir", 120), ("curl", 3)), (("dir", -30), ("dir", 200)), (None, ("dir", 15))]
    links = [("curve", 1, 1), ("curve", 2, .8), ("curve", -1, -1), ("curve", -1.2, 1), ("curve", 4, -.75), ("line",), ("keep",), ("ctrl", (7, 9), (33, -4))]

    def knot(i, spec, pts):
        if spec is None:
            return (K, pts[i], None, None)
        l, r = spec
        return (R, pts[i], l or ("curl", 1), r if r is not None else (l or ("curl", 1)))
    for pi, pts in enumerate(PTS):
        # open paths
        for a, b in itertools.product(ends, repeat=2):
            for l in links:
                yield [(B, pts[0], None, a), l, (E, pts[1], b, None)]
        if pi == 4:
            # leaving and arriving exactly forwards and backwards
            for a, b in itertools.product((0, 90, 180), repeat=2):
                for l in links[:4]:
                    yield [(B, pts[0], None, ("dir", a)), l, (E, pts[1], ("dir", b), None)]
        for a, b in [(ends[0], ends[0]), (ends[3], ends[1]), (ends[2], ends[4])]:
            for k in inner:
                for l1, l2 in itertools.product(links, repeat=2):
                    yield [(B, pts[0], None, a), l1, knot(1, k, pts), l2, (E, pts[2], b, None)]
        for k1, k2 in itertools.product(inner, repeat=2):
            for l3 in itertools.product(links if thorough else [links[0], links[1], links[4], links[5], links[6], links[7]] if k1 is None or k2 is None else [links[0], links[3], links[7]], repeat=3):
                yield [(B, pts[0], None, ends[0]), l3[0], knot(1, k1, pts), l3[1], knot(2, k2, pts), l3[2], (E, pts[3], ends[1+len(l3[0]) % 4], None)]
        for ls in itertools.product(links[:2]+links[3:4] if not thorough else links[:5], repeat=4):
            yield [(B, pts[0], None, ends[1]), ls[0], (K, pts[1], None, None), ls[1], (K, pts[2], None, None), ls[2], (K, pts[3], None, None), ls[3], (E, pts[4], ends[3], None)]
        # closed paths
        for k1, k2 in itertools.product(inner, repeat=2):
            for l1, l2 in itertools.product(links, repeat=2):
                if pi != 4 or k1 is not None or k2 is not None:
                    yield [knot(0, k1, pts), l1, knot(1, k2, pts), l2]
        for ks in itertools.product(inner if thorough else inner[:2]+inner[3:6:2], repeat=3):
            for ls in itertools.product(links if ks.count(None) > 1 else [links[0], links[4], links[5], links[7]], repeat=3):
                yield [knot(0, ks[0], pts), ls[0], knot(1, ks[1], pts), ls[1], knot(3, ks[2], pts), ls[2]]
        for ls in itertools.product(links[:4], repeat=5 if thorough else 4):
            yield [e for i, l in enumerate(ls) for e in ((K, pts[i], None, None), l)]
        # several subpaths
        for l1, l2 in itertools.product(links, repeat=2):
            yield [(B, pts[0], None, ends[0]), l1, (K, pts[1], None, None), l2, (E, pts[3], ends[3], None), (B, pts[2], None, ends[1]), l2, (E, pts[4], ends[2], None)]


def canonical(elems):
    """right side of a rough knot by default the one of the left side"""
    out = []
    for e in elems:
        if e[0] == R and e[2] == e[3]:
            e = (R, e[1], e[2], None)
        out.append(e)
    return out


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def regular(elems):
    """no ambiguous turning by 180 degrees"""
    for closed, knots, links in parts(elems):
        n = len(knots)
        for i in range(len(links)):
            if math.dist(knots[i][0], knots[(i+1) % n][0]) < 1e-6 and links[i][0] in ("line", "keep"):
                return False
        for i in range(n if closed else n-1):
            if i or closed:
                a, b, c = (complex(*knots[(i+j) % n][0]) for j in (-1, 0, 1))
                if abs(b-a) and abs(c-b):
                    q = (c-b)/(b-a)
                    if q.real < 0 and abs(q.imag) < 1e-9*abs(q):
                        return False
    return True


def space_equations(tier):
    def gen():
        for e in enumerate_lists(tier):
            yield tup(e)

    def run(case):
        elems = tup(case)
        if not regular(elems):
            return None
        want = reference(elems)
        compare(pathof(mp.path(build(canonical(elems)))), want)
        # lengths and degrees instead of pts and radians
        if len(elems) < 6:
            compare(pathof(mp.path(build(elems, False))), want, "with lengths: ")
        return tuple((c, tuple(tuple(round(v, 3) for q in s for v in q) for s in l)) for c, l in want)
    return Space("equations", gen, run, "all lists of up to four knots over %d point sets, five kinds of ends, seven of inner knots and eight of links" % len(PTS))


def space_metapost(tier):
    def gen():
        batch = []
        for n, e in enumerate(enumerate_lists(tier)):
            # MetaPost's choice for exactly backwards directions depends on rounding
            if regular(tup(e)) and not any(x == ("dir", 180) for k in tup(e) for x in k):
                batch.append(tup(e))
            if len(batch) == 250:
                yield tuple(batch)
                batch = []
        yield tuple(batch)

    def run(case):
        exprs, idx = [], []
        for e in case:
            m = metapost(tup(e))
            idx.append((len(exprs), len(exprs)+len(m)))
            exprs += m
        res = runmetapost(exprs)
        require(len(res) == len(exprs), "MetaPost answered %d paths of %d", len(res), len(exprs))
        for e, (i, j) in zip(case, idx):
            e = tup(e)
            try:
                compare(pathof(mp.path(build(e))), res[i:j], "MetaPost: ", 2e-3)
                compare(reference(e), res[i:j], "reference against MetaPost: ", 2e-3)
            except core.Violation as v:
                raise core.Violation("%s for %s (%r)" % (v, exprs[i:j], e))
        return len(case), hash(exprs[0])
    return Space("metapost", gen, run, "the same lists, evaluated by MetaPost in batches of 250")


def space_again(tier):
    """knots and links can be used several times"""
    def gen():
        lists = [e for e in enumerate_lists("quick") if regular(tup(e))]
        step = 23 if tier == "quick" else 5
        for k, e in enumerate(lists[::step]):
            for how in ("twice", "reversed", "shared"):
                yield (tup(e), how)

    def run(case):
        elems, how = tup(case)
        e = build(elems)
        try:
            first = pathof(mp.path(e))
        except Exception:
            return None
        if how == "twice":
            compare(pathof(mp.path(e)), first, "again: ")
        elif how == "reversed":
            # other paths of the same knots in between
            knots = [x for x in e if not hasattr(x, "set_knots")]
            mp.path([y for x in knots[:1] for y in (mp.beginknot_pt(3, 4), mp.curve(), mp.endknot_pt(5, 6))])
            inner = [x for x, s in zip(e, elems) if s[0] in (K, R)]
            if inner:
                mp.path([y for x in inner for y in (mp.line(), x)][1:]+[mp.line()])
                mp.path([mp.beginknot_pt(-50, -60)]+[y for x in inner for y in (mp.controlcurve_pt((1, 2), (3, 4)), x)]+[mp.curve(), mp.endknot_pt(-70, 6)])
            compare(pathof(mp.path(e)), first, "after other paths: ")
        else:
            # one link object for equal links
            d = {}
            e2 = [d.setdefault(s, x) if hasattr(x, "set_knots") else x for x, s in zip(e, elems)]
            compare(pathof(mp.path(e2)), first, "sharing links: ")
        return case
    return Space("again", gen, run, "a subset of the lists, each with three kinds of reuse")


def space_invalid(tier):
    """inconsistent lists raise"""
    z = PTS[0]
    b, e, k = (B, z[0], None, ("curl", 1)), (E, z[1], ("curl", 1), None), (K, z[2], None, None)
    c, l = ("curve", 1, 1), ("line",)
    al = {"b": b, "e": e, "k": k, "c": c}

    def gen():
        for n in range(1, 5):
            for w in itertools.product("bekc", repeat=n):
                yield "".join(w)

    def run(case):
        elems = [al[x] for x in case]
        # subpaths b(ck)*ce or (kc)+ alone
        import re as _re
        valid = bool(_re.fullmatch(r"(b(ck)*ce)+|(kc){2,}", case))
        bad = _re.search("cc|^c|ec|cb", case)
        try:
            p = mp.path(build(elems))
        except Exception:
            require(not valid, "a valid list raises")
            return case, 0
        if valid:
            return case, 1
        require(not bad, "an inconsistent list is accepted")
        return None
    return Space("invalid", gen, run, "all lists up to length four of begin, end and smooth knots and curves")


def spaces(tier):
    return [space_equations(tier), space_metapost(tier), space_again(tier), space_invalid(tier)]
