"""P32: decorators decorate the path at the stated place and keep the rest."""
import io, itertools, math
from mc import core, machines as M
from mc.core import Space, require, TRACE
from mc.curves import polylines
from pyx import canvas, color, deco, normpath, path, style, trafo, unit

PROPERTY = "P32"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of decorator sequences over paths of every kind; the marks painted by the written PostScript are compared with a reference model, which cuts finely flattened paths by arc length and keeps the set of intervals still to be stroked"
LEVEL_NOTE = "Every sequence of decorators up to the stated length over the alphabet is applied to every path; the model state is the set of arc length intervals left for stroking together with the ornaments."
RULE = "A case is a path with a sequence of decorators and their parameters; states are the sets of intervals left for stroking."
ASSUMPTIONS = ["Arrows longer than the subpath they are on are drawn along a continuation of the path, which is not compared."]

TOL = 0.03
BASE_PT = unit.topt(6*unit.v_pt)


class Poly:
    """subpaths as polylines addressed by arc length"""

    def __init__(self, subs):
        self.subs, self.start = [], []
        self.len = 0.0
        for closed, pts in subs:
            cum = [0.0]
            for p, q in zip(pts, pts[1:]):
                cum.append(cum[-1]+math.dist(p, q))
            self.subs.append((closed, pts, cum))
            self.start.append(self.len)
            self.len += cum[-1]

    def sub(self, s):
        for i in range(len(self.subs)):
            if s <= self.start[i]+self.subs[i][2][-1]+1e-9 or i == len(self.subs)-1:
                return i

    def at(self, s):
        """position and tangent"""
        i = self.sub(s)
        closed, pts, cum = self.subs[i]
        u = s-self.start[i]
        j = 0
        while j < len(cum)-2 and cum[j+1] <= u:
            j += 1
        p, q = pts[j], pts[j+1]
        d = cum[j+1]-cum[j]
        f = (u-cum[j])/d
        return (p[0]+f*(q[0]-p[0]), p[1]+f*(q[1]-p[1])), ((q[0]-p[0])/d, (q[1]-p[1])/d)

    def cut(self, a, b):
        """the polyline from a to b on one subpath"""
        if a > b:
            return self.cut(b, a)[::-1]
        i = self.sub((a+b)/2)
        closed, pts, cum = self.subs[i]
        u, v = a-self.start[i], b-self.start[i]
        return [self.at2(i, u)] + [p for p, c in zip(pts, cum) if u+1e-9 < c < v-1e-9] + [self.at2(i, v)]

    def at2(self, i, u):
        closed, pts, cum = self.subs[i]
        j = 0
        while j < len(cum)-2 and cum[j+1] <= u:
            j += 1
        f = (u-cum[j])/(cum[j+1]-cum[j])
        return (pts[j][0]+f*(pts[j+1][0]-pts[j][0]), pts[j][1]+f*(pts[j+1][1]-pts[j][1]))


def samples(pts, n=24):
    cum = [0.0]
    for p, q in zip(pts, pts[1:]):
        cum.append(cum[-1]+math.dist(p, q))
    out, j = [], 0
    for k in range(n+1):
        u = cum[-1]*k/n
        while j < len(cum)-2 and cum[j+1] < u:
            j += 1
        d = cum[j+1]-cum[j]
        f = (u-cum[j])/d if d else 0
        out.append((pts[j][0]+f*(pts[j+1][0]-pts[j][0]), pts[j][1]+f*(pts[j+1][1]-pts[j][1])))
    return out


def samepts(a, b, tol=TOL):
    return all(math.dist(p, q) < tol for p, q in zip(samples(a), samples(b)))


def T(*pts):
    return path.path(path.moveto_pt(*pts[0]), *[path.lineto_pt(*p) for p in pts[1:]])


PATHS = {"line": T((5, 7), (105, 7)),
         "corner": T((0, 0), (60, 0), (60, 45), (20, 80)),
         "arc": path.path(path.arc_pt(10, 20, 40, 20, 250)),
         "curve": path.curve_pt(0, 0, 30, 60, 80, -40, 120, 30),
         "circle": path.circle_pt(3, 4, 25),
         "rect": path.rect_pt(2, 3, 70, 40),
         "two": T((0, 0), (70, 10))+T((0, 40), (40, 40), (40, 100)),
         "circleline": path.circle_pt(0, 0, 20)+T((30, 0), (90, 20)),
         "linerect": T((0, -20), (80, -20))+path.rect_pt(0, 0, 50, 30),
         "circles": path.circle_pt(0, 0, 20)+path.circle_pt(50, 10, 18),
         "three": path.rect_pt(0, 0, 40, 40)+T((60, 0), (60, 70))+path.circle_pt(100, 0, 15)}
POLY = {k: Poly([(c, pts) for c, pts in polylines(M_segs, 300)]) for k, M_segs in
        ((k, [(ns.closed, [tuple(map(tuple, s)) for s in l]) for ns, (c, l) in zip(p.normpath().normsubpaths, __import__("mc.geom", fromlist=["segs"]).segs(p.normpath()))]) for k, p in PATHS.items())}


def exclude(intervals, a, b):
    return intervals+[(a, b)]


def kept(poly, intervals):
    """expected stroked subpaths [(closed, pts)]"""
    out = []
    for i, (closed, pts, cum) in enumerate(poly.subs):
        lo, hi = poly.start[i], poly.start[i]+cum[-1]
        iv = sorted((max(a, lo), min(b, hi)) for a, b in intervals if min(b, hi) > max(a, lo)+1e-9)
        merged = []
        for a, b in iv:
            if merged and a <= merged[-1][1]:
                merged[-1][1] = max(merged[-1][1], b)
            else:
                merged.append([a, b])
        if not merged:
            out.append((closed, pts))
            continue
        gaps = []
        x = lo
        for a, b in merged:
            gaps.append((x, a))
            x = b
        gaps.append((x, hi))
        if closed:
            first, last = gaps[0], gaps.pop()
            pcs = []
            if last[1] > last[0]+1e-9:
                pcs += poly.cut(*last)
            if first[1] > first[0]+1e-9:
                pcs += poly.cut(*first)
            gaps = gaps[1:]
            if pcs:
                out.append((False, pcs))
        out += [(False, poly.cut(a, b)) for a, b in gaps if b > a+1e-6]
    return out


def rot(p, o, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    x, y = p[0]-o[0], p[1]-o[1]
    return (o[0]+c*x-s*y, o[1]+s*x+c*y)


class Arrow:
    """reference arrow"""

    def __init__(self, pos, reversed, size, angle=45, constriction=0.8):
        self.pos, self.reversed, self.size, self.angle, self.con = pos, reversed, size, angle, constriction
        self.clen = size*(constriction if constriction is not None else 1)*math.cos(math.radians(angle/2))

    def tip(self, poly):
        # the head between tip and constriction moves from the begin to the end of the path for pos from 0 to 1
        return self.pos*(poly.len-self.clen)+(0 if self.reversed else self.clen)

    def fits(self, poly):
        t = self.tip(poly)
        b = t+self.size if self.reversed else t-self.size
        i = poly.sub((t+b)/2)
        lo, hi = poly.start[i], poly.start[i]+poly.subs[i][2][-1]
        return lo-1e-9 <= min(t, b) and max(t, b) <= hi+1e-9

    def head(self, poly):
        t = self.tip(poly)
        d = 1 if self.reversed else -1
        back = poly.cut(t, t+d*self.size)
        o = back[0]
        pts = [rot(p, o, -self.angle/2) for p in back[::-1]] + [rot(p, o, self.angle/2) for p in back[1:]]
        if self.con is not None:
            pts.append(poly.at(t+d*self.clen)[0])
        return pts+[pts[0]]

    def excluded(self, poly):
        c = min(self.size, self.clen)
        if self.pos == 0 and self.reversed:
            return [(0, c)]
        if self.pos == 1 and not self.reversed:
            return [(poly.len-c, poly.len)]
        return []


def paint(p, decos, how="stroke"):
    c = canvas.canvas()
    getattr(c, how)(p, decos)
    f = io.BytesIO()
    c.writeEPSfile(f)
    return M.psmarks(f.getvalue())


def strokes(mark):
    return [(c, pts) for c, pts in polylines([x for x in mark.path if x[1]], 60)]


def checkstroke(mark, want):
    require(mark.op == "stroke", "%s instead of the stroke", mark.op)
    got = strokes(mark)
    require(len(got) == len(want), "%d stroked pieces instead of %d", len(got), len(want))
    left = list(want)
    for c, pts in got:
        for w in left:
            if bool(c) == bool(w[0]) and samepts(pts, w[1]):
                left.remove(w)
                break
        else:
            require(False, "stroked from %r to %r, while it should be %r", pts[0], pts[-1], [(w[0], w[1][0], w[1][-1]) for w in left])


def checkhead(mark, op, pts):
    require(mark.op == op, "%s instead of %s of the arrow", mark.op, op)
    require(len(mark.path) == 1 and mark.path[0][0], "the arrow is not a single closed path")
    got = polylines(mark.path, 60)[0][1]
    if math.dist(got[0], got[-1]) > 1e-3:
        got = got+[got[0]]
    require(samepts(got, pts), "arrow %r instead of %r", [tuple(round(v, 2) for v in p) for p in samples(got, 6)], [tuple(round(v, 2) for v in p) for p in samples(pts, 6)])


SIZES = ["SMALL", "SMALl", "SMAll", "SMall", "Small", "small", "normal", "large", "Large", "LArge", "LARge", "LARGe", "LARGE"]


def space_arrows(tier):
    """single arrows: position, size, opening and constriction"""
    poss = [0, 0.25, 0.5, 0.8, 1] if tier == "quick" else [0, 0.1, 0.25, 0.5, 0.66, 0.8, 0.95, 1]
    sizes = [3, 9, 20] if tier == "quick" else [1, 3, 6, 9, 14, 20, 33]
    angles = [45, 20, 100] if tier == "quick" else [45, 10, 20, 60, 100, 150]
    cons = [0.8, None, 1, 0.3] if tier == "quick" else [0.8, None, 1, 0.3, 1.3, 0]

    def gen():
        for pn in PATHS:
            for pos in poss:
                for rev in (0, 1):
                    for size in sizes:
                        for angle in angles:
                            for con in cons:
                                for how in ((0, 1) if size == sizes[1] else (0,)):
                                    yield (pn, pos, rev, size, angle, con, how)

    def run(case):
        pn, pos, rev, size, angle, con, how = case
        poly = POLY[pn]
        ref = Arrow(pos, rev, size, angle, con)
        if not ref.fits(poly):
            return None
        kw = dict(pos=pos, reversed=rev, size=size*unit.t_pt, angle=angle, constriction=con)
        if how:
            # the same by changing attributes of other arrows
            a = deco.earrow.LARge([deco.stroked([color.rgb.red]), deco.filled.clear], pos=0.3)
            for k in kw:
                a = a(**{k: kw[k]})
        else:
            a = deco.arrow(**kw)
        ms = paint(PATHS[pn], [a])
        require(len(ms) == 2, "%d marks", len(ms))
        iv = ref.excluded(poly)
        checkstroke(ms[0], kept(poly, iv))
        checkhead(ms[1], "stroke" if how else "fill", ref.head(poly))
        require(ms[1].color == (("rgb", (1, 0, 0)) if how else ("gray", (0,))), "color %r", ms[1].color)
        TRACE.visit((pn, tuple(iv)))
        return (pn, pos, rev, size, angle, con)
    return Space("arrows", gen, run, dict(paths=len(PATHS), positions=len(poss), sizes=len(sizes)))


def space_sizes(tier):
    """the named arrows"""
    def gen():
        for which in ("barrow", "earrow"):
            for i, n in enumerate(SIZES+[None]):
                for pn in ("line", "curve", "linerect"):
                    yield (which, i, pn)

    def run(case):
        which, i, pn = case
        a = getattr(deco, which)
        poly = POLY[pn]
        e = 0
        if i < len(SIZES):
            a = getattr(a, SIZES[i])
            e = i-6
        ref = Arrow(0 if which == "barrow" else 1, which == "barrow", BASE_PT*math.sqrt(2)**e)
        if not ref.fits(poly):
            return None
        ms = paint(PATHS[pn], [a])
        require(len(ms) == 2, "%d marks", len(ms))
        checkstroke(ms[0], kept(poly, ref.excluded(poly)))
        checkhead(ms[1], "fill", ref.head(poly))
        return case
    return Space("sizes", gen, run, dict(sizes=len(SIZES)))


class Recorder(canvas.canvas):
    """stands for a text box, which notes what is asked from it"""

    def linealign(self, *args):
        self.aligned = args


class Engine:

    def __init__(self, items=None):
        self.calls = []
        self.items = items

    def text(self, x, y, text, textattrs, singlecharmode=0):
        r = Recorder()
        r.call = (unit.topt(x), unit.topt(y), text, list(textattrs), singlecharmode)
        self.calls.append(r)
        if self.items is not None:
            r.do_finish = lambda: None
            r.texttrafo = trafo.translate_pt(*self.items[0])
            r.dvicanvas = canvas.canvas([color.rgb.blue])
            for a, b in self.items[1]:
                # glyphs: a triangle over its base line between the two positions
                r.dvicanvas.fill(path.path(path.moveto_pt(a, 0), path.lineto_pt(b, 0), path.lineto_pt((a+b)/2, 3), path.closepath()))
        return r


# independent decorators of sequences: name -> (real, reference)
SEQ = {"b": Arrow(0, 1, 8), "e": Arrow(1, 0, 7), "E": Arrow(1, 0, 15, 60, None), "m": Arrow(0.5, 0, 6), "r": Arrow(0.4, 1, 5), "f": Arrow(0, 0, 6)}
# texts: (position from begin, items, exclusion)
TEXTS = {"t": (0.5, [(-6, -1), (0, 4)], 0.5), "u": (0.3, [(-3, 2)], 2), "v": (0.02, [(-1, 4), (5, 8)], 1), "w": (0.97, [(-2, 3)], 0)}


def space_sequences(tier):
    """several decorators in all orders"""
    top = 3 if tier == "quick" else 4
    names = list(SEQ)+list(TEXTS)

    def gen():
        for pn in PATHS:
            for n in range(1, (top if pn in ("linerect", "circle", "three") else 2 if tier == "quick" else 3)+1):
                for seq in itertools.permutations(names, n):
                    if sum(x in "eE" for x in seq) < 2 and (n < 3 or tier == "thorough" or sum(x in "mrf" for x in seq) < 2 and (sum(x in "tuvw" for x in seq) < 3)):
                        yield (pn, seq)

    def run(case):
        pn, seq = case
        poly = POLY[pn]
        iv = []
        decos, refs = [], []
        for k in seq:
            if k in SEQ:
                a = SEQ[k]
                if not a.fits(poly):
                    return None
                decos.append(deco.arrow(pos=a.pos, reversed=a.reversed, size=a.size*unit.t_pt, angle=a.angle, constriction=a.con))
                iv = iv+a.excluded(poly)
                refs.append(a)
            else:
                pos, items, ex = TEXTS[k]
                decos.append(deco.curvedtext("x", relarclenpos=pos, exclude=ex*unit.t_pt, texrunner=Engine(((0, 0), items))))
                iv = iv+[(pos*poly.len+x-ex, pos*poly.len+y+ex) for x, y in items]
                refs.append(k)
            TRACE.step((pn, tuple(sorted(iv))))
        ms = paint(PATHS[pn], decos)
        checkstroke(ms[0], kept(poly, iv))
        k = 1
        for r in refs:
            if isinstance(r, Arrow):
                require(k < len(ms), "marks are missing")
                checkhead(ms[k], "fill", r.head(poly))
                k += 1
            else:
                pos, items, ex = TEXTS[r]
                for x, y in items:
                    require(k < len(ms), "marks are missing")
                    checkglyph(ms[k], poly, pos*poly.len, x, y, (0, 0))
                    k += 1
        require(k == len(ms), "%d marks instead of %d", len(ms), k)
        return (pn, tuple(sorted(seq)), len(kept(poly, iv)))
    return Space("sequences", gen, run, dict(length=top, alphabet=len(names), paths=len(PATHS)))


def checkglyph(mark, poly, s, x, y, shift):
    require(mark.op == "fill" and mark.color == ("rgb", (0, 0, 1)), "glyph %r", mark)
    # the centre of the glyph is at its arc length, the base line tangential
    u = s+(x+y)/2+shift[0]
    i = poly.sub(u)
    lo, hi = poly.start[i], poly.start[i]+poly.subs[i][2][-1]
    if not lo+1e-6 < u < hi-1e-6 or any(abs(poly.start[i]+c-u) < 1e-6 for c in poly.subs[i][2]):
        return
    o, t = poly.at(u)
    w = (y-x)/2
    local = [(-w, shift[1]), (w, shift[1]), (0, 3+shift[1])]
    want = [(o[0]+t[0]*a-t[1]*b, o[1]+t[1]*a+t[0]*b) for a, b in local]
    got = [sg[0] for sg in mark.path[0][1]][:3]
    require(len(got) == 3 and all(math.dist(p, q) < TOL+0.004*w for p, q in zip(got, want)), "glyph at %r instead of %r", got, want)


def space_texts(tier):
    """texts at a position of the path"""
    where = [("rel", 0.5), ("rel", 0), ("rel", 0.25), ("rel", 1), ("begin", 0), ("begin", 13), ("end", 0), ("end", 21), ("default", None)]

    def gen():
        for pn in PATHS:
            for w in where:
                for angle in (("a", 0), ("a", 30), ("a", 135), ("r", 0), ("r", 90), ("r", -45)):
                    for dist in (0, 5, None):
                        yield ("text", pn, w, angle, dist)
                for items in (0, 1, 2):
                    for ex in (None, 0, 1.5):
                        for sh in ((0, 0), (4, -2)):
                            yield ("curved", pn, w, (items, ex), sh)
        yield ("both", "text", 0, 0, 0)
        yield ("both", "curvedtext", 0, 0, 0)

    def run(case):
        kind, pn, w, o, x = case
        if kind == "both":
            try:
                getattr(deco, pn)("x", arclenfrombegin=1, arclenfromend=1)
            except ValueError:
                return case
            require(False, "two positions are accepted")
        poly = POLY[pn]
        kw = {"rel": dict(relarclenpos=w[1]), "begin": dict(arclenfrombegin=(w[1] or 0)*unit.t_pt), "end": dict(arclenfromend=(w[1] or 0)*unit.t_pt), "default": {}}[w[0]]
        s = {"rel": (w[1] or 0)*poly.len, "begin": w[1], "end": poly.len-(w[1] or 0), "default": 0.5*poly.len}[w[0]]
        if kind == "text":
            from pyx import text as textmodule
            e = Engine()
            own = [textmodule.size.large]
            kw["angle" if o[0] == "a" else "relangle"] = o[1]
            if x is not None:
                kw["textdist"] = x*unit.t_pt
            ms = paint(PATHS[pn], [deco.text("abc", own, texrunner=e, **kw)])
            require(len(e.calls) == 1 and len(ms) == 1, "%d texts, %d marks", len(e.calls), len(ms))
            r = e.calls[0]
            p, t = poly.at(s)
            require(math.dist(p, r.call[:2]) < TOL, "text at %r instead of %r", r.call[:2], p)
            require(r.call[2] == "abc" and own[0] in r.call[3] and textmodule.halign.center in r.call[3] and textmodule.vshift.mathaxis in r.call[3], "text with %r", r.call)
            a = math.radians(o[1])
            if o[0] == "r":
                if any(abs(s-poly.start[i]-c) < 1e-6 for i, sub in enumerate(poly.subs) for c in sub[2][1:-1]) or pn in ("two", "circleline", "linerect", "circles", "three") and any(abs(s-b) < 1e-6 for b in poly.start[1:]):
                    return None
                a += math.atan2(t[1], t[0])
            d, c, sn = r.aligned
            require(abs(unit.topt(d)-(x if x is not None else unit.topt(0.2))) < 1e-6, "distance %r", unit.topt(d))
            require(abs(c-math.cos(a)) < 0.006 and abs(sn-math.sin(a)) < 0.006, "direction %r instead of %r", (c, sn), (math.cos(a), math.sin(a)))
            checkstroke(ms[0], kept(poly, []))
            return case
        items = [[(-4, 1)], [(-9, -5), (-4, 0), (1, 3)], []][o[0]]
        e = Engine((x, items))
        if o[1] is not None:
            kw["exclude"] = o[1]*unit.t_pt
        ms = paint(PATHS[pn], [deco.curvedtext("abc", [], texrunner=e, **kw)])
        require(len(e.calls) == 1 and e.calls[0].call[4] and len(ms) == 1+len(items), "%d marks", len(ms))
        iv = [(s+a+x[0]-o[1], s+b+x[0]+o[1]) for a, b in items] if o[1] is not None else []
        # a range just touching an end of a closed subpath opens it or not
        if not any(abs(a-poly.start[i]-cum[-1]) < 1e-6 or abs(b-poly.start[i]) < 1e-6 for a, b in iv for i, (closed, pts, cum) in enumerate(poly.subs) if closed):
            checkstroke(ms[0], kept(poly, iv))
        for m, (a, b) in zip(ms[1:], items):
            checkglyph(m, poly, s, a, b, x)
        return (case, len(iv))
    return Space("texts", gen, run, dict(paths=len(PATHS), positions=len(where)))


def space_hatched(tier):
    dists = [3, 7.5, 40, 200]
    angles = [0, 45, 90, 135, 30, -17]

    def gen():
        for pn in PATHS:
            for d in dists:
                for a in angles:
                    for cross in (0, 1):
                        for fill in (0, 1, 2):
                            yield (pn, d, a, cross, fill)
        for base, a, cross in (("linehatched0", 0, 0), ("linehatched45", 45, 0), ("linehatched90", 90, 0), ("linehatched135", 135, 0), ("crosslinehatched0", 0, 1), ("crosslinehatched45", 45, 1)):
            for i in range(len(SIZES)):
                yield (base, i, a, cross, 3)

    def run(case):
        pn, d, a, cross, fill = case
        if fill == 3:
            h = getattr(getattr(deco, pn), SIZES[d])
            pn, d = "rect", unit.topt(0.1*unit.v_cm)*math.sqrt(2)**(d-6)
        else:
            h = deco.linehatched(d*unit.t_pt, a, [style.linewidth(0.3*unit.t_pt), color.rgb.green], cross=cross)
        poly = POLY[pn]
        # hatching replaces filling, in both orders
        ms = paint(PATHS[pn], {0: [h], 1: [deco.filled([color.rgb.red]), h], 2: [deco.stroked, h], 3: [h]}[fill], how="draw")
        if fill == 2:
            checkstroke(ms.pop(0), kept(poly, []))
        want = kept(poly, [])
        pts = [p for c, l in want for p in l]
        n = 0
        for deg in [a, a+90][:1+cross]:
            u = (math.cos(math.radians(deg)), math.sin(math.radians(deg)))     # across the lines
            v = (-u[1], u[0])
            lo, hi = [f(p[0]*u[0]+p[1]*u[1] for p in pts) for f in (min, max)]
            vlo, vhi = [f(p[0]*v[0]+p[1]*v[1] for p in pts) for f in (min, max)]
            at = []
            while n < len(ms):
                m = ms[n]
                require(m.op == "stroke" and len(m.path) == 1 and len(m.path[0][1]) == 1 and not m.path[0][0], "hatching mark %r", m)
                p, q = m.path[0][1][0][0], m.path[0][1][0][-1]
                l = math.dist(p, q)
                if abs((q[0]-p[0])*u[0]+(q[1]-p[1])*u[1]) > 1e-2*l:
                    break
                n += 1
                require(len(m.clips) == 1, "%d clips", len(m.clips))
                got = polylines(m.clips[0][0], 60)
                require(len(got) == len(want) and all(bool(x[0]) == bool(y[0]) and samepts(x[1], y[1]) for x, y in zip(got, want) if x[0]), "clipped to %r", got)
                require(fill == 3 or m.color == ("rgb", (0, 1, 0)) and abs(m.width-0.3) < 1e-6, "style %r", m)
                at.append(p[0]*u[0]+p[1]*u[1])
                ends = sorted(x[0]*v[0]+x[1]*v[1] for x in (p, q))
                require(ends[0] <= vlo+1e-3 and ends[1] >= vhi-1e-3, "line from %r to %r does not cross the path", p, q)
            at.sort()
            require(at and at[0] <= lo+1e-3 and at[-1] >= hi-1e-3, "hatched from %r to %r instead of %r to %r", at and at[0], at and at[-1], lo, hi)
            require(all(abs(y-x-d) < 5e-3*max(1, d/40) for x, y in zip(at, at[1:])), "distances %r instead of %r", [y-x for x, y in zip(at, at[1:])][:4], d)
        require(n == len(ms), "%d further marks", len(ms)-n)
        return case
    return Space("hatched", gen, run, dict(paths=len(PATHS), distances=len(dists), angles=len(angles)))


def space_gradient(tier):
    steps = [2, 3, 5, 20]

    def gen():
        for pn in PATHS:
            for n in steps+([50, 4, 7] if tier == "thorough" else []):
                for g in ("Gray", "Rainbow"):
                    for w in (0, 1):
                        yield (pn, n, g, w)

    def run(case):
        pn, n, gname, w = case
        poly = POLY[pn]
        grad = getattr(color.gradient, gname)
        ms = paint(PATHS[pn], [deco.colorgradient(grad, [style.linewidth(2*unit.t_pt), color.rgb.red] [:1] if w else [], steps=n)], how="draw")
        # the last color painted on samples of the path
        grid = []
        for i, (closed, pts, cum) in enumerate(poly.subs):
            for k in range(1, 120):
                u = cum[-1]*k/120
                s = poly.start[i]+u
                if abs(s*n/poly.len-round(s*n/poly.len)) > 0.02:
                    grid.append((s, poly.at2(i, u)))
        last = {}
        for m in ms:
            require(m.op == "stroke" and abs(m.width-(2 if w else M_T0)) < 1e-5, "mark %r", m)
            for c, pts in polylines(m.path, 40):
                for s, p in grid:
                    if any(near(p, a, b) for a, b in zip(pts, pts[1:])):
                        last[s] = m.color
        for s, p in grid:
            c = grad.select(int(s/poly.len*n), n)
            require(s in last, "nothing painted at %r of %r", s, poly.len)
            r1, r2 = M.torgb(last[s]), (lambda x: (x.r, x.g, x.b))(c.rgb())
            require(all(abs(x-y) < 1e-5 for x, y in zip(r1, r2)), "color %r instead of %r at %r of %r", r1, r2, s, poly.len)
        return case
    return Space("gradient", gen, run, dict(steps=len(steps), paths=len(PATHS)), cpu=60)


M_T0 = 0.02*72/2.54


def near(p, a, b):
    d = (b[0]-a[0], b[1]-a[1])
    l2 = d[0]**2+d[1]**2
    if l2 == 0:
        return False
    t = ((p[0]-a[0])*d[0]+(p[1]-a[1])*d[1])/l2
    if not -0.001 <= t <= 1.001:
        return False
    return abs((p[0]-a[0])*d[1]-(p[1]-a[1])*d[0])/math.sqrt(l2) < 0.05


def crossing(s, t):
    """segments properly intersect"""
    (a, b), (c, d) = s, t
    if min(a[0], b[0]) > max(c[0], d[0]) or max(a[0], b[0]) < min(c[0], d[0]) or min(a[1], b[1]) > max(c[1], d[1]) or max(a[1], b[1]) < min(c[1], d[1]):
        return False
    o = lambda p, q, r: (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])
    e = 1e-2*min(math.dist(a, b), math.dist(c, d))
    return o(a, b, c)*o(a, b, d) < 0 and o(c, d, a)*o(c, d, b) < 0 and min(map(abs, (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)))) > 1e-2*e


BRACES = {"brace": (deco.brace(), 1, 0.5), "leftbrace": (deco.leftbrace, 0, 0.55), "rightbrace": (deco.rightbrace, 1, 0.45), "belowbrace": (deco.belowbrace, 1, 0.55), "abovebrace": (deco.abovebrace, 0, 0.45)}


def space_braces(tier):
    """braces span the end points, the tip being at the stated height and position"""
    lens = [200, 90, 60, 45, 30, 22] if tier == "quick" else list(range(20, 130, 3))+[150, 200, 400]

    def gen():
        for b in BRACES:
            for l in lens:
                for a in (0, 30, 180, -100):
                    for st in (None, 1.5):
                        for d in (None, 4, -3):
                            for h in (None, 8):
                                yield (b, ("line", l, a), st, d, h)
            for st in (None, 0.8):
                for d in (None, 6):
                    for pn in ("arc", "curve", "corner"):
                        yield (b, (pn, 0, 0), st, d, None)

    def run(case):
        bn, (pn, l, a), st, d, h = case
        b, rev, mid = BRACES[bn]
        kw = {}
        if st is not None:
            kw["stretch"] = st
        if d is not None:
            kw["dist"] = d*unit.t_pt
        if h is not None:
            kw["totalheight"] = h*unit.t_pt
        if kw:
            b = b(**kw)
        H = h if h is not None else unit.topt(12*unit.x_pt)
        if pn == "line":
            p = T((3, 5), (3+l*math.cos(math.radians(a)), 5+l*math.sin(math.radians(a))))
            n0 = n1 = (-math.sin(math.radians(a)), math.cos(math.radians(a)))
            e0, e1 = (3, 5), (3+l*math.cos(math.radians(a)), 5+l*math.sin(math.radians(a)))
        else:
            p = PATHS[pn]
            poly = POLY[pn]
            (e0, t0), (e1, t1) = poly.at(0), poly.at(poly.len)
            n0, n1 = (-t0[1], t0[0]), (-t1[1], t1[0])
        if st is not None:
            m = ((e0[0]+e1[0])/2, (e0[1]+e1[1])/2)
            e0, e1 = [(m[0]+st*(e[0]-m[0]), m[1]+st*(e[1]-m[1])) for e in (e0, e1)]
        if d is not None:
            e0, e1 = [(e[0]+d*n[0], e[1]+d*n[1]) for e, n in ((e0, n0), (e1, n1))]
        if rev:
            e0, e1 = e1, e0
        L = math.dist(e0, e1)
        ms = paint(p, [b], how="draw")
        require(len(ms) == 1 and ms[0].op == "fill" and len(ms[0].path) == 1, "marks %r", ms)
        u = ((e1[0]-e0[0])/L, (e1[1]-e0[1])/L)

        def loc(q):
            x, y = q[0]-e0[0], q[1]-e0[1]
            return (x*u[0]+y*u[1], -x*u[1]+y*u[0])
        pts = [loc(q) for q in polylines(ms[0].path, 60)[0][1]]
        ys = [q[1] for q in pts]
        tol = 0.05+0.002*L if pn != "line" else 0.05
        top = max(pts, key=lambda q: q[1])
        require(abs(top[1]-H) < tol+0.02*H, "height %r instead of %r", top[1], H)
        require(abs(top[0]-mid*L) < tol+0.1*H, "tip at %r instead of %r", top[0], mid*L)
        require(abs(min(ys)) < tol+0.05*H, "base at %r", min(ys))
        # both legs stand at the end points
        for x in (0, L):
            dd = min(math.dist(q, (x, 0)) for q in pts)
            require(dd < tol+0.05*H, "no leg at %r: distance %r", x, dd)
        # the outline does not intersect itself
        coarse = [loc(q) for q in polylines(ms[0].path, 12)[0][1]]
        for (i, s), (j, t) in itertools.combinations(enumerate(zip(coarse, coarse[1:])), 2):
            require(j-i < 2 or j-i > len(coarse)-4 or not crossing(s, t), "the outline intersects itself at %r", s)
        return (case, round(top[0], 2))
    return Space("braces", gen, run, dict(braces=len(BRACES), lengths=len(lens)))


def space_normpath(tier):
    """shownormpath marks the parts of the normpath"""
    def gen():
        for pn in PATHS:
            for opts in itertools.product((0, 1, 2), repeat=5):
                if tier == "thorough" or sum(x != 1 for x in opts) < 3:
                    yield (pn, opts)

    def run(case):
        pn, opts = case
        names = ["normline_attrs", "normcurve_attrs", "endpoint_attrs", "controlline_attrs", "controlpoint_attrs"]
        kw = {n: {0: None, 2: [color.gray(0.5)]}[o] for n, o in zip(names, opts) if o != 1}
        from mc import geom
        ms = paint(PATHS[pn], [deco.shownormpath(endpoint_size=1*unit.t_pt, controlpoint_size=2*unit.t_pt, **kw)], how="draw")
        segs = geom.segs(PATHS[pn].normpath())
        dflt = [("rgb", (0, 0, 1)), ("rgb", (0, 1, 0)), ("gray", (0,)), ("rgb", (1, 0, 0)), ("rgb", (1, 0, 0))]
        col = lambda k: ("gray", (0.5,)) if opts[k] == 2 else dflt[k]
        want = []
        for c, l in segs:
            for i, s in enumerate(l):
                k = len(s) == 4
                if opts[k]:
                    want.append(("stroke", col(k), tuple(s)))
                if k:
                    if opts[3]:
                        want += [("stroke", col(3), (s[0], s[1])), ("stroke", col(3), (s[2], s[3]))]
                    if opts[4]:
                        want += [("dot", col(4), s[1], 2), ("dot", col(4), s[2], 2)]
                if opts[2]:
                    if not i:
                        want.append(("dot", col(2), s[0], 1))
                    want.append(("dot", col(2), s[-1], 1))
        require(len(ms) == len(want), "%d marks instead of %d", len(ms), len(want))
        for m in ms:
            for w in want:
                if (m.op == "stroke") != (w[0] == "stroke") or m.color[0] != w[1][0] or any(abs(x-y) > 1e-5 for x, y in zip(m.color[1], w[1][1])):
                    continue
                if w[0] == "stroke":
                    g = m.path[0][1]
                    if len(g) == 1 and len(g[0]) == len(w[2]) and all(math.dist(p, q) < 2e-3 for p, q in zip(g[0], w[2])):
                        break
                else:
                    pts = [p for c, l in polylines(m.path, 8) for p in l]
                    if all(abs(math.dist(p, w[2])-w[3]) < 5e-3 for p in pts):
                        break
            else:
                require(False, "unexpected mark %r", m)
            want.remove(w)
        return case
    return Space("normpath", gen, run, dict(paths=len(PATHS)))


def space_short(tier):
    """paths shorter than the arrow: nothing of the path is stroked outside of it"""
    def gen():
        for l in (0.5, 2, 5, 9):
            for which in ("b", "e", "be"):
                for size in (10, 30):
                    for con in (0.8, None):
                        yield (l, which, size, con)

    def run(case):
        l, which, size, con = case
        ds = []
        if "b" in which:
            ds.append(deco.barrow(size=size*unit.t_pt, constriction=con))
        if "e" in which:
            ds.append(deco.earrow(size=size*unit.t_pt, constriction=con))
        c = canvas.canvas()
        c.stroke(T((0, 0), (l, 0)), ds)
        tips = []
        for w, read in ((c.writeEPSfile, M.psmarks), (c.writePDFfile, M.pdfmarks), (c.writeSVGfile, M.svgmarks)):
            f = io.BytesIO(); w(f)
            ms = read(f.getvalue())
            heads = [m for m in ms if m.op == "fill"]
            require(len(heads) == len(which), "%d arrows", len(heads))
            for m, x in zip(heads, [0]*("b" in which)+[l]*("e" in which)):
                pts = polylines(m.path, 8)[0][1]
                require(min(math.dist(p, (x, 0)) for p in pts) < 1e-3, "tip of %r instead of %r", pts, x)
                back = [p for p in pts if abs(p[1]) > 0.1*size]
                require(len(back) >= 2 and all(abs(math.dist(p, (x, 0))-size) < 1e-2 for p in back[:1]), "wings %r", back)
            for m in ms:
                if m.op == "stroke":
                    for cl, pts in strokes(m):
                        for p in pts:
                            require(-1e-3 <= p[0] <= l+1e-3, "stroked at %r", p)
        return case
    return Space("short", gen, run, dict(lengths=4))


def spaces(tier):
    return [space_arrows(tier), space_sizes(tier), space_sequences(tier), space_texts(tier), space_hatched(tier), space_gradient(tier), space_braces(tier), space_normpath(tier), space_short(tier)]
