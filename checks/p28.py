"""P28: plot styles draw each datum at its position and nothing else."""
import itertools, math
from mc import core, graphs, machines as M
from mc.core import Space, require, TRACE
from pyx import attr, canvas, color, deco, graph, style, text, unit
from pyx.graph import axis

PROPERTY = "P28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of data sequences (valid, missing, out of range and border values in every order) and of the forms of ranges, plotted with every style on the real graph; the marks of the written PostScript are compared with an independent reference, which clips segments, intervals and areas in graph coordinates"
LEVEL_NOTE = "All sequences of data up to the stated length over the alphabet are plotted; the reference tracks which consecutive data are to be joined (states are the positions already drawn together with the validity of the last datum)."
RULE = "A case is a graph with a sequence of data and a style configuration; non-trivial if something is drawn; outcomes are the counts of marks."
ASSUMPTIONS = ["Positions along axes come from the linear and logarithmic mapping for given ranges, those of bar axes and of three-dimensional graphs from the graph (checked by P24 and P26).",
               "Automatic histograms need data positions in equal steps; a missing position there is an error."]

CM = 72/2.54
W, H, X0, Y0 = 5, 4, 1, 2
RED, GREEN, BLUE = color.rgb(1, 0, 0), color.rgb(0, 1, 0), color.rgb(0, 0, 1)
EPS = 1e-9


def engine():
    e = graphs.Engine()
    text.defaulttextengine = e
    return e


def lin(lo, hi, **kw):
    return axis.lin(min=lo, max=hi, painter=None, **kw)


# kind: (constructor, vx(x), vy(y), data x, data y, axis names, flipped)
def kinds():
    fx = lambda x: x/10
    fy = lambda y: (y+2)/4
    ident = lambda v: v
    ten = lambda v: 10.0**v
    base = dict(xpos=X0, ypos=Y0, width=W, height=H)
    return {
        "xy": (lambda: graph.graphxy(x=lin(0, 10), y=lin(-2, 2), x2=None, y2=None, **base), fx, fy, ident, ident, "x", "y", False),
        "flipped": (lambda: graph.graphxy(flipped=True, x=lin(0, 10), y=lin(-2, 2), x2=None, y2=None, **base), fx, fy, ident, ident, "x", "y", True),
        "reverse": (lambda: graph.graphxy(x=lin(0, 10, reverse=1), y=lin(2, -2), x2=None, y2=None, **base), lambda x: 1-x/10, lambda y: 1-(y+2)/4, ident, ident, "x", "y", False),
        "log": (lambda: graph.graphxy(x=lin(0, 10), y=axis.log(min=1e-2, max=1e2, painter=None), x2=None, y2=None, **base), fx, fy, ident, ten, "x", "y", False),
        "second": (lambda: graph.graphxy(x=None, y=None, x2=lin(0, 10), y2=lin(-2, 2), **base), fx, fy, ident, ident, "x2", "y2", False),
    }


class G:
    def __init__(self, kind):
        self.kind = kind
        engine()
        mk, self.fx, self.fy, self.dx, self.dy, self.x, self.y, self.flipped = kinds()[kind]
        self.g = mk()

    def v(self, x, y):
        return (self.fx(x), self.fy(y))

    def pt(self, v):
        a, b = (v[1], v[0]) if self.flipped else v
        return ((X0+W*a)*CM, (Y0+H*b)*CM)

    def marks(self):
        return graphs.draw(self.g)[0]


def ok(v):
    return all(c is not None and -EPS <= c <= 1+EPS for c in v)


def clip(p, q):
    """the parameters between which the segment is inside the unit box"""
    a, b = 0.0, 1.0
    for s, e in zip(p, q):
        d = e-s
        if abs(d) < 1e-12:
            if s < -EPS or s > 1+EPS:
                return None
            continue
        t1, t2 = (0-s)/d, (1-s)/d
        if t1 > t2:
            t1, t2 = t2, t1
        a, b = max(a, t1), min(b, t2)
    if a > b:
        return None
    return a, b


def at(p, q, t):
    return tuple(s+t*(e-s) for s, e in zip(p, q))


def polylines(vs):
    """what a line through the positions (None: missing) draws"""
    out, cur = [], []
    last = None
    for v in vs:
        if v is None:
            if len(cur) > 1:
                out.append(cur)
            cur, last = [], None
            TRACE.step(("gap", len(out)))
            continue
        if last is not None:
            c = clip(last, v)
            if c is not None:
                a, b = at(last, v, c[0]), at(last, v, c[1])
                if ok(last):
                    a = last
                if ok(v):
                    b = v
                if not cur:
                    cur = [a]
                cur.append(b)
            if not ok(v):
                if len(cur) > 1:
                    out.append(cur)
                cur = []
        elif ok(v):
            cur = [v]
        TRACE.step((tuple(round(x, 3) for x in v), len(cur), len(out)))
        last = v
    if len(cur) > 1:
        out.append(cur)
    return out


def tidy(lines, eps=1e-3):
    out = []
    for l in lines:
        n = [l[0]]
        for p in l[1:]:
            if math.dist(p, n[-1]) > eps:
                n.append(p)
        if len(n) > 1:
            out.append(n)
    return out


def pathlines(path):
    out = []
    for closed, segs in path:
        if not segs:
            continue
        l = [segs[0][0]]
        for s in segs:
            require(len(s) == 2, "a curve is drawn instead of a straight line")
            l.append(s[1])
        if closed and math.dist(l[0], l[-1]) > 1e-6:
            l.append(l[0])
        out.append(l)
    return out


def show(lines):
    return [[(round(x, 2), round(y, 2)) for x, y in l] for l in lines]


def near(p, q, eps=2e-3):
    return abs(p[0]-q[0]) < eps and abs(p[1]-q[1]) < eps


def sameline(a, b):
    return len(a) == len(b) and all(near(p, q) for p, q in zip(a, b))


def samelines(got, want, what):
    """the same polylines in any order, in either direction"""
    rest = list(got)
    for w in want:
        for i, l in enumerate(rest):
            if sameline(l, w) or sameline(l[::-1], w):
                del rest[i]
                break
        else:
            require(False, "%s: %s is not drawn; drawn: %s", what, show([w])[0], show(got))
    require(not rest, "%s: %s is drawn in addition to %s", what, show(rest), show(want))


def comps(c):
    if c.__class__.__name__ == "gray":
        return (c.g,)
    if c.__class__.__name__ == "hsb":
        return M.hsb2rgb(c.h, c.s, c.b)
    return (c.r, c.g, c.b)


def by(marks, c):
    return [m for m in marks if m.color[0] == c.__class__.__name__ and all(abs(x-y) < 1e-6 for x, y in zip(m.color[1], comps(c)))]


def centre(m):
    pts = [p for closed, segs in m.path for s in segs for p in s]
    return (0.5*(min(p[0] for p in pts)+max(p[0] for p in pts)), 0.5*(min(p[1] for p in pts)+max(p[1] for p in pts)))


# ------------------------------------------------- sequences of positions
ALPHA = {
    "a": (3.0, 0.7), "b": (7.5, -1.3), "r": (10.0, 0.4), "c": (0.0, 2.0),
    "L": (-4.0, 0.9), "R": (13.0, -0.25), "T": (4.5, 5.0), "B": (6.0, -3.7), "D": (12.0, 4.1),
    "x": (None, 1.0), "y": (2.0, None),
}
ODD = {"t": (4.0, "text"), "n": (float("nan"), 0.2), "i": (5.0, float("inf")), "I": (float("-inf"), 0.1), "N": (1.5, float("nan"))}


def gen_lines(kindlist, n, alpha="".join(ALPHA), exact=False):
    def gen():
        for k in kindlist:
            for l in range(n if exact else 0, n+1):
                for s in itertools.product(alpha, repeat=l):
                    yield [k, "".join(s)]
    return gen


def value(f, v):
    if v is None or isinstance(v, str) or v != v or abs(v) == float("inf"):
        return v
    return f(v)


def num(v):
    return isinstance(v, float) and v == v and abs(v) != float("inf")


def run_lines(case):
    kind, word = case
    G_ = G(kind)
    data = [(ALPHA.get(ch) or ODD[ch]) for ch in word]
    vs = [G_.v(x, y) if num(x) and num(y) else None for x, y in data]
    cols = {G_.x: [value(G_.dx, x) for x, y in data], G_.y: [value(G_.dy, y) for x, y in data]}
    start = -0.5
    S = graph.style
    G_.g.plot(graph.data.values(**cols), [S.symbol(S.symbol.square, size=0.1, symbolattrs=[RED]), S.line([GREEN]), S.impulses([BLUE], frompathattrs=[color.rgb(1, 1, 0)], fromvalue=G_.dy(start))])
    marks = G_.marks()
    # symbols
    good = [G_.pt(v) for v in vs if v is not None and ok(v)]
    got = [centre(m) for m in by(marks, RED)]
    require(len(got) == len(good) and all(near(p, q) for p, q in zip(got, good)), "symbols at %s instead of %s", show([got]), show([good]))
    # line
    lm = by(marks, GREEN)
    require(len(lm) <= 1, "the line is drawn by %d strokes", len(lm))
    want = tidy([[G_.pt(v) for v in l] for l in polylines(vs)])
    got = tidy([l for m in lm for l in pathlines(m.path)])
    samelines(got, want, "line through %s" % word)
    # impulses
    base = G_.fy(start)
    want = tidy([[G_.pt((v[0], base)), G_.pt(v)] for v in vs if v is not None and ok(v)])
    got = tidy([l for m in by(marks, BLUE) for l in pathlines(m.path)])
    samelines(got, want, "impulses to %s" % word)
    frm = [l for m in by(marks, color.rgb(1, 1, 0)) for l in pathlines(m.path)]
    samelines(frm, [[G_.pt((0, base)), G_.pt((1, base))]], "line of the value where impulses start")
    require(len(marks) == len(by(marks, RED))+len(lm)+len(by(marks, BLUE))+1, "%d marks", len(marks))
    return len(good), len(want)


# ------------------------------------------------- in three dimensions
A3 = {"a": (2, 3, 4), "b": (8, 6, 1), "f": (10, 5, 5), "O": (13, 4, 6), "P": (5, -4, 2), "Q": (3, 2, 14), "U": (-3, 12, 11), "x": (None, 1, 1), "z": (1, 2, None)}


def g3(proj):
    P = graph.graphxyz.parallel(40, 25) if proj == "parallel" else graph.graphxyz.central(8, -35, 30)
    engine()
    return graph.graphxyz(xpos=1, ypos=-2, size=4, projector=P, x=lin(0, 10), y=lin(0, 10), z=lin(0, 10), x2=None, y2=None, z2=None)


def gen_3d(n):
    def gen():
        for p in ("parallel", "central"):
            for l in range(1, n+1):
                for s in itertools.product(A3, repeat=l):
                    yield [p, "".join(s)]
    return gen


def run_3d(case):
    proj, word = case
    g = g3(proj)
    data = [A3[ch] for ch in word]
    vs = [tuple(c/10 for c in d) if None not in d else None for d in data]
    S = graph.style
    g.plot(graph.data.values(x=[d[0] for d in data], y=[d[1] for d in data], z=[d[2] for d in data]),
           [S.symbol(S.symbol.circle, size=0.1, symbolattrs=[RED]), S.line([GREEN]), S.impulses([BLUE], fromvalue=3, frompathattrs=None, valueaxisindex=2)])
    marks = graphs.draw(g)[0]
    pt = lambda v: g.vpos_pt(*v)
    good = [pt(v) for v in vs if v is not None and ok(v)]
    got = [centre(m) for m in by(marks, RED)]
    require(len(got) == len(good) and all(near(p, q, 0.01) for p, q in zip(got, good)), "symbols at %s instead of %s", show([got]), show([good]))
    want = tidy([[pt(v) for v in l] for l in polylines(vs)])
    samelines(tidy([l for m in by(marks, GREEN) for l in pathlines(m.path)]), want, "line through %s" % word)
    want = tidy([[pt(v[:2]+(0.3,)), pt(v)] for v in vs if v is not None and ok(v)])
    samelines(tidy([l for m in by(marks, BLUE) for l in pathlines(m.path)]), want, "impulses to %s" % word)
    return len(good), len(want)


# ------------------------------------------------- error bars
POSX = [2.5, 10.0, 12.5, -1.5, None]
FORMS = {
    "none": [], "minmax": ["min", "max"], "min": ["min"], "max": ["max"], "d": ["d"], "dmin": ["dmin"], "dmax": ["dmax"], "dminmax": ["dmin", "dmax"], "mindmax": ["min", "dmax"],
}
RANGE = {"min": [1.0, -3.0, None, 11.0], "max": [4.5, 14.0, None, -0.5], "d": [0.75, 11.0, None], "dmin": [1.25, 7.0, None], "dmax": [0.5, 9.0, None]}


def combos(form, full):
    """(position, {key: value}) of one dimension on a range from 0 to 10"""
    keys = FORMS[form]
    pos = POSX if full else [2.5, 12.5, None]
    for p in pos:
        for vals in itertools.product(*[RANGE[k] if full else RANGE[k][:2]+[None] for k in keys]):
            yield p, dict(zip(keys, vals))


def interval(p, d):
    """(low, high, low is a range end, high is a range end), None when unknown"""
    lo, hi, a, b = p, p, False, False
    def num(*l):
        return None not in l
    if "min" in d:
        lo, a = (d["min"], True) if num(d["min"]) else (p, False)
    for k in ("d", "dmin"):
        if k in d:
            lo, a = (p-d[k], True) if num(p, d[k]) else (p, False)
    if "max" in d:
        hi, b = (d["max"], True) if num(d["max"]) else (p, False)
    for k in ("d", "dmax"):
        if k in d:
            hi, b = (p+d[k], True) if num(p, d[k]) else (p, False)
    if not a and not b or lo is None or hi is None:
        return None
    return lo, hi, a, b


def gen_errors():
    for kind in ("xy", "reverse", "flipped", "second"):
        for fx in FORMS:
            for fy in FORMS:
                if fx == fy == "none":
                    continue
                for withx in ([1, 0] if fx == "minmax" else [1]):
                    for withy in ([1, 0] if fy == "minmax" else [1]):
                        yield [kind, fx, fy, withx, withy]


def ycol(y):
    return None if y is None else 0.4*y-2


def run_errors(case):
    kind, fx, fy, withx, withy = case
    G_ = G(kind)
    rows = []
    full = fx == "none" or fy == "none" or fx == fy
    for (px, dx), (py, dy) in itertools.product(combos(fx, full and fy == "none" or fx == fy == "minmax"), combos(fy, full and fx == "none")):
        if not withx:
            if px != POSX[0]:
                continue
            px = None
        if not withy:
            if py != POSX[0]:
                continue
            py = None
        rows.append((px, dx, py, dy))
    def name(ax, k):
        return {"min": ax+"min", "max": ax+"max", "d": "d"+ax, "dmin": "d"+ax+"min", "dmax": "d"+ax+"max"}[k]
    cols = {}
    if withx:
        cols[G_.x] = [r[0] for r in rows]
    if withy:
        cols[G_.y] = [ycol(r[2]) for r in rows]
    for k in FORMS[fx]:
        cols[name(G_.x, k)] = [r[1][k] for r in rows]
    for k in FORMS[fy]:
        cols[name(G_.y, k)] = [None if r[3][k] is None else ycol(r[3][k]) if k in ("min", "max") else 0.4*r[3][k] for r in rows]
    G_.g.plot(graph.data.values(**cols), [graph.style.errorbar(size=0.3)])
    got = [l for m in G_.marks() for l in pathlines(m.path)]
    want = []
    for px, dx, py, dy in rows:
        iv = [interval(px, dx), interval(py, dy)]
        pos = [px, py]
        for i in (0, 1):
            o = pos[1-i]
            if o is None or not 0 <= o <= 10 or iv[i] is None:
                continue
            lo, hi, a, b = iv[i]
            if lo > hi:
                lo, hi, a, b = hi, lo, b, a
            if lo > 10 or hi < 0:
                continue
            if lo < 0:
                lo, a = 0, False
            if hi > 10:
                hi, b = 10, False
            def P(u):
                c = (u, o) if i == 0 else (o, u)
                return G_.pt(G_.v(c[0], ycol(c[1])))
            if hi > lo:
                want.append([P(lo), P(hi)])
            for u, cap in ((lo, a), (hi, b)):
                if cap:
                    x, y = P(u)
                    h = 0.15*CM
                    if (i == 0) != G_.flipped:
                        want.append([(x, y-h), (x, y+h)])
                    else:
                        want.append([(x-h, y), (x+h, y)])
    samelines(tidy(got), tidy(want), "error bars %s %s" % (fx, fy))
    return len(want)


# ------------------------------------------------- histograms
BINS = {"p": 3.0, "q": 7.5, "m": -4.0, "s": -1.5, "T": 14.0, "B": -13.0, "0": 0.0, "f": 1.0, "-": None}
HFROM = {"zero": 0, "one": 1.0, "low": -20, "none": None}


def gen_hist(kindlist, n, froms, alpha):
    def gen():
        for kind in kindlist:
            for steps in (0, 1):
                for fill in (0, 1):
                    for frm in froms:
                        for gaps in ("no", "gap", "out"):
                            for l in range(1, n+1):
                                for s in itertools.product(alpha, repeat=l):
                                    yield [kind, steps, fill, frm, gaps, "".join(s)]
    return gen


def union(segs):
    """merge axis parallel segments on the same line; zero lengths are dropped"""
    lines = {}
    for p, q in segs:
        if abs(p[0]-q[0]) < 1e-3:
            k, a, b = ("v", round(p[0], 2)), p[1], q[1]
        else:
            require(abs(p[1]-q[1]) < 1e-3, "a slanted line from %r to %r is part of the histogram", p, q)
            k, a, b = ("h", round(p[1], 2)), p[0], q[0]
        if abs(a-b) > 1e-3:
            # neighbouring keys by rounding
            for dk in (0, 0.01, -0.01):
                if (k[0], round(k[1]+dk, 2)) in lines:
                    k = (k[0], round(k[1]+dk, 2))
                    break
            lines.setdefault(k, []).append((min(a, b), max(a, b)))
    out = {}
    for k, l in lines.items():
        l.sort()
        m = [list(l[0])]
        for a, b in l[1:]:
            if a <= m[-1][1]+1e-3:
                m[-1][1] = max(m[-1][1], b)
            else:
                m.append([a, b])
        out[k] = m
    return out


def sameunion(got, want, what):
    def close(l, m):
        return len(l) == len(m) and all(abs(x-y) < 5e-3 for a, b in zip(l, m) for x, y in zip(a, b))
    def find(d, k):
        for dk in (0, 0.01, -0.01):
            n = (k[0], round(k[1]+dk, 2))
            if n in d:
                return d[n]
        return []
    for k in want:
        require(close(find(got, k), want[k]), "%s: on the %s line at %g the intervals %r are drawn instead of %r", what, k[0], k[1], find(got, k), want[k])
    for k in got:
        require(find(want, k), "%s: additional lines %r on the %s line at %g", what, got[k], k[0], k[1])


def inside(lines, p):
    n = 0
    for l in lines:
        for (x1, y1), (x2, y2) in zip(l, l[1:]+l[:1]):
            if (y1 <= p[1]) != (y2 <= p[1]):
                if x1+(p[1]-y1)*(x2-x1)/(y2-y1) > p[0]:
                    n += 1 if y2 > y1 else -1
    return n != 0


def run_hist(case):
    kind, steps, fill, frm, gaps, word = case
    G_ = G(kind)
    ax, vx = G_.x, G_.y
    edges, e = [], {"no": 1.0, "gap": 0.5, "out": -1.5}[gaps]
    for i in range(len(word)):
        w = 2.0 if gaps != "out" or i < 1 else 7.0
        edges.append((e, e+w))
        e += w+(0.5 if gaps == "gap" and i != 1 else 0)
    vals = [BINS[c] for c in word]
    base = HFROM[frm]
    sc = lambda y: None if y is None else 0.2*y      # values in -10 ... 10 fit
    cols = {ax+"min": [a for a, b in edges], ax+"max": [b for a, b in edges], vx: [sc(v) for v in vals]}
    attrs = [GREEN] if not fill else [deco.filled([RED])]
    G_.g.plot(graph.data.values(**cols), [graph.style.histogram(lineattrs=attrs, steps=steps, fillable=fill, fromvalue=sc(base), frompathattrs=None)])
    marks = G_.marks()
    # reference in graph coordinates, the value axis possibly reversed
    vb = 0.0 if base is None else min(1.0, max(0.0, G_.fy(sc(base))))
    bins = []
    for (a, b), y in zip(edges, vals):
        if y is None:
            bins.append(None)
        else:
            bins.append((G_.fx(a), G_.fx(b), G_.fy(sc(y))))
    want = []
    def h(y, a, b):
        if -EPS <= y <= 1+EPS:
            c = clip((a,), (b,))
            if c:
                want.append((G_.pt((a+c[0]*(b-a), y)), G_.pt((a+c[1]*(b-a), y))))
    def v(x, a, b):
        if -EPS <= x <= 1+EPS:
            c = clip((a,), (b,))
            if c:
                want.append((G_.pt((x, a+c[0]*(b-a))), G_.pt((x, a+c[1]*(b-a)))))
    last = None
    for b in bins+[None]:
        if b is not None:
            h(b[2], b[0], b[1])
        joined = steps and last is not None and b is not None and abs(last[1]-b[0]) < EPS
        if joined:
            v(b[0], last[2], b[2])
        else:
            if last is not None:
                v(last[1], last[2], vb)
            if b is not None:
                v(b[0], vb, b[2])
        TRACE.step((word, b, last))
        last = b
    if not fill:
        require(all(m.op == "stroke" for m in marks) and len(marks) <= 1, "%d marks", len(marks))
        got = union([(p, q) for m in marks for l in pathlines(m.path) for p, q in zip(l, l[1:])])
        sameunion(got, union(want), "histogram %s" % word)
        return len(want)
    # the filled area is the area of the bins
    fills = [m for m in marks if m.op == "fill"]
    strokes = [m for m in marks if m.op == "stroke"]
    require(len(fills) <= 1 and len(strokes) <= 1, "%d fills and %d strokes", len(fills), len(strokes))
    flines = [l for m in fills for l in pathlines(m.path)]
    xs = sorted(set([0.0, 1.0]+[min(1.0, max(0.0, c)) for b in bins if b for c in b[:2]]))
    ys = sorted(set([0.0, 1.0, vb]+[min(1.0, max(0.0, b[2])) for b in bins if b]))
    ys = [-0.2]+ys+[1.2]
    xs = [-0.2]+xs+[1.2]
    for x1, x2 in zip(xs, xs[1:]):
        for y1, y2 in zip(ys, ys[1:]):
            x, y = 0.5*(x1+x2), 0.5*(y1+y2)
            exp = 0 <= x <= 1 and 0 <= y <= 1 and any(b and min(b[:2]) < x < max(b[:2]) and min(b[2], vb) < y < max(b[2], vb) for b in bins)
            r = inside(flines, G_.pt((x, y)))
            require(r == exp, "fillable histogram %s: the point (%g, %g) in graph coordinates is %s", word, x, y, "filled" if r else "not filled")
    for l in flines:
        for p in l:
            v1 = ((p[0]/CM-X0)/W, (p[1]/CM-Y0)/H)
            require(ok(tuple(c if abs(c) < 2 else c for c in v1)) or all(-1e-5 <= c <= 1+1e-5 for c in v1), "the path leaves the graph at %r", v1)
    if not steps and strokes:
        # every edge which is not on a cut border is stroked
        got = union([(p, q) for m in strokes for l in pathlines(m.path) for p, q in zip(l, l[1:])])
        def find(k):
            for dk in (0, 0.01, -0.01):
                n = (k[0], round(k[1]+dk, 2))
                if n in got:
                    return got[n]
            return []
        for k, l in union(want).items():
            for a, b in l:
                require(any(c-5e-3 <= a and b <= d+5e-3 for c, d in find(k)), "fillable histogram %s: the edge from %g to %g on the %s line at %g is not stroked", word, a, b, k[0], k[1])
    return len(want)


def gen_auto():
    for kind in ("xy", "reverse", "flipped"):
        for pointpos in (0.5, 0, 0.25, 1):
            for axisindex in (0, 1):
                for n in (2, 3, 4):
                    for scale in ("set", "auto"):
                        yield [kind, pointpos, axisindex, n, scale]


def run_auto(case):
    kind, pp, ai, n, scale = case
    engine()
    xs = [2.0+1.5*i for i in range(n)]
    vals = [1.0, -0.5, None, 1.5][:n]
    S = graph.style
    rng = dict(min=0, max=10) if scale == "set" else {}
    rev = dict(reverse=1) if kind == "reverse" else {}
    A = axis.lin(painter=None, parter=None, **rng, **rev)
    V = axis.lin(painter=None, parter=None, **(dict(min=-2, max=2) if scale == "set" else {}))
    names = ("x", "y") if ai == 0 else ("y", "x")
    g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, flipped=kind == "flipped", x2=None, y2=None, **{names[0]: A, names[1]: V})
    g.plot(graph.data.values(**{names[0]: xs, names[1]: vals}), [S.histogram(lineattrs=[GREEN], autohistogramaxisindex=ai, autohistogrampointpos=pp, frompathattrs=None)])
    marks = graphs.draw(g)[0]
    lo, hi = (0, 10) if scale == "set" else (xs[0]-pp*1.5, xs[-1]+(1-pp)*1.5)
    real = [v for v in vals if v is not None]+[0]
    vlo, vhi = (-2, 2) if scale == "set" else (min(real), max(real))
    def pt(x, y):
        a, b = (x-lo)/(hi-lo), (y-vlo)/(vhi-vlo)
        if kind == "reverse":
            a = 1-a
        if (ai == 1) != (kind == "flipped"):
            a, b = b, a
        return ((X0+W*a)*CM, (Y0+H*b)*CM)
    want = []
    for x, y in zip(xs, vals):
        if y is None:
            continue
        a, b = x-pp*1.5, x+(1-pp)*1.5
        want += [(pt(a, y), pt(b, y)), (pt(a, 0), pt(a, y)), (pt(b, 0), pt(b, y))]
    got = union([(p, q) for m in marks for l in pathlines(m.path) for p, q in zip(l, l[1:])])
    sameunion(got, union(want), "automatic histogram")
    return len(want)


# ------------------------------------------------- rectangles, arrows, texts
def gen_rect():
    for kind in ("xy", "reverse", "flipped", "log"):
        for cn in ("color", "shade"):
            for axisform in ("auto", "given", "none"):
                for order in range(3):
                    yield [kind, cn, axisform, order]


RECTX = [(1.0, 3.5), (-2.0, 4.0), (6.0, 12.0), (-1.0, 13.0), (11.0, 12.0), (-4.0, -1.0), (None, 3.0), (2.0, None), (0.0, 10.0)]


def run_rect(case):
    kind, cn, axisform, order = case
    G_ = G(kind)
    rows = []
    cs = [0.25, 0.5, None, 1.0, 0.0]
    for i, (x, y) in enumerate(itertools.product(RECTX, RECTX)):
        rows.append((x, y, cs[i % 5]))
    rows = [rows, rows[::-1], rows[1::2]+rows[::2]][order]
    def Y(u):
        return None if u is None else G_.dy(ycol(u))
    kw = {}
    if axisform == "none":
        kw["keygraph"] = None
    lo, hi = 0, 1
    if axisform == "given":
        kw["coloraxis"] = axis.lin(min=-1, max=1.5, painter=None)
        lo, hi = -1, 1.5
    cols = {"xmin": [r[0][0] for r in rows], "xmax": [r[0][1] for r in rows], "ymin": [Y(r[1][0]) for r in rows], "ymax": [Y(r[1][1]) for r in rows], cn: [r[2] for r in rows]}
    G_.g.plot(graph.data.values(**cols), [graph.style.rect(colorname=cn, gradient=color.gradient.Gray if cn == "color" else color.gradient.ReverseGray, **kw)])
    marks = [m for m in G_.marks() if m.op == "fill"]
    want = []
    for x, y, c in rows:
        if c is None or None in x or None in y:
            continue
        def cut(iv):
            a, b = max(0, iv[0]), min(10, iv[1])
            return (a, b) if a < b else None
        cx, cy = cut(x), cut(y)
        if cx and cy:
            t = (c-lo)/(hi-lo)
            want.append((G_.pt(G_.v(cx[0], ycol(cy[0]))), G_.pt(G_.v(cx[1], ycol(cy[1]))), (color.gradient.Gray if cn == "color" else color.gradient.ReverseGray).getcolor(t).g))
    require(len(marks) == len(want), "%d rectangles instead of %d", len(marks), len(want))
    for m, (p, q, c) in zip(marks, want):
        l = pathlines(m.path)
        require(len(l) == 1 and len(l[0]) == 5, "a rectangle is %s", show(l))
        pts = l[0]
        box = (min(x for x, y in pts), min(y for x, y in pts), max(x for x, y in pts), max(y for x, y in pts))
        ref = (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
        require(all(abs(a-b) < 5e-3 for a, b in zip(box, ref)), "rectangle %r instead of %r", box, ref)
        require(abs(M.torgb(m.color)[0]-c) < 1e-4, "rectangle of gray %r instead of %g", m.color, c)
    return len(want)


def gen_arrow():
    for kind in ("xy", "reverse", "log", "flipped"):
        for pos in (0.5, 0, 1, 0.3):
            for dec in (0, 1):
                for length in (0.25, 0.6):
                    yield [kind, pos, dec, length]


def run_arrow(case):
    kind, pos, dec, length = case
    G_ = G(kind)
    rows = []
    for p in ((3.0, 0.7), (10.0, 2.0), (12.0, 0.1), (None, 1.0), (4.0, None), (7.0, -5.0)):
        for a in (0.0, 30, -110.5, 270, None):
            for s in (1, 0.4, 0, -1, None, 2.5):
                rows.append((p, a, s))
    cols = {G_.x: [value(G_.dx, r[0][0]) for r in rows], G_.y: [value(G_.dy, r[0][1]) for r in rows], "angle": [r[1] for r in rows], "size": [r[2] for r in rows]}
    G_.g.plot(graph.data.values(**cols), [graph.style.arrow(linelength=length, arrowsize=0.1, lineattrs=[RED], arrowattrs=[BLUE], arrowpos=pos, **({} if dec else dict(decorator=None)))])
    marks = G_.marks()
    want = []
    for (x, y), a, s in rows:
        if x is None or y is None or a is None or not s or s < 0:
            continue
        v = G_.v(x, y)
        if not ok(v):
            continue
        px, py = G_.pt(v)
        c, d = math.cos(math.radians(a)), math.sin(math.radians(a))
        L = length*s*CM
        want.append(((px-pos*c*L, py-pos*d*L), (px+(1-pos)*c*L, py+(1-pos)*d*L), s))
    lines = [m for m in by(marks, RED) if m.op == "stroke"]
    require(len(lines) == len(want), "%d arrows instead of %d", len(lines), len(want))
    heads = [m for m in by(marks, BLUE) if m.op == "fill"]
    require(len(heads) == (len(want) if dec else 0), "%d arrow heads for %d arrows", len(heads), len(want))
    for i, (m, (p, q, s)) in enumerate(zip(lines, want)):
        l = pathlines(m.path)
        require(len(l) == 1 and len(l[0]) == 2, "the arrow is %s", show(l))
        a, b = l[0]
        require(near(a, p, 5e-3), "the arrow starts at %r instead of %r", a, p)
        if dec:
            # the line ends within the head on the way to the tip
            u = ((q[0]-p[0])/math.dist(p, q), (q[1]-p[1])/math.dist(p, q))
            t = (b[0]-p[0])*u[0]+(b[1]-p[1])*u[1]
            off = abs((b[0]-p[0])*u[1]-(b[1]-p[1])*u[0])
            require(off < 1e-2 and math.dist(p, q)-0.1*s*CM-1e-2 < t < math.dist(p, q)+1e-2, "the arrow to %r ends at %r", q, b)
            pts = [c for closed, segs in heads[i].path for sg in segs for c in sg]
            require(any(near(c, q, 2e-2) for c in pts), "the head of the arrow to %r is at %r", q, pts)
            ext = max(math.dist(c, q) for c in pts)
            require(ext < 0.1*s*CM+0.05, "the head of the arrow has size %g instead of %g", ext, 0.1*s*CM)
        else:
            require(near(b, q, 5e-3), "the arrow ends at %r instead of %r", b, q)
    return len(want)


def gen_text():
    for kind in ("xy", "reverse", "flipped", "log"):
        for mode in range(5):
            yield [kind, mode]


def run_text(case):
    kind, mode = case
    G_ = G(kind)
    rows = []
    for p in ((3.0, 0.7), (10.0, 2.0), (12.0, 0.1), (None, 1.0), (4.0, None), (7.0, -5.0)):
        for t in ("abc", 7, 2.5, ""):
            for d in ((0, 0), (1, -2), (-0.5, 3)):
                rows.append((p, t, d))
    kw = [{}, dict(textdx=0.7, textdy=-0.4), dict(dxname="p"), dict(dyname="q", dyunit=0.15, textdx=-1), dict(dxname="p", dyname="q", dxunit=0.5, dyunit=1, textname="s")][mode]
    tn = kw.get("textname", "text")
    cols = {G_.x: [value(G_.dx, r[0][0]) for r in rows], G_.y: [value(G_.dy, r[0][1]) for r in rows], tn: [r[1] for r in rows], "p": [r[2][0] for r in rows], "q": [r[2][1] for r in rows]}
    G_.g.plot(graph.data.values(**cols), [graph.style.text(**kw)])
    eng = text.defaulttextengine
    marks, labels = graphs.draw(G_.g)
    want = []
    for (x, y), t, d in rows:
        if x is None or y is None or not ok(G_.v(x, y)):
            continue
        px, py = G_.pt(G_.v(x, y))
        dx = d[0]*kw.get("dxunit", 0.3) if "dxname" in kw else kw.get("textdx", 0)
        dy = d[1]*kw.get("dyunit", 0.3) if "dyname" in kw else kw.get("textdy", 0.3)
        want.append((str(t), px+dx*CM, py+dy*CM))
    require(not marks, "additional marks")
    require([l[0] for l in labels] == [w[0] for w in want], "texts %r instead of %r", [l[0] for l in labels], [w[0] for w in want])
    for l, w in zip(eng.labels, want):
        require(near(l.at, w[1:], 5e-3), "text %s at %r instead of %r", w[0], l.at, w[1:])
    return len(want)


# ------------------------------------------------- bars
def gen_bars(n, alpha):
    def gen():
        for flipped in (0, 1):
            for vax in ("xy", "reverse"):
                for frm in (None, 0, 0.5, -30):
                    for l in range(1, n+1):
                        for s in itertools.product(alpha, repeat=l):
                            yield [flipped, vax, frm, "".join(s)]
    return gen


def boxof(m):
    pts = [p for l in pathlines(m.path) for p in l]
    return (min(x for x, y in pts), min(y for x, y in pts), max(x for x, y in pts), max(y for x, y in pts))


def bargraph(flipped, vax, nested=False, swap=False):
    engine()
    B = axis.nestedbar(painter=None) if nested else axis.bar(painter=None)
    V = axis.lin(min=-2, max=2, painter=None, **(dict(reverse=1) if vax == "reverse" else {}))
    kw = dict(x=V, y=B) if swap else dict(x=B, y=V)
    return graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, flipped=bool(flipped), x2=None, y2=None, **kw)


def fv(vax):
    return (lambda y: 1-(0.2*y+2)/4) if vax == "reverse" else (lambda y: (0.2*y+2)/4)


def barbox(flipped, a, b, lo, hi):
    """the page box of the bar between a and b along the bar axis, clipped"""
    lo, hi = min(lo, hi), max(lo, hi)
    a, b = min(a, b), max(a, b)
    if lo > 1 or hi < 0:
        return None
    lo, hi = max(0, lo), min(1, hi)
    p, q = ((lo, a), (hi, b)) if flipped else ((a, lo), (b, hi))
    return ((X0+W*p[0])*CM, (Y0+H*p[1])*CM, (X0+W*q[0])*CM, (Y0+H*q[1])*CM)


def comparebars(fills, want, what):
    require(len(fills) == len(want), "%s: %d bars instead of %d", what, len(fills), len(want))
    for m, w in zip(fills, want):
        b = boxof(m)
        require(all(abs(x-y) < 5e-3 for x, y in zip(b, w)), "%s: bar %r instead of %r", what, tuple(round(x, 3) for x in b), tuple(round(x, 3) for x in w))


def run_bars(case):
    flipped, vax, frm, word = case
    names = ["n%d" % i for i in range(len(word))]
    vals = [BINS[c] for c in word]
    f = fv(vax)
    out = []
    for swap in (0, 1):
        g = bargraph(flipped, vax, swap=swap)
        S = graph.style
        key, val = ("yname", "x") if swap else ("xname", "y")
        g.plot(graph.data.values(**{key: names, val: [None if v is None else 0.2*v for v in vals]}),
               [S.barpos(fromvalue=None if frm is None else 0.2*frm, frompathattrs=None), S.bar([RED])])
        marks = [m for m in graphs.draw(g)[0] if m.op == "fill"]
        base = 0 if frm is None else min(1, max(0, f(frm)))
        want = []
        for n, v in zip(names, vals):
            a, b = g.axes[key[0]].convert((n, 0)), g.axes[key[0]].convert((n, 1))
            if v is None:
                continue
            w = barbox(bool(flipped) != bool(swap), a, b, base, f(v))
            if w:
                want.append(w)
        comparebars(marks, want, "bars %s" % word)
        out.append(len(want))
    return out


def gen_stacks(alpha):
    def gen():
        for addontop in (0, 1):
            for vax in ("xy", "reverse"):
                for drawfirst in (1, 0):
                    for s in itertools.product(alpha, repeat=3):
                        yield [addontop, vax, drawfirst, "".join(s)]
    return gen


def gen_stackrange(tier):
    alpha = [3.0, -4.5, 7.25, None] if tier == "quick" else [3.0, -4.5, 7.25, 0.5, -1.25, None]
    for modes in itertools.product((0, 1), repeat=2):
        for order in itertools.permutations("yst"):
            for fromvalue in (0, 2.5, None):
                for s in itertools.product(alpha, repeat=3):
                    yield modes, "".join(order), fromvalue, s


def run_stackrange(case):
    """bars determining the range of the axis are drawn completely"""
    modes, order, fromvalue, word = case
    engine()
    S = graph.style
    g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, x2=None, y2=None, x=axis.bar(painter=None), y=axis.lin(painter=None, parter=None))
    rows = [word, (1.0, 0.75, 1.5), word[::-1]]
    cols = dict(zip("yst", zip(*rows)))
    st = [S.barpos(fromvalue=fromvalue, frompathattrs=None), S.bar([RED])]
    for n, m, c in zip("st", modes, (GREEN, BLUE)):
        st += [S.stackedbarpos(n, addontop=m), S.bar([c])]
    g.plot(graph.data.values(xname=["a", "b", "c"], **{k: list(cols[k]) for k in order}), st)
    values = [] if fromvalue is None else [fromvalue]
    tops = []
    for r in rows:
        level, t = r[0], [r[0]]
        for m, d in zip(modes, r[1:]):
            level = d if not m else None if level is None or d is None else level+d
            t.append(level)
        tops.append(t)
        values += [v for v in t if v is not None]
    marks = graphs.draw(g)[0]
    lo, hi = g.axes["y"].data.min, g.axes["y"].data.max
    require(abs(lo-min(values)) < 1e-9 and abs(hi-max(values)) < 1e-9, "axis range %r to %r for values %r", lo, hi, values)
    f = lambda v: (v-min(values))/(max(values)-min(values))
    for i, c in enumerate((RED, GREEN, BLUE)):
        want = []
        for n, t in zip("abc", tops):
            a, b = g.axes["x"].convert((n, 0)), g.axes["x"].convert((n, 1))
            prev = 0 if i == 0 and fromvalue is None else f(fromvalue) if i == 0 else None if t[i-1] is None else f(t[i-1])
            if prev is not None and t[i] is not None:
                want.append(barbox(False, a, b, prev, f(t[i])))
        comparebars(by(marks, c), want, "level %d" % i)
    return (min(values), max(values))


def run_stacks(case):
    addontop, vax, drawfirst, word = case
    f = fv(vax)
    g = bargraph(0, vax)
    S = graph.style
    rows = [[BINS[c] for c in word], [2.0, 4.0, 1.5], [BINS[c] for c in word[::-1]]]
    sc = lambda v: None if v is None else 0.2*v
    data = graph.data.values(xname=["a", "b", "c"], y=[sc(r[0]) for r in rows], s=[sc(r[1]) for r in rows], t=[sc(r[2]) for r in rows])
    st = [S.barpos(fromvalue=0, frompathattrs=None)]+([S.bar([RED])] if drawfirst else [])+[S.stackedbarpos("s", addontop=addontop), S.bar([GREEN]), S.stackedbarpos("t", addontop=addontop), S.bar([BLUE]), S.symbol(S.symbol.circle, symbolattrs=[color.rgb(1, 1, 0)])]
    g.plot(data, st)
    marks = graphs.draw(g)[0]
    want = [[], [], []]
    sym = []
    for n, r in zip("abc", rows):
        a, b = g.axes["x"].convert((n, 0)), g.axes["x"].convert((n, 1))
        level, prev = r[0], f(0)
        tops = [r[0]]
        for d in r[1:]:
            if addontop:
                level = None if level is None or d is None else level+d
            else:
                level = d
            tops.append(level)
        for i, t in enumerate(tops):
            cur = None if t is None else f(t)
            if prev is not None and cur is not None:
                w = barbox(False, a, b, prev, cur)
                if w:
                    want[i].append(w)
            prev = cur
        if prev is not None and ok((prev,)):
            sym.append(((X0+W*0.5*(a+b))*CM, (Y0+H*prev)*CM))
        TRACE.step((word, n, tuple(tops)))
    for i, c in enumerate((RED, GREEN, BLUE)):
        if i == 0 and not drawfirst:
            require(not by(marks, RED), "a bar without style is drawn")
            continue
        comparebars([m for m in by(marks, c) if m.op == "fill"], want[i], "stacked bars %s level %d" % (word, i))
    got = [centre(m) for m in by(marks, color.rgb(1, 1, 0))]
    require(len(got) == len(sym) and all(near(p, q, 5e-3) for p, q in zip(got, sym)), "symbols on the bars at %s instead of %s", show([got]), show([sym]))
    return [len(w) for w in want]


def gen_nested():
    for flipped in (0, 1):
        for nplots in (1, 2, 3):
            for change in (0, 1):
                for word in itertools.product("pmT-", repeat=2):
                    yield [flipped, nplots, change, "".join(word)]


def run_nested(case):
    flipped, nplots, change, word = case
    g = bargraph(flipped, "xy", nested=True)
    f = fv("xy")
    S = graph.style
    names = ["A", "B"]
    vals = [[BINS[c] if BINS[c] is None else BINS[c]+0.5*i for c in word] for i in range(nplots)]
    st = [S.barpos(fromvalue=0, frompathattrs=None), S.bar([attr.changelist([RED, GREEN, BLUE]) if change else RED])]
    data = [graph.data.values(xname=[(n, i) for n in names], y=[None if v is None else 0.2*v for v in vs]) for i, vs in enumerate(vals)]
    g.plot(data, st)
    marks = [m for m in graphs.draw(g)[0] if m.op == "fill"]
    k = 0
    total = 0
    for i, vs in enumerate(vals):
        want = []
        for n, v in zip(names, vs):
            a, b = g.axes["x"].convert((n, (i, 0))), g.axes["x"].convert((n, (i, 1)))
            if v is None:
                continue
            w = barbox(bool(flipped), a, b, f(0), f(v))
            if w:
                want.append(w)
        comparebars(marks[k:k+len(want)], want, "bars of plot %d" % i)
        c = [RED, GREEN, BLUE][i] if change else RED
        require(len(by(marks[k:k+len(want)], c)) == len(want), "the bars of plot %d have the wrong colour", i)
        k += len(want)
        total += len(want)
    require(k == len(marks), "%d additional bars", len(marks)-k)
    return total


def gen_changebar():
    for n in (1, 2, 3, 4):
        for s in itertools.product("pmT-", repeat=n):
            yield ["".join(s)]


def run_changebar(case):
    word, = case
    g = bargraph(0, "xy")
    S = graph.style
    cyc = [RED, GREEN, BLUE]
    vals = [BINS[c] for c in word]
    g.plot(graph.data.values(xname=list(range(len(word))), y=[None if v is None else 0.2*v for v in vals]), [S.barpos(fromvalue=0, frompathattrs=None), S.changebar([attr.changelist(cyc)])])
    marks = [m for m in graphs.draw(g)[0] if m.op == "fill"]
    f = fv("xy")
    want, cols = [], []
    for i, v in enumerate(vals):
        a, b = g.axes["x"].convert((i, 0)), g.axes["x"].convert((i, 1))
        if v is not None:
            w = barbox(False, a, b, f(0), f(v))
            if w:
                want.append(w)
                cols.append(cyc[i % 3])
    comparebars(marks, want, "changing bars %s" % word)
    for m, c in zip(marks, cols):
        require(by([m], c), "colour %r of a bar instead of %r", m.color, c)
    return len(want)


# ------------------------------------------------- grid, surface, density
NODES = "oOm"        # o: valid, O: out of range, m: missing position


def gen_grid(rows, cols, alpha):
    def gen():
        for order in (0, 1):
            for word in itertools.product(alpha, repeat=rows*cols):
                yield [order, rows, cols, "".join(word)]
    return gen


def nodes(order, rows, cols, word):
    """(i, j, code) in the order plotted"""
    l = [(i, j, word[i*cols+j]) for i in range(rows) for j in range(cols)]
    return l if not order else sorted(l, key=lambda n: (-n[1], (n[0]*2) % 3))


U1, U2 = [0.1, 0.45, 0.8, 0.9], [0.2, 0.5, 0.95]


def zval(i, j, code):
    return 1.7 if code == "O" else 0.3+0.13*i+0.21*j-0.08*i*j


def run_grid(case):
    order, rows, cols, word = case
    g = g3("parallel")
    g.plot(graph.data.points([(10*U1[i], 10*U2[j], None if c == "m" else 10*zval(i, j, c)) for i, j, c in nodes(order, rows, cols, word) if c != "-"], x=1, y=2, z=3),
           [graph.style.grid(gridattrs=[RED])])
    marks = graphs.draw(g)[0]
    def V(i, j):
        c = word[i*cols+j]
        return None if c in "m-" else (U1[i], U2[j], zval(i, j, c))
    want = []
    usedi = [i for i in range(rows) if any(word[i*cols+j] not in "m-" for j in range(cols))]
    usedj = [j for j in range(cols) if any(word[i*cols+j] not in "m-" for i in range(rows))]
    for j in usedj:
        want += polylines([V(i, j) for i in usedi])
    for i in usedi:
        want += polylines([V(i, j) for j in usedj])
    want = tidy([[g.vpos_pt(*v) for v in l] for l in want])
    samelines(tidy([l for m in marks for l in pathlines(m.path)]), want, "grid %s" % word)
    return len(want)


def decode(m):
    """triangles of a mesh as ((corners), (colours))"""
    d = m.shading
    dec = [float(x) for x in d["Decode"]]
    n = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[str(d["ColorSpace"])]
    data, rec = m.data, 7+n
    require(len(data) % (3*rec) == 0, "mesh of %d bytes", len(data))
    out = []
    for k in range(0, len(data), 3*rec):
        tri = []
        for v in range(3):
            r = data[k+v*rec:k+(v+1)*rec]
            require(r[0] == 0, "edge flag %d", r[0])
            x = dec[0]+int.from_bytes(r[1:4], "big")/(2**24-1)*(dec[1]-dec[0])
            y = dec[2]+int.from_bytes(r[4:7], "big")/(2**24-1)*(dec[3]-dec[2])
            tri.append(((x, y), tuple(b/255 for b in r[7:])))
        out.append(tri)
    return out


def gen_surface(views, rows, cols, bad):
    def gen():
        for view in views:
            for col in ("color", "none"):
                for order in (0, 1):
                    for k in range(bad+1):
                        for at_ in itertools.combinations(range(rows*cols), k):
                            for cs in itertools.product("Omc" if col == "color" else "Om", repeat=k):
                                word = ["o"]*(rows*cols)
                                for a, c in zip(at_, cs):
                                    word[a] = c
                                yield [view, col, order, rows, cols, "".join(word)]
    return gen


def cval(i, j):
    return 0.15+0.1*i+0.2*j+0.03*i*j


def run_surface(case):
    view, col, order, rows, cols, word = case
    engine()
    P = graph.graphxyz.parallel([40, 140, 220, -50][view], 35)
    g = graph.graphxyz(xpos=1, ypos=-2, size=4, projector=P, x=lin(0, 10), y=lin(0, 10), z=lin(0, 10), x2=None, y2=None, z2=None)
    ns = nodes(order, rows, cols, word)
    kw = {}
    pts = [(10*U1[i], 10*U2[j], None if c == "m" else 10*zval(i, j, c), None if c == "c" else cval(i, j)) for i, j, c in ns if c != "-"]
    if col == "color":
        kw["color"] = 4
    g.plot(graph.data.points(pts, x=1, y=2, z=3, **kw), [graph.style.surface(backcolor=None, gradient=color.gradient.Gray, keygraph=None, coloraxis=axis.lin(min=0, max=1, painter=None))])
    try:
        marks = graphs.draw(g)[0]
    except ValueError:
        marks = None
    usedi = [i for i in range(rows) if any(word[i*cols+j] not in "m-" for j in range(cols))]
    usedj = [j for j in range(cols) if any(word[i*cols+j] not in "m-" for i in range(rows))]
    cells = {}      # (indices of the rows, indices of the columns)
    for i, j in itertools.product(zip(usedi, usedi[1:]), zip(usedj, usedj[1:])):
        codes = [word[a*cols+b] for a in i for b in j]
        if all(c in "oc" for c in codes) and not (col == "color" and "c" in codes):
            cells[i, j] = True
    if not cells and marks is None:
        return None
    require(marks is not None, "an error instead of a surface of %d cells", len(cells))
    tris = [t for m in marks if m.op == "shade" for t in decode(m)]
    require(len(tris) == 4*len(cells), "%d triangles for %d cells", len(tris), len(cells))
    rest = list(tris)
    for i, j in cells:
        cs = [(U1[a], U2[b], zval(a, b, "o")) for a in i for b in j]
        mid = tuple(sum(c[k] for c in cs)/4 for k in range(3))
        cc = [cval(a, b) for a in i for b in j]
        for a, b in ((0, 1), (1, 3), (3, 2), (2, 0)):
            want = [(g.vpos_pt(*cs[a]), cc[a]), (g.vpos_pt(*cs[b]), cc[b]), (g.vpos_pt(*mid), sum(cc)/4)]
            for t in rest:
                if all(any(near(p, w, 5e-3) and (col == "none" or abs(c[0]-color.gradient.Gray.getcolor(v).g) < 0.0042) for p, c in t) for w, v in want):
                    rest.remove(t)
                    break
            else:
                require(False, "cell %r, %r: no triangle %r with colours %r; drawn: %r", i, j, [tuple(round(x, 1) for x in w) for w, v in want], [round(v, 3) for w, v in want], tris[:4])
    # far cells are painted first
    depth = []
    for t in tris:
        c = [sum(p[k] for p, _ in t)/3 for k in (0, 1)]
        depth.append(c)
    if len(cells) > 1:
        order_ = []
        for k in range(0, len(tris), 4):
            q = tris[k:k+4]
            for i, j in cells:
                cs = [(U1[a], U2[b], zval(a, b, "o")) for a in i for b in j]
                mid = g.vpos_pt(*[sum(c[n] for c in cs)/4 for n in range(3)])
                if all(any(near(p, mid, 5e-3) for p, _ in t) for t in q):
                    order_.append((i, j))
        require(len(order_) == len(cells), "the triangles of a cell are not drawn together")
        z = lambda c: g.vzindex(0.5*(U1[c[0][0]]+U1[c[0][1]]), 0.5*(U2[c[1][0]]+U2[c[1][1]]), 0)
        for a, b in itertools.combinations(order_, 2):
            # along each direction of the grid farther cells come first
            if a[0] == b[0] or a[1] == b[1]:
                require(z(a) >= z(b)-1e-9, "the cell %r in front is painted before the cell %r behind", a, b)
    return len(cells)


def gen_density(rows, cols, alpha):
    def gen():
        for gr in ("Gray", "RedBlue"):
            for order in (0, 1):
                for word in itertools.product(alpha, repeat=rows*cols):
                    yield [gr, order, rows, cols, "".join(word)]
    return gen


def run_density(case):
    gr, order, rows, cols, word = case
    G_ = G("xy")
    ns = nodes(order, rows, cols, word)
    xs = [2.0+3*i for i in range(rows)]
    ys = [-1.0+1.5*j for j in range(cols)]
    grad = getattr(color.gradient, gr)
    pts = []
    for i, j, c in ns:
        if c == "-":
            continue
        pts.append((xs[i] if c != "m" else None, ys[j], None if c == "c" else cval(i, j)))
    usedi = sorted(set(i for i, j, c in ns if c in "oc"))
    usedj = sorted(set(j for i, j, c in ns if c in "oc"))
    G_.g.plot(graph.data.points(pts, x=1, y=2, color=3), [graph.style.density(gradient=grad, keygraph=None, coloraxis=axis.lin(min=0, max=1, painter=None))])
    equi = lambda l: len(l) > 1 and all(b-a == l[1]-l[0] for a, b in zip(l, l[1:]))
    good = equi(usedi) and equi(usedj)
    try:
        marks = G_.marks()
    except ValueError:
        require(not good, "data on a grid are refused")
        return None
    require(good, "data which are not on an equidistant grid are accepted")
    marks = [m for m in marks if m.op == "image"]
    require(len(marks) == 1, "%d images", len(marks))
    m = marks[0]
    require((m.width, m.height) == (len(usedi), len(usedj)), "an image of %d x %d pixels for %d x %d data", m.width, m.height, len(usedi), len(usedj))
    n = len(m.data)//(m.width*m.height)
    for a, i in enumerate(usedi):
        for b, j in enumerate(usedj):
            c = word[i*cols+j]
            # the pixel which covers the position
            v = G_.pt(G_.v(xs[i], ys[j]))
            hit = None
            for px in range(m.width):
                for py in range(m.height):
                    q = core_apply(m.place, ((px+0.5)/1.0, (py+0.5)/1.0), m)
                    if near(q, v, 0.02):
                        hit = (px, py)
            require(hit is not None, "no pixel is centred at datum %d, %d", i, j)
            k = hit[1]*m.width+hit[0]
            pix = [x/255 for x in m.data[k*n:k*n+n]]
            if c == "o":
                require(m.smask is None or m.smask[k] == 255, "the pixel of datum %d, %d is transparent", i, j)
                want = grad.getcolor(cval(i, j))
                want = list(comps(want))
                require(len(pix) == len(want) and all(abs(x-y) < 0.0041 for x, y in zip(pix, want)), "the pixel of datum %d, %d is %r instead of %r", i, j, pix, want)
            else:
                require(m.smask is not None and m.smask[k] == 0, "the pixel of datum %d, %d without value is drawn", i, j)
    require(len(m.clips) >= 1, "the density is not clipped")
    box = [p for closed, segs in m.clips[-1][0] for s in segs for p in s]
    c0, c1 = G_.pt((0, 0)), G_.pt((1, 1))
    require(near((min(p[0] for p in box), min(p[1] for p in box)), c0) and near((max(p[0] for p in box), max(p[1] for p in box)), c1), "the density is clipped to %r", box)
    return word.count("o")


def core_apply(place, p, m):
    """pixel coordinates (rows from the top of the data) to the page"""
    a, b, c, d, e, f = place
    x, y = p
    return (a*x+c*y+e, b*x+d*y+f)


def gen_gradient():
    for direction in ("horizontal", "vertical"):
        for gr in ("Gray", "RedBlue", "Jet"):
            for res in (2, 3, 10, 100):
                yield [direction, gr, res]


def run_gradient(case):
    direction, gr, res = case
    engine()
    g = graph.graphx(xpos=X0, ypos=Y0, length=6, size=0.5, direction=direction, x=axis.lin(min=2, max=4, painter=None))
    grad = getattr(color.gradient, gr)
    g.plot(graph.data.values(x=[2, 3]), [graph.style.gradient(gradient=grad, resolution=res)])
    marks = [m for m in graphs.draw(g)[0] if m.op == "image"]
    require(len(marks) == 1, "%d images", len(marks))
    m = marks[0]
    n = len(m.data)//(m.width*m.height)
    for k in range(res):
        px = (k % m.width+0.5, k//m.width+0.5)
        q = core_apply(m.place, px, m)
        v = ((q[0]/CM-X0) if direction == "horizontal" else (q[1]/CM-Y0))/6
        require(-1e-4 <= v <= 1+1e-4, "pixel %d is centred outside of the axis at %g", k, v)
        w = grad.getcolor(min(1, max(0, v)))
        want = list(comps(w))
        pix = [x/255 for x in m.data[k*n:k*n+n]]
        require(all(abs(x-y) < 0.0042 for x, y in zip(pix, want)), "the colour at %g is %r instead of %r", v, pix, want)
    return res


# ------------------------------------------------- which style for which plot
def gen_cycle(n):
    def gen():
        for l in range(1, n+1):
            for s in itertools.product("ABCD", repeat=l):
                yield ["".join(s)]
    return gen


SYMBOLS = ["cross", "plus", "square", "triangle", "circle", "diamond"]
SYMPOINTS = {"cross": 4, "plus": 4, "square": 4, "triangle": 3, "diamond": 4}


def shape(m):
    curved = any(len(s) > 2 for closed, segs in m.path for s in segs)
    if curved:
        return "circle"
    c = centre(m)
    pts = set((round(p[0]-c[0], 1), round(p[1]-c[1], 1)) for closed, segs in m.path for s in segs for p in s)
    if len(pts) == 3:
        return "triangle"
    diag = all(abs(p[0]) > 0.3 and abs(p[1]) > 0.3 for p in pts)
    closed = any(c for c, segs in m.path)
    if diag:
        return "square" if closed else "cross"
    return "diamond" if closed else "plus"


def run_cycle(case):
    word, = case
    G_ = G("xy")
    S = graph.style
    styles = {
        "A": [S.line([RED])],
        "B": [S.symbol(size=0.3, symbolattrs=[GREEN])],
        "C": [S.line([color.gradient.RedBlue, attr.changelist([style.linewidth.thin, style.linewidth.THick])])],
        "D": [S.symbol(S.symbol.changetriangle, size=attr.changelist([0.2, 0.5]), symbolattrs=[BLUE, deco.stroked.clear, S.symbol.changefilledstroked])],
    }
    for i, ch in enumerate(word):
        G_.g.plot(graph.data.values(x=[1.0+i, 2.0+i], y=[0.1*i, 0.1*i]), styles[ch])
    marks = G_.marks()
    k = 0
    count = dict((c, word.count(c)) for c in "ABCD")
    seen = dict.fromkeys("ABCD", 0)
    for i, ch in enumerate(word):
        idx = seen[ch]
        seen[ch] += 1
        TRACE.step(tuple(sorted(seen.items())))
        pts = [G_.pt(G_.v(1.0+i, 0.1*i)), G_.pt(G_.v(2.0+i, 0.1*i))]
        if ch in "AC":
            m = marks[k]
            k += 1
            l = pathlines(m.path)
            samelines(l, [pts], "plot %d" % i)
            require(len(m.dash[0]) == len(cyc_dash(idx % 4)), "plot %d (number %d of its style) has the dashes %r", i, idx, m.dash)
            if ch == "A":
                require(by([m], RED), "plot %d has the colour %r", i, m.color)
            else:
                c = color.gradient.RedBlue.getcolor(idx/(count[ch]-1) if count[ch] > 1 else 0)
                require(all(abs(x-y) < 1e-4 for x, y in zip(M.torgb(m.color), comps(c))), "plot %d has the colour %r instead of %r", i, m.color, comps(c))
                require((m.width > 1.2) == (idx % 2 == 1), "plot %d has the line width %g", i, m.width)
        else:
            for p in pts:
                if ch == "B":
                    m = marks[k]
                    k += 1
                    require(m.op == "stroke" and by([m], GREEN), "plot %d is drawn by %r", i, m.op)
                    require(shape(m) == SYMBOLS[idx % 6], "plot %d (number %d) has the symbol %s", i, idx, shape(m))
                else:
                    m = marks[k]
                    k += 1
                    require(m.op == ("fill" if idx % 2 == 0 else "stroke") and by([m], BLUE), "symbol of plot %d: %s", i, m.op)
                    sh = ["triangle", "circle", "diamond", "cross", "plus", "square"][idx % 6]
                    require(shape(m) == sh, "plot %d (number %d) has the symbol %s instead of %s", i, idx, shape(m), sh)
                    b = [q[1] for c_, segs in m.path for s in segs for q in s]
                    big = max(b)-min(b) > 12
                    require(big == (idx % 2 == 1), "plot %d (number %d) has a symbol of height %g", i, idx, max(b)-min(b))
                if shape(m) != "triangle":
                    require(near(centre(m), p, 0.01), "plot %d has a symbol at %r instead of %r", i, centre(m), p)
    require(k == len(marks), "%d additional marks", len(marks)-k)
    return word.count("A"), word.count("B")


def cyc_dash(i):
    return [(), (2,), (0, 2), (0, 2, 2, 2)][i]


# ------------------------------------------------- columns, symbols, ranges
def gen_names():
    for xn in ("x", "u"):
        for yn in ("y", "w"):
            for what in ("line", "impulses", "histogram", "errorbar"):
                for rng in ("auto", "set"):
                    yield [xn, yn, what, rng]


def run_names(case):
    xn, yn, what, rng = case
    engine()
    S = graph.style
    rx = dict(min=0, max=10) if rng == "set" else {}
    ry = dict(min=-2, max=2) if rng == "set" else {}
    g = graph.graphxy(xpos=X0, ypos=Y0, width=W, height=H, x2=None, y2=None, x=axis.lin(painter=None, parter=None, **rx), y=axis.lin(painter=None, parter=None, **ry))
    use = {"x": xn, "y": yn}
    P, R = S.pos(usenames=use), S.range(usenames=use)
    xs, ys = [2.0, 4.0, 6.0], [0.5, -1.0, 1.5]
    cols = {xn: xs, yn: ys}
    st = [P, R]
    if what == "line":
        st = [P, S.line([GREEN])]
        lo, hi, vlo, vhi = 2, 6, -1, 1.5
    elif what == "impulses":
        st = [P, S.impulses([GREEN], frompathattrs=None)]
        lo, hi, vlo, vhi = 2, 6, -1, 1.5
    elif what == "histogram":
        st = [P, R, S.histogram([GREEN], frompathattrs=None)]
        lo, hi, vlo, vhi = 1, 7, -1, 1.5
    else:
        cols["d"+yn] = [0.25, 0.5, 0.75]
        st = [P, R, S.errorbar(errorbarattrs=[GREEN])]
        lo, hi, vlo, vhi = 2, 6, -1.5, 2.25
    if rng == "set":
        lo, hi, vlo, vhi = 0, 10, -2, 2
    g.plot(graph.data.values(**cols), st)
    marks = graphs.draw(g)[0]
    def pt(x, y):
        return ((X0+W*(x-lo)/(hi-lo))*CM, (Y0+H*(y-vlo)/(vhi-vlo))*CM)
    got = [l for m in marks for l in pathlines(m.path)]
    if what == "line":
        samelines(tidy(got), [[pt(x, y) for x, y in zip(xs, ys)]], "line")
    elif what == "impulses":
        samelines(tidy(got), [[pt(x, 0), pt(x, y)] for x, y in zip(xs, ys)], "impulses")
    elif what == "histogram":
        want = []
        for x, y in zip(xs, ys):
            want += [(pt(x-1, y), pt(x+1, y)), (pt(x-1, 0), pt(x-1, y)), (pt(x+1, 0), pt(x+1, y))]
        sameunion(union([(p, q) for l in got for p, q in zip(l, l[1:])]), union(want), "histogram")
    else:
        want = []
        h = 0.05*CM
        for x, y, d in zip(xs, ys, cols["d"+yn]):
            a, b = pt(x, max(y-d, vlo)), pt(x, min(y+d, vhi))
            want.append([a, b])
            for c, s in ((a, y-d >= vlo), (b, y+d <= vhi)):
                if s:
                    want.append([(c[0]-h, c[1]), (c[0]+h, c[1])])
        samelines(tidy(got), want, "error bars")
    return what, rng


def gen_symbols():
    for s in SYMBOLS:
        for size in (0.2, 0.5):
            for mode in ("stroked", "filled", "none"):
                for kind in ("xy", "flipped"):
                    yield [s, size, mode, kind]


def run_symbols(case):
    s, size, mode, kind = case
    G_ = G(kind)
    S = graph.style
    attrs = {"stroked": [RED], "filled": [deco.filled([RED]), deco.stroked.clear], "none": None}[mode]
    G_.g.plot(graph.data.values(x=[3.0, 8.0], y=[0.5, -0.75]), [S.symbol(getattr(S.symbol, s), size=size, symbolattrs=attrs)])
    marks = G_.marks()
    if mode == "none":
        require(not marks, "symbols without attributes are drawn")
        return 0
    require(len(marks) == 2, "%d marks", len(marks))
    for m, p in zip(marks, [(3.0, 0.5), (8.0, -0.75)]):
        require(m.op == {"stroked": "stroke", "filled": "fill"}[mode] and by([m], RED), "%s with colour %r", m.op, m.color)
        q = G_.pt(G_.v(*p))
        pts = [c for closed, segs in m.path for sg in segs for c in sg]
        require(shape(m) == s, "symbol %s instead of %s", shape(m), s)
        if s == "triangle":     # centred at its centre of mass
            u = []
            for c in pts:
                if not any(near(c, d) for d in u):
                    u.append(c)
            c = (sum(p[0] for p in u)/3, sum(p[1] for p in u)/3)
        else:
            c = centre(m)
        require(near(c, q, 0.01), "the symbol is centred at %r instead of %r", c, q)
        # all closed symbols cover the area of a square of the given size
        if s not in ("cross", "plus"):
            poly = M.polyline(m.path[0][1])
            area = abs(sum(a[0]*b[1]-a[1]*b[0] for a, b in zip(poly, poly[1:]+poly[:1])))/2
            require(abs(area-(size*CM)**2) < 0.01*(size*CM)**2, "the symbol has the area %g instead of %g", area, (size*CM)**2)
        else:
            L = max(math.dist(a, b) for a in pts for b in pts)
            require(abs(L-size*CM*2**0.5) < 0.01, "the symbol has the diameter %g instead of %g", L, size*CM*2**0.5)
    return 2


def spaces(tier):
    T = tier == "thorough"
    return [
        Space("lines", gen_lines(["xy"], 4), run_lines, bounds=dict(graph="linear", data=list(ALPHA), length=4)),
        Space("lines-graphs", gen_lines(["flipped", "reverse", "log", "second"], 4 if T else 3), run_lines, bounds=dict(graphs=["flipped", "reverse", "log", "second axes"], data=list(ALPHA), length=4 if T else 3)),
        Space("lines-odd", gen_lines(["xy", "log"], 3, "abLT"+"".join(ODD)), run_lines, bounds=dict(data="abLT"+"".join(ODD), length=3)),
        Space("lines-3d", gen_3d(4 if T else 3), run_3d, bounds=dict(projectors=2, data=list(A3), length=4 if T else 3)),
    ]+([Space("lines-deep", gen_lines(["xy"], 5, "abrLTDx", exact=True), run_lines, bounds=dict(data="abrLTDx", length=5))] if T else [])+[
        Space("errorbars", gen_errors, run_errors, bounds=dict(forms=list(FORMS), graphs=4, positions=POSX, ranges=RANGE), cpu=600),
        Space("histograms", gen_hist(["xy"], 4 if T else 3, HFROM, BINS if T else "pqmTB-"), run_hist, bounds=dict(steps=2, fillable=2, fromvalue=list(HFROM), gaps=3, values=BINS, length=4 if T else 3)),
        Space("histograms-graphs", gen_hist(["flipped", "reverse"], 2, HFROM, BINS), run_hist, bounds=dict(length=2, values=BINS)),
        Space("histograms-auto", gen_auto, run_auto, bounds=dict(positions=4, axes=2, length="2..4")),
        Space("rects", gen_rect, run_rect, bounds=dict(intervals=RECTX, colours=5, axes=3, orders=3)),
        Space("arrows", gen_arrow, run_arrow, bounds=dict(positions=6, angles=5, sizes=6, arrowpos=4)),
        Space("texts", gen_text, run_text, bounds=dict(positions=6, texts=4, shifts=3, modes=5)),
        Space("bars", gen_bars(4 if T else 3, "pqmTB-"), run_bars, bounds=dict(flipped=2, axes=2, fromvalue=4, values="pqmTB-", length=4 if T else 3)),
        Space("bars-stacked-range", lambda: gen_stackrange(tier), run_stackrange, bounds=dict(levels=3, columnorders=6, fromvalues=3)),
        Space("bars-stacked", gen_stacks("pmTB-0"), run_stacks, bounds=dict(addontop=2, first=2, values="pmTB-0", levels=3)),
        Space("bars-nested", gen_nested, run_nested, bounds=dict(plots="1..3", names=2, values="pmT-")),
        Space("bars-changing", gen_changebar, run_changebar, bounds=dict(bars="1..4", values="pmT-")),
        Space("grids", gen_grid(3, 2, "oOm-"), run_grid, bounds=dict(nodes="3x2", states="valid, out of range, missing, absent", orders=2)),
        Space("surfaces", gen_surface(range(4), 3, 3, 3 if T else 2), run_surface, bounds=dict(views=4, colours=2, orders=2, nodes="3x3", bad=3 if T else 2, states="valid, out of range, missing position, missing colour")),
        Space("densities", gen_density(3, 2, "omc-"), run_density, bounds=dict(gradients=2, orders=2, nodes="3x2")),
        Space("gradients", gen_gradient, run_gradient, bounds=dict(directions=2, gradients=3, resolutions=4)),
        Space("cycling", gen_cycle(7 if T else 5), run_cycle, bounds=dict(styles=4, plots=7 if T else 5)),
        Space("names", gen_names, run_names, bounds=dict(names=4, styles=4, ranges=2)),
        Space("symbols", gen_symbols, run_symbols, bounds=dict(symbols=6, sizes=2, modes=3)),
    ]
