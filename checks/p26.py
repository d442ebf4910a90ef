"""P26: graphs give the same picture for every order of layout calls, with one mapping."""
import itertools, logging, math
from mc import core, graphs, machines
from mc.core import Space, require, close
from pyx import attr, canvas, color, deco, graph, path, style, text, trafo, unit
from pyx.graph import axis
from pyx.graph.axis import painter

logging.getLogger("pyx").setLevel(logging.CRITICAL)

PROPERTY = "P26"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of sequences of public graph calls on real graphs (call-history exploration) compared with the default order, and of graph kinds, sizes, axes and keys compared with the declared mapping"
LEVEL_NOTE = "All call sequences up to the stated depth over the stated alphabet per kind of graph; all combinations of the stated options for the mapping, axes and key spaces. Pictures are the marks of the written PostScript, labels are boxes of a text engine without TeX."
RULE = "A case is one graph with its sequence of calls or its options; non-trivial if the graph was drawn; outcomes are pictures or acceptance patterns."

GOLD = 0.5*(math.sqrt(5)+1)
CM = 72/2.54


def engine():
    e = graphs.Engine()
    text.defaulttextengine = e
    return e


def picture(c):
    marks, labels = graphs.draw(c)
    out = []
    for m in marks:
        pts = tuple(tuple((round(p[0], 2), round(p[1], 2)) for s in sub for p in s) for closed, sub in m.path)
        out.append((m.op, pts, tuple(closed for closed, sub in m.path), m.color, round(getattr(m, "width", 0), 3), str(getattr(m, "dash", ""))))
    return out, sorted((l[0], round(l[1], 2), round(l[2], 2), round(l[3], 2)) for l in labels)


# ------------------------------------------------------------ order of calls
cyc = [style.linestyle.solid, color.gradient.RedBlue]
CONFIGS = {
    "xy": lambda k: graph.graphxy(width=8, key=k, x=axis.lin(min=-1, max=6), y=axis.lin(min=0, max=5, title="Y"), x3=axis.lin(min=0, max=2), backgroundattrs=[deco.filled([color.gray(0.8)])]),
    "auto": lambda k: graph.graphxy(width=8, key=k, y2=axis.lin()),
    "at": lambda k: graph.graphxy(height=4, key=k, x=axis.lin(min=-1, max=6), y=axis.lin(min=0, max=5), y4=axis.log(min=1, max=100), xaxisat=2, yaxisat=3),
    "flipped": lambda k: graph.graphxy(width=6, height=5, flipped=True, key=k, x=axis.lin(min=-1, max=6, painter=painter.regular(gridattrs=[])), y=axis.lin(min=0, max=5), x4=axis.lin(min=1, max=2)),
    "xyz": lambda k: graph.graphxyz(size=4, key=k, x=axis.lin(min=-1, max=6), y=axis.lin(min=0, max=5), z=axis.lin(min=0, max=3), xy12axesat=1),
    "x": lambda k: graph.graphx(length=5, key=k, x=axis.lin(min=-1, max=6, painter=painter.regular(gridattrs=[]))),
}
OPS = ["P", "R", "Cx", "Cy", "L", "B", "A", "S", "D", "I0", "I1", "K", "J0", "F", "Q", "bbox"]


def items(name):
    D = graph.data.values
    if name == "xyz":
        return [D(x=[1, 2, 5], y=[3, 1, 2], z=[1, 2, 2.5], title="a"), D(x=[0, 4], y=[1, 4], z=[0, 3], title=None), D(x=[3, 4.5], y=[1, 4], z=[2, 1], title="c")]
    if name == "x":
        return []       # one dimensional graphs take no data
    return [D(x=[1, 2, 5], y=[3, 1, 2], title="a"), graph.data.function("y(x)=x*x/8", points=4, title="f(x)", min=0, max=5), D(x=[0, 4, 7], y=[1, 4, 6], title=None)]


def styles(name):
    return [graph.style.line([attr.changelist([style.linestyle.solid, style.linestyle.dashed, style.linestyle.dotted]), color.gradient.RedBlue])]


class Run:
    def __init__(self, name):
        engine()
        self.name = name
        self.g = CONFIGS[name](graph.key.key(pos="tl"))
        self.todo = items(name)
        self.styles = styles(name)
        self.done = []          # plot items accepted
        self.before = 0         # accepted before the ranges were fixed
        self.frozen = False
        self.styled = False
        self.refused = 0

    def plot(self):
        d = self.todo[0]
        try:
            self.done.append(self.g.plot(d, self.styles))
        except RuntimeError:
            require(self.styled, "plot refused before the styles were selected")
            self.refused = len(self.todo)
            return
        self.todo.pop(0)
        if not self.frozen:
            self.before += 1

    def step(self, op):
        g = self.g
        if op == "P":
            if self.todo and not self.refused:
                self.plot()
            return
        if op in ("I0", "I1", "J0"):
            i = int(op[1])
            if i >= len(self.done):
                return
            (g.doplotitem if op[0] == "I" else g.dokeyitem)(self.done[i])
            self.frozen = self.styled = True
            return
        if op in ("Cx", "Cy"):
            g.doaxiscreate(op[1] if op[1] in g.axes else "x")
        elif op == "Q":
            if self.name == "auto" and not self.frozen and not self.done:
                return     # there is no range to ask for
            n = len(g.axesnames) if self.name != "x" else 1
            g.pos_pt(*[1.5]*n), g.vpos(*[0.3]*n), g.xgridpath(2), g.axes["x"].basepath(1)
        elif op == "B":
            g.dobackground()
            return
        else:
            {"R": g.doranges, "L": g.dolayout, "A": g.doaxes, "S": g.dostyles, "D": g.doplot, "K": g.dokey, "F": g.finish, "bbox": g.bbox}[op]()
        if op in ("S", "K", "F", "bbox") or op == "D":
            self.styled = True
        self.frozen = self.frozen or not (op == "D" and not self.done)


def freezes(name, op, ndone):
    return op not in ("P", "B") and not (op in ("I0", "J0") and ndone < 1 or op == "I1" and ndone < 2)


cache = {}


def default(name, before, total):
    """the picture when the first plots come first, then the range analysis, then the others"""
    if (name, before, total) not in cache:
        r = Run(name)
        for i in range(before):
            r.plot()
        if total > before:
            r.g.doranges()
            r.frozen = True
        while len(r.done) < total:
            r.plot()
        r.g.finish()
        cache[name, before, total] = picture(r.g)
    return cache[name, before, total]


def gen_orders(names, depth):
    def gen():
        for name in names:
            for n in range(depth+1):
                for seq in itertools.product(OPS, repeat=n):
                    if any(a == b and a != "P" for a, b in zip(seq, seq[1:])) and n > 2:
                        continue
                    ndone = 0
                    ok = True
                    for op in seq:
                        if op == "P":
                            ndone += 1
                            continue
                        # no range is known before data are there
                        if name == "auto" and not ndone and freezes(name, op, ndone):
                            ok = False
                    if ok:
                        yield (name,)+seq
    return gen


def run_orders(case):
    name, seq = case[0], case[1:]
    r = Run(name)
    for op in seq:
        r.step(op)
    while r.todo and not r.refused:
        r.plot()
    got = picture(r.g)
    if not r.frozen:
        r.before = len(r.done)
    want = default(name, r.before, len(r.done))
    require(got[1] == want[1], "labels %s instead of %s", sorted(set(got[1])-set(want[1])), sorted(set(want[1])-set(got[1])))
    a, b = (sorted(x[0], key=repr) if "I1" in seq else x[0] for x in (got, want))
    require(a == b, "the picture differs: %s", next((p for p in itertools.zip_longest(a, b) if p[0] != p[1]), None))
    if name == "x":
        require(picture(r.g) == got, "drawing the graph again differs")
        return core.digest((name, len(seq)))
    try:
        r.g.plot(items(name)[0], r.styles)
    except RuntimeError:
        pass
    else:
        require(False, "a plot is accepted after the graph was drawn")
    require(picture(r.g) == got, "drawing the graph again differs")
    return core.digest((name, len(r.done), r.before, r.refused))


# ------------------------------------------------------------ the mapping
SIZES = {"w": dict(width=7), "h": dict(height=3), "wh": dict(width=7, height=2.5), "wr": dict(width=6, ratio=0.8), "hr": dict(height=3, ratio=2)}
AXES = {"lin": lambda: (axis.lin(min=-2, max=3), lambda x: (x+2)/5, (-1, 0.5, 2)),
        "log": lambda: (axis.log(min=0.1, max=100), lambda x: (math.log10(x)+1)/3, (0.5, 1, 70)),
        "rev": lambda: (axis.lin(min=0, max=8, reverse=1), lambda x: 1-x/8, (1, 3, 7.5))}


def gen_xy():
    for size in SIZES:
        for pos in ((0, 0), (1.5, -2.25)):
            for flipped in (False, True):
                for ax in AXES:
                    for ay in AXES:
                        for at in ("", "x", "y", "xy"):
                            yield size, pos, flipped, ax, ay, at


def pt(l):
    return unit.topt(l)


def ends(p):
    return p.atbegin_pt(), p.atend_pt()


def near(a, b, eps=1e-6):
    return all(abs(x-y) < eps for x, y in zip(a, b))


def run_xy(case):
    size, (xp, yp), flipped, ax, ay, at = case
    e = engine()
    (xa, fx, xs), (ya, fy, ys) = AXES[ax](), AXES[ay]()
    S = SIZES[size]
    ratio = S.get("ratio", GOLD)
    W = S["width"] if "width" in S else S["height"]*ratio
    H = S["height"] if "height" in S else W/ratio
    kw = {}
    if "x" in at:
        kw["xaxisat"] = ys[1]
    if "y" in at:
        kw["yaxisat"] = xs[2]
    g = graph.graphxy(xpos=xp, ypos=yp, flipped=flipped, x=xa, y=ya, **S, **kw)
    x0, y0, w, h = xp*CM, yp*CM, W*CM, H*CM

    def P(vx, vy):
        if flipped:
            vx, vy = vy, vx
        return x0+vx*w, y0+vy*h

    g.dolayout()
    for x in xs:
        for y in ys:
            want = P(fx(x), fy(y))
            require(near(g.pos_pt(x, y), want), "pos_pt(%s, %s) = %s instead of %s", x, y, g.pos_pt(x, y), want)
            require(near([pt(c) for c in g.pos(x, y)], want), "pos")
            require(near(g.pos_pt(x, y, xaxis=g.axes["x"], yaxis=g.axes["y"]), want), "pos_pt with axes")
    for v in (0, 0.3, 1):
        for u in (0, 0.6, 1):
            require(near(g.vpos_pt(v, u), P(v, u)) and near([pt(c) for c in g.vpos(v, u)], P(v, u)), "vpos(%s, %s)", v, u)
            a, b = ends(g.vgeodesic(v, u, 0.2, 0.45))
            require(near(a, P(v, u)) and near(b, P(0.2, 0.45)), "vgeodesic runs from %s to %s", a, b)
            p = path.path(path.moveto_pt(*P(v, u)), g.vgeodesic_el(v, u, 0.2, 0.45))
            require(near(ends(p)[1], P(0.2, 0.45)), "vgeodesic_el")
            for c in (0, 1):
                a, b = ends(g.vcap_pt(c, 7, v, u))
                d = (3.5, 0) if (c == 1) == flipped else (0, 3.5)
                m = P(v, u)
                require(near(sorted([a, b])[0], (m[0]-d[0], m[1]-d[1])) and near(sorted([a, b])[1], (m[0]+d[0], m[1]+d[1])), "error cap %s from %s to %s", c, a, b)
    # the x and y axes with their shortcuts
    # x axis at y=0 of the plot, y axis at x=0; flipped graphs have the x axis at the right
    base = {"x": (lambda v: P(v, 1)) if flipped else (lambda v: P(v, 0)), "y": lambda v: P(0, v)}
    indir = {"x": (-1, 0), "y": (0, 1)} if flipped else {"x": (0, 1), "y": (1, 0)}
    grid = {"x": lambda v: (P(v, 0), P(v, 1)), "y": lambda v: (P(0, v), P(1, v))}
    for n, f, vals in (("x", fx, xs), ("y", fy, ys)):
        A = g.axes[n]
        G = lambda m: getattr(g, n+m)
        for x in vals:
            v = f(x)
            q = base[n](v)
            require(near(G("tickpoint_pt")(x), q) and near(G("vtickpoint_pt")(v), q), "%stickpoint_pt", n)
            require(near([pt(c) for c in G("tickpoint")(x)], q) and near([pt(c) for c in G("vtickpoint")(v)], q), "%svtickpoint(%s) is %s instead of %s", n, v, [pt(c) for c in G("vtickpoint")(v)], q)
            require(near(G("tickdirection")(x), indir[n]) and near(G("vtickdirection")(v), indir[n]), "%stickdirection", n)
            for p in (G("gridpath")(x), G("vgridpath")(v), A.gridpath(x), A.vgridpath(v)):
                a, b = sorted(ends(p))
                c, d = sorted(grid[n](v))
                require(near(a, c) and near(b, d), "grid path of %s runs from %s to %s instead of %s to %s", n, a, b, c, d)
        a, b = ends(G("basepath")(vals[0], vals[2]))
        require(near(a, base[n](f(vals[0]))) and near(b, base[n](f(vals[2]))), "%sbasepath", n)
        a, b = ends(G("vbasepath")(0.1, 0.8))
        require(near(a, base[n](0.1)) and near(b, base[n](0.8)), "%svbasepath", n)
    # what is drawn
    marks, labels = graphs.draw(g)
    lines = []
    for m in marks:
        seg = m.path[0][1]
        lines.append((seg[0][0], seg[-1][-1]))
    def has(a, b):
        return sum(1 for p, q in lines if near(sorted([p, q])[0], sorted([a, b])[0], 1e-3) and near(sorted([p, q])[1], sorted([a, b])[1], 1e-3))
    xbase = [fy(ys[1])] if "x" in at else [0, 1]
    ybase = [fx(xs[2])] if "y" in at else [0, 1]
    for v in xbase:
        require(has(P(0, v), P(1, v)) == 1, "the x axis at %s is drawn %d times", v, has(P(0, v), P(1, v)))
    for v in ybase:
        require(has(P(v, 0), P(v, 1)) == 1, "the y axis at %s is drawn %d times", v, has(P(v, 0), P(v, 1)))
    n = 0
    for p, q in lines:
        on = False
        for v in xbase:
            for s in (p, q):
                a = P(0, v)
                i = 0 if flipped else 1
                on = on or abs(s[i]-a[i]) < 1e-3 and math.dist(p, q) < 20
        for v in ybase:
            for s in (p, q):
                a = P(v, 0)
                i = 1 if flipped else 0
                on = on or abs(s[i]-a[i]) < 1e-3 and math.dist(p, q) < 20
        n += on
    require(n == len(lines)-len(xbase)-len(ybase), "some line is neither a base line nor a tick on one")
    return core.digest((size, flipped, at, len(lines), len(labels)))


# ------------------------------------------------------------ 1d graphs
def gen_x():
    for direction in (None, "vertical", "horizontal"):
        for pos in ((0, 0), (1.5, -2.25)):
            for size in (None, 1.2):
                for ax in AXES:
                    for grid in (0, 1):
                        for extra in ("", "x2", "x3", "x2none"):
                            yield direction, pos, size, ax, grid, extra


def run_x(case):
    direction, (xp, yp), size, ax, grid, extra = case
    engine()
    xa, fx, xs = AXES[ax]()
    if grid:
        xa = xa(painter=painter.regular(gridattrs=[color.rgb.red]))
    kw = {}
    if direction:
        kw["direction"] = direction
    if size:
        kw["size"] = size
    if extra == "x2":
        kw["x2"] = axis.lin(min=0, max=2)
    if extra == "x3":
        kw["x3"] = axis.lin(min=0, max=2)
    if extra == "x2none":
        kw["x2"] = None
    g = graph.graphx(xpos=xp, ypos=yp, length=5, x=xa, **kw)
    vert = direction != "horizontal"
    L, S = 5*CM, (size or 0.5)*CM
    x0, y0 = xp*CM, yp*CM

    def P(v, u=0.5):
        return (x0+u*S, y0+v*L) if vert else (x0+v*L, y0+u*S)

    for x in xs:
        require(near(g.pos_pt(x), P(fx(x))) and near([pt(c) for c in g.pos(x)], P(fx(x))), "pos(%s)", x)
        require(near(g.pos_pt(x, g.axes["x"]), P(fx(x))), "pos with axis")
    for v in (0, 0.3, 1):
        require(near(g.vpos_pt(v), P(v)) and near([pt(c) for c in g.vpos(v)], P(v)), "vpos(%s)", v)
        a, b = ends(g.vgeodesic(v, 0.45))
        require(near(a, P(v)) and near(b, P(0.45)), "vgeodesic")
        p = path.path(path.moveto_pt(*P(v)), g.vgeodesic_el(v, 0.45))
        require(near(ends(p)[1], P(0.45)), "vgeodesic_el")
        a, b = sorted(ends(g.vcap_pt(0, 7, v)))
        m = P(v)
        d = (0, 3.5) if vert else (3.5, 0)
        require(near(a, (m[0]-d[0], m[1]-d[1])) and near(b, (m[0]+d[0], m[1]+d[1])), "cap from %s to %s", a, b)
        a, b = sorted(ends(g.xvgridpath(v)))
        c, d = sorted([P(v, 0), P(v, 1)])
        require(near(a, c) and near(b, d), "grid path from %s to %s instead of %s to %s", a, b, c, d)
    marks, labels = graphs.draw(g)
    main = 1 if vert else 0     # the main axis is right or below
    n = ngrid = 0
    for m in marks:
        seg = m.path[0][1]
        p, q = sorted([seg[0][0], seg[-1][-1]])
        if near(p, P(0, main), 1e-3) and near(q, P(1, main), 1e-3):
            n += 1
        if near(machines.torgb(m.color), (1, 0, 0)):
            v = (p[1]-y0)/L if vert else (p[0]-x0)/L
            c, d = sorted([P(v, 0), P(v, 1)])
            require(near(p, c, 1e-3) and near(q, d, 1e-3), "a grid line is drawn from %s to %s", p, q)
            ngrid += 1
    require(n == 1, "the base line is drawn %d times", n)
    require(bool(ngrid) == bool(grid), "%d grid lines", ngrid)
    require(labels, "no labels")
    return core.digest((len(marks), len(labels), ngrid))


# ------------------------------------------------------------ further axes
def gen_axes():
    for flipped in (False, True):
        for xn in ((), (3,), (4,), (3, 4), (3, 5), (2, 4, 6)):
            for yn in ((), (3,), (2, 3, 4), (5, 3)):
                for dist in (None, 0.3):
                    for at in ("", "x", "none", "none2"):
                        yield flipped, xn, yn, dist, at


def run_axes(case):
    flipped, xn, yn, dist, at = case
    engine()
    kw = {}
    for i, n in enumerate(xn):
        kw["x%d" % n] = axis.lin(min=0, max=10**(i+1), title="t" if i else None)
    for i, n in enumerate(yn):
        kw["y%d" % n] = axis.lin(min=0, max=10**(i+1))
    if dist is not None:
        kw["axesdist"] = dist
    if at == "x":
        kw["xaxisat"] = 1
    if at == "none":
        if 2 not in xn:
            return None
        kw["x"] = None
    if at == "none2":
        if 2 in xn:
            return None
        kw["x2"] = None
    kw.setdefault("x", axis.lin(min=0, max=5))
    g = graph.graphxy(width=6, height=4, flipped=flipped, y=axis.lin(min=0, max=4), **kw)
    g.dolayout()
    d = (0.8 if dist is None else dist)*CM
    w, h = 6*CM, 4*CM
    out = []
    for n, others in (("x", xn), ("y", yn)):
        horizontal = (n == "x") != flipped
        before = {}
        for num in sorted({1, 2}.union(others)):
            name = n if num == 1 else "%s%d" % (n, num)
            if name not in g.axes:
                continue
            marks, labels = graphs.draw(g.axes[name].canvas)
            base = []
            lo, hi = 1e9, -1e9
            i = 1 if horizontal else 0
            for m in marks:
                seg = m.path[0][1]
                p, q = seg[0][0], seg[-1][-1]
                if math.dist(p, q) > 80:
                    base.append((p, q))
                lo, hi = min(lo, p[i], q[i]), max(hi, p[i], q[i])
            for l in labels:
                r = abs(l[1+i]-l[3+i])
                lo, hi = min(lo, l[1+i]-r), max(hi, l[1+i]+r)
            require(len(base) == 1, "%s: %d base lines", name, len(base))
            p, q = sorted(base[0])
            require(near(p[:1] if horizontal else p[1:], (0,), 1e-3) and near(q[:1] if horizontal else q[1:], (w if horizontal else h,), 1e-3), "%s: base line from %s to %s", name, p, q)
            # odd numbers below or left; flipped x axes the other way round
            low = (num % 2 == 1) != (flipped and n == "x")
            level = p[i]
            if num == 1 or not any(k % 2 == num % 2 for k in before):
                want = 0 if low else (h if horizontal else w)
                if at == "x" and name == "x":
                    want = 0.25*(w if flipped else h)
                require(abs(level-want) < 1e-3, "%s is at %s instead of %s", name, level, want)
                if at == "x" and name == "x":
                    # the others are placed as if it were not moved
                    lo, hi, level = (lo-level, hi-level, 0) if low else (lo-level+w, hi-level+w, w)
            else:
                last = before[max(k for k in before if k % 2 == num % 2)]
                want = last[0]-d if low else last[1]+d
                require(abs(level-want) < 1e-2, "%s is at %s instead of %s", name, level, want)
            before[num] = (lo, hi)
            out.append(round(level, 1))
            if len(labels):
                l = [x[1+i] for x in labels]
                if num > 1 or at != "x" or n != "x":
                    require(all(x < level for x in l) if low else all(x > level for x in l), "%s: labels at %s for the base line at %s", name, l, level)
    return core.digest(out)


# ------------------------------------------------------------ three dimensions
def sub(p, q):
    return tuple(a-b for a, b in zip(p, q))


def dot(p, q):
    return sum(a*b for a, b in zip(p, q))


def cross(p, q):
    return (p[1]*q[2]-p[2]*q[1], p[2]*q[0]-p[0]*q[2], p[0]*q[1]-p[1]*q[0])


def unitv(p):
    n = math.sqrt(dot(p, p))
    return tuple(a/n for a in p)


ANGLES = [(-30, 30), (20, 40), (110, 15), (200, 60), (-80, -25), (310, 5)]


def gen_xyz():
    for kind in ("central", "parallel"):
        for phi, theta in ANGLES:
            for scales in ((1, 1, 1/GOLD), (1.2, 0.7, 0.9)):
                for at in (None, 1, 2.5):
                    for pos in ((0, 0), (1.5, -2)):
                        yield kind, phi, theta, scales, at, pos


def run_xyz(case):
    kind, phi, theta, scales, at, pos = case
    engine()
    G = graph.graphxyz
    proj = G.central(6, phi, theta) if kind == "central" else G.parallel(phi, theta)
    (xa, fx, xs), (ya, fy, ys) = AXES["lin"](), AXES["log"]()
    za, fz, zs = axis.lin(min=0, max=4), (lambda z: z/4), (0.5, 1, 3)
    extra = dict(("%s%d" % (n, i), axis.lin(min=0, max=1)) for n in "xy" for i in (3, 4))
    extra.update(("z%d" % i, axis.lin(min=0, max=1)) for i in (2, 3, 4))
    g = G(xpos=pos[0], ypos=pos[1], size=4, xscale=scales[0], yscale=scales[1], zscale=scales[2], projector=proj, x=xa, y=ya, z=za, xy12axesat=at, **extra)
    x0, y0, s = pos[0]*CM, pos[1]*CM, 4*CM
    ph, th = math.radians(phi), math.radians(theta)
    view = (math.cos(ph)*math.cos(th), math.sin(ph)*math.cos(th), math.sin(th))     # towards the viewer
    right = unitv(cross((0, 0, 1), view))
    up = cross(view, right)
    eye = tuple(6*c for c in view)

    def space(*v):
        return tuple(2*k*(c-0.5) for k, c in zip(scales, v))

    def P(*v):
        p = space(*v)
        if kind == "central":
            t = dot(eye, view)/dot(sub(eye, p), view)
            p = tuple(e+t*(c-e) for e, c in zip(eye, p))
        return x0+s*dot(p, right), y0+s*dot(p, up)

    def toviewer(p):
        return unitv(sub(eye, p)) if kind == "central" else view

    g.dolayout()
    cube = list(itertools.product((0, 0.35, 1), repeat=3))
    for v in cube:
        require(near(g.vpos_pt(*v), P(*v), 1e-6), "vpos_pt%s = %s instead of %s", v, g.vpos_pt(*v), P(*v))
        require(near([pt(c) for c in g.vpos(*v)], P(*v)), "vpos")
        a, b = ends(g.vgeodesic(*v, 0.2, 0.45, 0.7))
        require(near(a, P(*v)) and near(b, P(0.2, 0.45, 0.7)), "vgeodesic")
        p = path.path(path.moveto_pt(*P(*v)), g.vgeodesic_el(*v, 0.2, 0.45, 0.7))
        require(near(ends(p)[1], P(0.2, 0.45, 0.7)), "vgeodesic_el")
        for c in range(3):
            e = [0, 0, 0]
            e[c] = 0.5*7/s
            a, b = ends(g.vcap_pt(c, 7, *v))
            require(near(a, P(*[i-j for i, j in zip(v, e)])) and near(b, P(*[i+j for i, j in zip(v, e)])), "vcap_pt")
    # order of depth: nearer points have smaller indices
    order = sorted(cube, key=lambda v: g.vzindex(*v))
    depth = (lambda v: math.dist(space(*v), eye)) if kind == "central" else (lambda v: -dot(space(*v), view))
    for a, b in zip(order, order[1:]):
        require(depth(a) < depth(b)+1e-9, "vzindex puts %s before %s", a, b)
    # |vangle| is the cosine between the ray and the normal, its sign the orientation
    for tri in (((0, 0, 0), (1, 0, 0), (1, 1, 0)), ((0, 0, 1), (0, 1, 1), (1, 1, 1)), ((0, 0, 0), (0, 1, 0), (0, 0, 1)), ((0.2, 0.1, 0.3), (0.7, 0.2, 0.9), (0.4, 1, 0.5))):
        p, q, r = (space(*v) for v in tri)
        n = unitv(cross(sub(q, p), sub(r, p)))
        want = -dot(n, toviewer(p))
        require(close(g.vangle(*tri[0], *tri[1], *tri[2]), want), "vangle is %s instead of %s", g.vangle(*tri[0], *tri[1], *tri[2]), want)
    for x in xs:
        for y in ys:
            for z in zs:
                require(near(g.pos_pt(x, y, z), P(fx(x), fy(y), fz(z))) and near([pt(c) for c in g.pos(x, y, z)], P(fx(x), fy(y), fz(z))), "pos(%s, %s, %s)", x, y, z)

    def visible(dim, side):
        """whether the inner face of the cube is seen"""
        v = [0.5]*3
        v[dim] = side
        n = [0, 0, 0]
        n[dim] = 1-2*side
        return dot(n, toviewer(space(*v))) > 0
    # front: the x axis lies at the end of the y range nearer to the viewer
    yf = 1 if depth((0.5, 1, 0.5)) < depth((0.5, 0, 0.5)) else 0
    xf = 1 if depth((1, 0.5, 0.5)) < depth((0, 0.5, 0.5)) else 0
    zat = 0 if at is None else fz(at)
    place = {"x": (None, yf, zat), "x2": (None, 1-yf, zat), "x3": (None, yf, 1), "x4": (None, 1-yf, 1),
             "y": (xf, None, zat), "y2": (1-xf, None, zat), "y3": (xf, None, 1), "y4": (1-xf, None, 1),
             "z": (0, 0, None), "z2": (1, 0, None), "z3": (0, 1, None), "z4": (1, 1, None)}
    nvis = 0
    for name, at3 in place.items():
        dim = "xyz".index(name[0])
        A = g.axes[name]

        def B(v):
            return [v if c is None else c for c in at3]

        def opposite(v):
            return [v if i == dim else (c if (dim < 2 and i == 2) else 1-c) for i, c in enumerate(B(v))]
        for v in (0, 0.4, 1):
            require(near(A.vtickpoint_pt(v), P(*B(v))), "%s: tick point at %s", name, v)
            a, b = P(*B(v)), P(*opposite(v))
            d = unitv(sub(b, a))
            require(near(A.vtickdirection(v), d), "%s: tick direction %s instead of %s", name, A.vtickdirection(v), d)
            want = []
            for c1, c2 in ((0, 0), (1, 0), (1, 1), (0, 1)):
                c = [c1, c2]
                c.insert(dim, v)
                want.append(P(*c))
            p = A.vgridpath(v).normpath()
            require(len(p.normsubpaths) == 1 and p[0].closed, "grid path")
            got = [s.atbegin_pt() for s in p[0]]
            require(len(got) == 4 and all(any(near(x, y) for y in got) for x in want) and all(min(math.dist(got[i], w) for w in want) < 1e-6 for i in range(4)), "%s: grid path through %s instead of %s", name, got, want)
        a, b = ends(A.vbasepath())
        require(near(a, P(*B(0))) and near(b, P(*B(1))), "%s: base path", name)
        faces = []
        for i in range(3):
            if i != dim:
                side = at3[i]
                if i == 2 and dim < 2 and name in ("x", "x2", "y", "y2"):
                    side = 0
                faces.append(visible(i, side))
        # hidden are edges of which both faces lie behind the data
        require(bool(A.hidden) == all(faces), "%s: hidden is %s, inner faces seen %s", name, A.hidden, faces)
        nvis += not A.hidden
    for n in "xyz":
        Gn = lambda m: getattr(g, n+m)
        A = g.axes[n]
        v = 0.35
        require(near(Gn("vtickpoint_pt")(v), A.vtickpoint_pt(v)) and near([pt(c) for c in Gn("vtickpoint")(v)], A.vtickpoint_pt(v)), "%svtickpoint", n)
        x = dict(x=xs, y=ys, z=zs)[n][0]
        v = dict(x=fx, y=fy, z=fz)[n](x)
        require(near(Gn("tickpoint_pt")(x), A.vtickpoint_pt(v)) and near([pt(c) for c in Gn("tickpoint")(x)], A.vtickpoint_pt(v)), "%stickpoint", n)
        require(near(Gn("vtickdirection")(v), A.vtickdirection(v)) and near(Gn("tickdirection")(x), A.vtickdirection(v)), "%stickdirection", n)
        require(near(ends(Gn("gridpath")(x))[0], ends(A.vgridpath(v))[0]) and near(ends(Gn("vgridpath")(v))[0], ends(A.vgridpath(v))[0]), "%sgridpath", n)
        require(near(ends(Gn("basepath")())[1], ends(A.vbasepath())[1]), "%sbasepath", n)
    return core.digest((nvis, xf, yf, at))


# ------------------------------------------------------------ keys
POS = ["tl", "tc", "tr", "ml", "mc", "mr", "bl", "bc", "br", "rt", (0.25, 0.75)]


def gen_key():
    for kind in ("xy", "xyz"):
        for pos in POS:
            for hi in (0, 1):
                for vi in (0, 1):
                    for titles in (("a",), ("a", None, "bcd"), ("ab", "c", "defgh")):
                        for columns in (1, 2):
                            for border in (0, 1):
                                yield kind, pos, hi, vi, titles, columns, border


def run_key(case):
    kind, pos, hi, vi, titles, columns, border = case
    engine()
    kw = dict(pos=pos) if isinstance(pos, str) else dict(pos=None, hpos=pos[0], vpos=pos[1])
    if border:
        kw["keyattrs"] = [deco.stroked([color.rgb.red])]
    k = graph.key.key(hinside=hi, vinside=vi, columns=columns, hdist=0.7, vdist=0.45, **kw)
    if isinstance(pos, str):
        h = 0 if "l" in pos else 1 if "r" in pos else 0.5
        v = 0 if "b" in pos else 1 if "t" in pos else 0.5
    else:
        h, v = pos
    if kind == "xy":
        g = graph.graphxy(xpos=1, ypos=2, width=8, height=5, key=k, x=axis.lin(min=0, max=1, painter=None), y=axis.lin(min=0, max=1, painter=None), x2=None, y2=None)
        W, H = 8*CM, 5*CM
        blue = [graph.style.line([color.rgb.blue])]
        ds = [graph.data.values(x=[2, 3], y=[2, 3], title=t) for t in titles]
    else:
        g = graph.graphxyz(xpos=1, ypos=2, size=6, key=k, x=axis.lin(min=0, max=1, painter=None), y=axis.lin(min=0, max=1, painter=None), z=axis.lin(min=0, max=1, painter=None), x2=None, y2=None)
        W = H = 6*CM
        blue = [graph.style.line([color.rgb.blue])]
        ds = [graph.data.values(x=[2, 3], y=[2, 3], z=[2, 3], title=t) for t in titles]
    g.plot(ds, blue)
    marks, labels = graphs.draw(g)
    shown = [t for t in titles if t is not None]
    require([l[0] for l in labels] == shown, "titles %s instead of %s", [l[0] for l in labels], shown)
    lines = []
    frame = None
    for m in marks:
        c = machines.torgb(m.color)
        pts = [p for closed, sub in m.path for seg in sub for p in seg]
        if near(c, (0, 0, 1)):
            # data lie outside, so that only the keys are drawn
            lines.append((min(p[0] for p in pts), pts[0][1], max(p[0] for p in pts)))
        elif near(c, (1, 0, 0)):
            frame = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
    require(len(lines) == len(shown), "%d symbols", len(lines))
    rows = (len(shown)+columns-1)//columns
    for i, (l, (x1, y, x2)) in enumerate(zip(labels, lines)):
        w, hh = 2*(l[1]-l[3]), 2*(l[2]-l[4])
        require(abs(x2-x1-0.5*CM) < 1e-2, "the symbol is %s wide", x2-x1)
        require(abs(l[3]-x2-0.2*CM) < 1e-2, "the title %s is %s behind its symbol", l[0], l[3]-x2)
        require(abs(y-l[2]) < 1e-2, "the symbol of %s is at %s, the title at %s", l[0], y, l[2])
        if i % rows:
            q = labels[i-1]
            require(abs(l[3]-q[3]) < 1e-2, "titles %s and %s are not aligned", q[0], l[0])
            require(abs((q[4])-(l[4]+hh)-0.2*CM) < 1e-2, "titles %s and %s have distance %s", q[0], l[0], q[4]-l[4]-hh)
        elif i:
            right = max(2*q[1]-q[3] for q in labels[i-rows:i])
            require(abs(x1-right-0.5*CM) < 1e-2, "columns have distance %s", x1-right)
            require(abs(l[2]-labels[0][2]) < 1e-2, "columns start at different heights")
    box = [min(x[0] for x in lines), min(l[4] for l in labels), max(2*l[1]-l[3] for l in labels), max(2*l[2]-l[4] for l in labels)]
    if border:
        require(frame is not None, "no frame")
        b = 0.3*CM
        require(all(abs(x-y) < 1e-2 for x, y in zip(frame, (box[0]-b, box[1]-b, box[2]+b, box[3]+b))), "frame %s around %s", frame, box)
        box = frame
    # place: at hpos between the two extreme positions
    x0, y0 = CM, 2*CM

    def want(lo, size, own, f, dist, inside):
        if inside:
            return lo+dist+f*(size-2*dist-own)
        return lo-dist-own+f*(size+2*dist+own)
    wx = want(x0, W, box[2]-box[0], h, 0.7*CM, hi)
    wy = want(y0, H, box[3]-box[1], v, 0.45*CM, vi)
    require(abs(box[0]-wx) < 2e-2, "the key is at x=%s instead of %s", box[0], wx)
    require(abs(box[1]-wy) < 2e-2, "the key is at y=%s instead of %s", box[1], wy)
    return core.digest((h, v, hi, vi, rows, columns))


def gen_plot():
    for form in ("single", "list", "tuple", "iterator", "empty"):
        for styled in (0, 1):
            yield form, styled


def run_plot(case):
    form, styled = case
    engine()
    g = graph.graphxy(width=8, x=axis.lin(min=0, max=5), y=axis.lin(min=0, max=5))
    ds = [graph.data.values(x=[1, 2], y=[i, 4], title="t%d" % i) for i in range(3)]
    use = {"single": ds[0], "list": ds, "tuple": tuple(ds), "iterator": iter(ds), "empty": []}[form]
    r = g.plot(use, [graph.style.line([])] if styled else None)
    n = {"single": 1, "empty": 0}.get(form, 3)
    if form == "single":
        require(r.data is ds[0], "plot returns %r", r)
    else:
        require([x.data for x in r] == ds[:n], "plot of %s returns %d items", form, len(r))
    marks, labels = graphs.draw(g)
    h = graph.graphxy(width=8, x=axis.lin(min=0, max=5), y=axis.lin(min=0, max=5))
    base = len(graphs.draw(h)[0])
    require(len(marks) == base+(n if styled else 2*n), "%d marks for %d data", len(marks)-base, n)
    return core.digest((form, len(marks)-base))


def spaces(tier):
    T = tier == "thorough"
    others = ["auto", "at", "flipped", "xyz", "x"]
    return [
        Space("orders", gen_orders(["xy", "auto"], 3), run_orders, bounds=dict(graphs="xy with extra axis and background, automatic ranges", calls=OPS, depth=3), cpu=60),
        Space("orders-others", gen_orders(others, 3 if T else 2), run_orders, bounds=dict(graphs=others, calls=OPS, depth=3 if T else 2), cpu=60),
    ]+([Space("orders-deep", gen_orders(["xy"], 4), run_orders, bounds=dict(graphs=["xy"], calls=OPS, depth=4), cpu=60)] if T else [])+[
        Space("mapping", gen_xy, run_xy, bounds=dict(sizes=list(SIZES), positions=2, flipped=2, axes="3x3", moved=4)),
        Space("mapping-1d", gen_x, run_x, bounds=dict(directions=3, positions=2, sizes=2, axes=3, grids=2, extra=4)),
        Space("axes", gen_axes, run_axes, bounds=dict(flipped=2, extra="6x4", distances=2, moved="no, by value, without first, without second")),
        Space("mapping-3d", gen_xyz, run_xyz, bounds=dict(projectors=2, angles=len(ANGLES), scales=2, planes=3, positions=2, axes=12)),
        Space("keys", gen_key, run_key, bounds=dict(graphs=2, positions=len(POS), inside="2x2", titles=3, columns=2, frame=2)),
        Space("plot", gen_plot, run_plot, bounds=dict(forms=5, styles=2)),
    ]
