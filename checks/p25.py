"""P25: axes map values onto the unit interval, consistently with their ticks and data."""
import datetime, itertools, math, logging
from mc import core, graphs
from mc.core import Space, require, close
from pyx import path, unit, attr, style, color
from pyx.graph import axis
from pyx.graph.axis import axis as axismod, painter, parter, positioner, rater, texter, tick, timeaxis
from checks import p24

logging.getLogger("pyx").setLevel(logging.CRITICAL)

PROPERTY = "P25"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of axis kinds, options, data sets and adjustment orders on real axes with a recording text engine and positioner; conversions, tick and label positions compared with the declared laws"
LEVEL_NOTE = "Exhaustive over the stated grids of options and data, all orders and groupings of data adjustments of small data sets. Ticks and lines are read from the PostScript drawn, labels from the text engine."
RULE = "A case is one axis with its data history; non-trivial if the axis could be created; outcomes are the range, ticks and labels."

X0, Y0, DX, DY = 11.0, 7.0, 300.0, 40.0


def point(v):
    return X0+DX*v, Y0+DY*v


def lineposition(direction=(0.6, -0.8)):
    return positioner.lineaxispos_pt(X0, Y0, X0+DX, Y0+DY, direction, lambda v: path.line_pt(X0+DX*v, Y0+DY*v, X0+DX*v+5, 200))


def make(ax, chunks, name="x"):
    e = graphs.Engine()
    a = axismod.anchoredaxis(ax, e, name)
    a.setcreatecall(a.create)
    for c in chunks:
        a.adjustaxis(c)
    a.setpositioner(lineposition())
    a.create()
    return a


def whereis(p):
    """the axis position of a point on the axis"""
    v = (p[0]-X0)/DX
    require(abs(Y0+DY*v-p[1]) < 1e-3, "the point %s is not on the axis", p)
    return v


def number(s):
    """value of a label of the default texter"""
    if "^{" in s:
        body, ex = s[:-1].split("^{")
        if r"\cdot{}" in body:
            m, b = body.split(r"\cdot{}")
        elif body.startswith("-"):
            m, b = "-1", body[1:]
        else:
            m, b = "1", body
        return p24.read_decimal(m, p24.DEFAULT)[0]*p24.read_decimal(b, p24.DEFAULT)[0]**int(p24.read_decimal(ex, p24.DEFAULT)[0])
    return p24.read_decimal(s, p24.DEFAULT)[0]


def drawn(a):
    """tick positions with their lengths, label positions, and the base line"""
    marks, labels = graphs.draw(a.canvas)
    ticks = []
    base = []
    for m in marks:
        require(m.op == "stroke" and len(m.path) == 1, "unexpected mark %r", m)
        seg = m.path[0][1]
        p, q = seg[0][0], seg[-1][-1]
        if math.dist(p, q) > 100:
            base.append((p, q))
        else:
            ticks.append((p, q))
    return ticks, labels, base


def law(kind, lo, hi, rev):
    if kind == "log":
        f = lambda x: (math.log(abs(x))-math.log(abs(lo)))/(math.log(abs(hi))-math.log(abs(lo)))
    else:
        f = lambda x: (x-lo)/(hi-lo)
    return (lambda x: 1-f(x)) if rev else f


def checkconvert(a, kind, lo, hi, rev):
    f = law(kind, lo, hi, rev)
    require(close(a.convert(lo), 1 if rev else 0) and close(a.convert(hi), 0 if rev else 1), "the ends %s and %s are mapped to %s and %s", lo, hi, a.convert(lo), a.convert(hi))
    last = None
    for i in range(-2, 13):
        x = lo*(hi/lo)**(i/10) if kind == "log" else lo+(hi-lo)*i/10
        v = a.convert(x)
        require(abs(v-f(x)) < 1e-9, "%s is mapped to %s instead of %s", x, v, f(x))
        require(last is None or (v < last if rev else v > last), "not monotonic at %s", x)
        last = v
        p = a.tickpoint_pt(x)
        require(math.dist(p, point(f(x))) < 1e-6, "tickpoint_pt(%s) is %s", x, p)
        p = [unit.topt(c) for c in a.tickpoint(x)]
        require(math.dist(p, point(f(x))) < 1e-6, "tickpoint(%s) is %s", x, p)
        p = [unit.topt(c) for c in a.vtickpoint(f(x))]
        require(math.dist(p, point(f(x))) < 1e-6, "vtickpoint is %s", p)
        g = a.gridpath(x)
        require(math.dist(g.atbegin_pt(), point(f(x))) < 1e-6, "the grid path of %s starts at %s", x, g.atbegin_pt())
        require(tuple(a.tickdirection(x)) == (0.6, -0.8), "tickdirection")
    xs = [lo+(hi-lo)*t for t in (0.25, 0.75)]
    for x1, x2 in ((None, None), (xs[0], None), (None, xs[1]), (xs[0], xs[1])):
        p = a.basepath(x1, x2)
        e1, e2 = 0 if x1 is None else f(x1), 1 if x2 is None else f(x2)
        require(math.dist(p.atbegin_pt(), point(e1)) < 1e-6 and math.dist(p.atend_pt(), point(e2)) < 1e-6, "basepath from %s to %s", x1, x2)


# ------------------------------------------------------------ regular axes
def parters(kind):
    if kind == "log":
        return {"auto": None, "one": parter.log([parter.log.pre1exp, parter.log.pre1to9exp], [parter.log.pre125exp]),
                "noext": parter.log([parter.log.pre1to9exp], extendtick=None), "none": "none"}
    return {"auto": None, "one": parter.lin(["2", "1"], ["1"]), "noext": parter.autolin(extendtick=None), "none": "none"}


MANUAL = {"none": [], "two": [("5/2", None), ("15/2", "M")], "level": [("3", "L")]}
DIV = {"none": None, "2": 2, "pi": math.pi}
# neither data nor limits coincide with ticks


def gen_regular(tier):
    for kind in ("lin", "log", "neglog"):
        for lo in (None, "a", "b"):
            for hi in (None, "a", "b"):
                for rev in (0, 1):
                    for div in ("none", "2", "pi"):
                        for p in ("auto", "one", "noext", "none"):
                            for man in MANUAL:
                                if p == "none" and man == "none":
                                    continue
                                for d in range(4 if tier == "thorough" else 2):
                                    for swap in (0, 1) if lo and hi else (0,):
                                        yield [kind, lo, hi, rev, div, p, man, d, swap]


LIMITS = {"lin": ({"a": 0.0, "b": -3.7}, {"a": 10.0, "b": 31.3}), "log": ({"a": 0.5, "b": 1.0}, {"a": 20.0, "b": 1234.0}),
          "neglog": ({"a": -20.0, "b": -1234.0}, {"a": -0.5, "b": -1.0})}
DATA = {"lin": [[2.2, 7.7], [-4.1, 12.9, 3.3], [9.6, 8.3], [1e-3, 28.8]], "log": [[2.2, 7.7], [1.7, 431.9, 3.3], [18.3, 1.61], [1.11, 96.5]],
        "neglog": [[-2.2, -7.7], [-1.7, -431.9, -3.3], [-18.3, -1.61], [-1.11, -96.5]]}


def run_regular(case):
    kind, lo, hi, rev, div, p, man, d, swap = case
    neg = kind == "neglog"
    k = "log" if neg else kind
    lo = None if lo is None else LIMITS[kind][0][lo]
    hi = None if hi is None else LIMITS[kind][1][hi]
    data = DATA[kind][d]
    divisor = DIV[div]
    D = divisor or 1
    kw = dict(min=lo, max=hi, reverse=rev, divisor=divisor)
    if swap:
        kw = dict(kw, min=hi, max=lo, reverse=not rev)
    pp = parters(k)[p]
    if pp == "none":
        kw["parter"] = None
    elif pp is not None:
        kw["parter"] = pp
    manual = [tick.tick(x, label=l, labellevel=0) for x, l in MANUAL[man]]
    if neg:
        manual = [tick.tick("-"+x, label=l) for x, l in reversed(MANUAL[man])]
    start = [str(t) for t in manual]
    kw["manualticks"] = list(manual)
    cls = axis.log if k == "log" else axis.lin
    ax = cls(**kw)
    records = []
    for i in range(2):
        a = make(ax, [data])
        l, h = a.data.min, a.data.max
        require(lo is None or l == lo, "the fixed minimum %s became %s", lo, l)
        require(hi is None or h == hi, "the fixed maximum %s became %s", hi, h)
        if lo is None:
            require(l <= min(data), "the data are outside of the range starting at %s", l)
        if hi is None:
            require(h >= max(data), "the data are outside of the range ending at %s", h)
        checkconvert(a, k, l, h, rev)
        f = law(k, l, h, rev)
        for x in data:
            if (lo is None or x >= lo) and (hi is None or x <= hi):
                require(-1e-9 <= a.convert(x) <= 1+1e-9, "%s is mapped to %s", x, a.convert(x))
        ticks = [(float(t), t.ticklevel, t.labellevel) for t in a.data.ticks]
        vals = [t[0] for t in ticks]
        require(vals == sorted(vals) and len(set(vals)) == len(vals), "ticks are not ordered: %s", vals)
        mvals = [float(t)*D for t in [tick.tick(("-" if neg else "")+x) for x, _ in MANUAL[man]]]
        for v in mvals:
            require(any(abs(v-w) < 1e-9*max(1, abs(v)) for w in vals), "the manual tick at %s is missing in %s", v, vals)
        for v in vals:
            if not any(abs(v-w) < 1e-6 for w in mvals):
                require(-1e-8 <= f(v) <= 1+1e-8, "the tick %s is outside the axis %s..%s", v, l, h)
        # ranges end at data, limits or ticks
        ends = [x for x in vals]
        for e, fixed, m in ((l, lo, min(data)), (h, hi, max(data))):
            if fixed is None:
                require(any(abs(e-x) <= 1e-9*max(abs(e), 1) for x in ends+[m]), "the range ends at %s, neither data nor tick", e)
        if p in ("auto", "one") and man == "none":
            require(lo is not None or abs(f(vals[0])-f(l)) < 1e-9, "the range starts at %s before the first tick %s", l, vals[0])
            require(hi is not None or abs(f(vals[-1])-f(h)) < 1e-9, "the range ends at %s after the last tick %s", h, vals[-1])
        if p == "one" and kind == "lin" and man == "none":
            all1 = [i*D for i in range(math.ceil(l/D-1e-9), math.floor(h/D+1e-9)+1)]
            require(len(set(round(x/D*2) for x in all1) - set(round(x/D*2) for x in vals)) == 0, "ticks are missing in %s", vals)
        # drawn
        dt, labels, base = drawn(a)
        require(len(base) == 1 and math.dist(base[0][0], point(0)) < 1e-3 and math.dist(base[0][1], point(1)) < 1e-3, "base line %s", base)
        want = [t for t in ticks if t[1] is not None]
        require(len(dt) == len(want), "%d ticks are drawn instead of %d", len(dt), len(want))
        for (p1, p2), (v, lev, _) in zip(dt, want):
            q = point(f(v))
            length = 0.12/2.54*72*((math.sqrt(5)-1)/2)**lev
            ends2 = sorted(math.dist(x, q) for x in (p1, p2))
            require(ends2[0] < 2e-3 and abs(ends2[1]-length) < 2e-3, "the tick at %s of level %s is drawn from %s to %s instead of at %s with length %s", v, lev, p1, p2, q, length)
        lt = [t for t in ticks if t[2] is not None]
        require(len(labels) == len(lt), "%d labels are drawn instead of %d", len(labels), len(lt))
        made = {id(x): x for x in a.graphtextengine.labels}
        for (s, cx, cy, bx, by), (v, _, lev) in zip(labels, lt):
            q = point(f(v))
            at = [x.at for x in made.values() if x.text == s]
            require(any(math.dist(x, q) < 2e-3 for x in at), "the label %r of the tick %s is placed for %s instead of %s", s, v, at, q)
            if s in ("M", "L"):
                require(any(abs(v-float(tick.rational(("-" if neg else "")+x))*D) < 1e-9*max(1, abs(v)) for x, y in MANUAL[man] if y == s), "the manual label %s is at %s", s, v)
            else:
                require(abs(float(number(s))*D-v) < 1e-9*max(1, abs(v)), "the tick at %s is labelled %s with divisor %s", v, s, div)
        records.append((l, h, ticks, [x[0] for x in labels], f(1.5) if not neg else f(-1.5)))
        require([str(t) for t in manual] == start and (man == "none" or manual[-1 if neg else 0].label == MANUAL[man][0][1]), "the manual ticks were changed to %s", [str(t) for t in manual])
    require(records[0] == records[1], "the axis differs when created again: %s and %s", records[0], records[1])
    return str(records[0])


# ------------------------------------------------------------ adjustment orders
def compositions(seq):
    n = len(seq)
    for cut in range(1 << (n-1)):
        out, cur = [], [seq[0]]
        for i in range(1, n):
            if cut >> (i-1) & 1:
                out.append(cur)
                cur = []
            cur.append(seq[i])
        yield out+[cur]


def gen_orders(tier):
    vals = [2.2, 7.7, None, "x", 4.1] if tier == "thorough" else [2.2, 7.7, None, 4.1]
    for kind in ("lin", "log", "sized", "auto"):
        for lo in (None, 1.5):
            for hi in (None, 9.25):
                for perm in itertools.permutations(range(len(vals))):
                    for comp in compositions(list(perm)):
                        yield [kind, lo, hi, [[vals[i] for i in c] for c in comp]]


def run_orders(case):
    kind, lo, hi, chunks = case
    cls = {"lin": axis.lin, "log": axis.log, "sized": axis.sizedlin, "auto": axis.autosizedlin}[kind]
    kw = dict(size=3) if kind == "sized" else {}
    ax = cls(min=lo, max=hi, parter=None, painter=None, **kw)
    e = graphs.Engine()
    a = axismod.anchoredaxis(ax, e, "x")
    a.setcreatecall(a.create)
    a.adjustaxis([])
    for c in chunks:
        a.adjustaxis(c)
    a.setpositioner(lineposition())
    l, h = 2.2 if lo is None else lo, 7.7 if hi is None else hi
    require((a.data.min, a.data.max) == (l, h), "the range is %s..%s instead of %s..%s", a.data.min, a.data.max, l, h)
    require(close(a.convert(l), 0) and close(a.convert(h), 1), "the ends are mapped to %s and %s", a.convert(l), a.convert(h))
    a.adjustaxis([-100, 100])       # too late
    require((a.data.min, a.data.max) == (l, h), "the range changed after the creation to %s..%s", a.data.min, a.data.max)
    if kind == "sized":
        require(a.data.size == 3, "size %s", a.data.size)
    if kind == "auto":
        require(close(a.data.size, h-l), "size %s of the axis %s..%s", a.data.size, l, h)
    return "%s %s %s" % (kind, l, h)


# ------------------------------------------------------------ zero ranges
def gen_zero():
    for kind in ("lin", "log"):
        for v in (5.0, 0.25):
            for fb in (None, 2.0, [1.0, 9.0]):
                for rev in (0, 1):
                    for n in (1, 3):
                        yield [kind, v, fb, rev, n]


def run_zero(case):
    kind, v, fb, rev, n = case
    if kind == "log" and fb == 2.0 and v < 1:
        return None
    ax = (axis.log if kind == "log" else axis.lin)(fallbackrange=tuple(fb) if isinstance(fb, list) else fb, reverse=rev, parter=parter.autolin(extendtick=None))
    try:
        a = make(ax, [[v]*n])
    except RuntimeError as e:
        require(fb is None, "%s", e)
        return "zero range"
    require(fb is not None, "a zero axis range was accepted")
    l, h = (v-1, v+1) if fb == 2.0 else (1.0, 9.0)
    require(close(a.data.min, l) and close(a.data.max, h), "the fallback range is %s..%s", a.data.min, a.data.max)
    checkconvert(a, kind, l, h, rev)
    return "%s..%s" % (l, h)


# ------------------------------------------------------------ modified copies
class Marker:
    pass


OPTIONS = {
    "linear": (axis.linear, dict(min=[0.5, 1.0], max=[9.0, 20.0], reverse=[1, 0], divisor=[2, 3], title=["T", "U"], manualticks=[["3"], ["5"]],
                                 parter=[parter.lin(["1"]), parter.lin(["2"])], rater_density=[2, 0.5], texter_minexponent=[0, 1],
                                 texter=[texter.decimal(prefix="p"), texter.rational(prefix="q")], painter_innerticklength=[0.5, 0.7], painter=[painter.regular(titlepos=0.2), painter.regular(tickattrs=None)], maxworse=[1, 4])),
    "logarithmic": (axis.logarithmic, dict(min=[0.5, 1.0], max=[90.0, 200.0], reverse=[1, 0], divisor=[2, 3], title=["T", "U"],
                                           parter=[parter.log([parter.log.pre125exp]), parter.log([parter.log.pre1to9exp], [parter.log.pre125exp])], rater_density=[2, 0.5], manualticks=[["3"], ["5"]], painter_labeldist=[0.9, 1.2])),
    "sizedlinear": (axis.sizedlinear, dict(size=[2, 3], min=[0.5, 1.0], max=[9.0, 20.0], reverse=[1, 0], title=["T", "U"], parter=[parter.lin(["1"]), parter.lin(["2"])])),
    "autosizedlinear": (axis.autosizedlinear, dict(min=[0.5, 1.0], max=[9.0, 20.0], reverse=[1, 0], title=["T", "U"], parter=[parter.lin(["1"], extendtick=None), parter.lin(["2"], extendtick=None)], parter_extendtick=[None, 5])),
    "bar": (axis.bar, dict(dist=[1.5, 0.25], firstdist=[2, 0.1], lastdist=[3, 0.2], reverse=[1, 0], title=["T", "U"], epsilon=[None, 5], painter_namepos=[0.1, 0.9], linkpainter_innerticklength=[0.1, 0.4],
                           defaultsubaxis=[axis.lin(min=0, max=4), axis.lin(min=-1, max=8)], painter=[painter.bar(innerticklength=0.3), painter.bar(outerticklength=0.2)])),
    "split": (axis.split, dict(dist=[1.5, 0.25], firstdist=[2, 0.1], lastdist=[3, 0.2], reverse=[1, 0], title=["T", "U"], painter_breaklineslength=[1, 2], epsilon=[None, 7],
                               subaxes=[{"A": axis.sizedlin(size=2), "B": None}, {"A": axis.lin(), "B": axis.sizedlin(size=4)}])),
    "nestedbar": (axis.nestedbar, dict(dist=[1.5, 0.25], firstdist=[2, 0.1], reverse=[1, 0], title=["T", "U"], defaultsubaxis=[axis.bar(dist=1), axis.bar(dist=2, painter=None)])),
}


def gen_calls():
    for kind in OPTIONS:
        opts = list(OPTIONS[kind][1])
        for a in [None]+opts:
            for b in opts:
                for c in [None]+opts if kind in ("bar", "sizedlinear") else [None]:
                    yield [kind, a, b, c]


def observe(kind, ax):
    if kind in ("linear", "logarithmic", "sizedlinear", "autosizedlinear"):
        a = make(ax, [[2.2, 7.7]])
        vals = [a.convert(x) for x in (2.0, 3.0, 5.0)]
    else:
        inner = (lambda x: ("u", x)) if kind == "nestedbar" else (lambda x: x)
        a = make(ax, [[("A", inner(2.2)), ("B", inner(3.1)), ("A", inner(7.7)), ("B", inner(0.4))]])
        vals = []
        for n in "AB":
            for x in (2.0, 3.0, 7.0, 9.0):
                try:
                    vals.append(a.convert((n, inner(x))))
                except (ValueError, KeyError) as e:
                    vals.append(type(e).__name__)
    marks, labels = graphs.draw(a.canvas)
    linked = axismod.linkedaxis(a, "l")
    linked.setpositioner(lineposition())
    linked.create()
    lm, ll = graphs.draw(linked.canvas)
    return repr((vals, [(m.op, [[tuple(round(c, 4) for p in s for c in p) for s in x[1]] for x in m.path]) for m in marks+lm], labels+ll, getattr(a.data, "size", None), len(marks)))


def run_calls(case):
    kind, a, b, c = case
    cls, opts = OPTIONS[kind]
    steps = [(n, opts[n][i % 2]) for i, n in enumerate((a, b, c)) if n is not None]
    if len({n for n, v in steps}) < len(steps):
        steps = [(n, opts[n][i % 2]) for i, (n, v) in enumerate(steps)]

    def fix(n, v):
        if n == "manualticks":
            return [tick.tick(x) for x in v]
        return v
    one = {}
    for n, v in steps:
        one[n] = fix(n, v)
    if ("texter" in one and "texter_minexponent" in one) or ("painter" in one and any(n.startswith("painter_") for n in one)) or ("parter" in one and "parter_extendtick" in one):
        return None       # the order of a part and of its options is a matter of definition
    ax = cls()
    first = True
    for n, v in steps:
        if first:
            ax = cls(**{n: fix(n, v)})
        else:
            prev = ax
            ax = ax(**{n: fix(n, v)})
            require(ax is not prev, "the axis itself was changed")
        first = False
    g1, g2 = observe(kind, ax), observe(kind, cls(**one))
    require(g1 == g2, "%s: %s instead of %s", "()".join("%s" % n for n, v in steps), g1, g2)
    if kind in ("linear", "sizedlinear", "bar", "split") and a is not None and b is not None:
        # the axis before the call stays as it was
        n, v = steps[0]
        base = cls(**{n: fix(n, v)})
        before = observe(kind, base)
        base(**{steps[1][0]: fix(*steps[1])})
        require(observe(kind, base) == before, "calling the axis changed it")
    return g1[:200]


# ------------------------------------------------------------ bars and splits
SUB = {"lin": (lambda: axis.lin(min=0, max=4, parter=None, painter=None, linkpainter=None), 1),
       "size3": (lambda: axis.sizedlin(size=3, min=0, max=4, parter=None, painter=None, linkpainter=None), 3),
       "rev": (lambda: axis.lin(min=0, max=4, reverse=1, parter=None, painter=None, linkpainter=None), 1),
       "auto": (lambda: axis.autosizedlin(min=0, max=4, parter=None, painter=None, linkpainter=None), 4),
       "part": (lambda: axis.sizedlin(size=2, min=0, max=4, parter=parter.lin(["2", "1"])), 2)}


def gen_bar(tier):
    kinds = ["bar", "split"]
    for kind in kinds:
        for n in (1, 2, 3):
            for subs in itertools.product(SUB, repeat=n):
                for order in itertools.permutations(range(n)):
                    for rev in (0, 1):
                        for dist, first, last in ((0.5, None, None), (0.25, 0.7, 0.1), (0, 0, 0), (1, None, 2), (0.5, 0, None)):
                            if n == 3 and tier == "quick" and (subs[0] == subs[1] or subs[1] == subs[2] or dist == 0.5):
                                continue
                            yield [kind, list(subs), list(order), rev, dist, first, last]


def run_bar(case):
    kind, subs, order, rev, dist, first, last = case
    names = ["n%d" % i for i in range(len(subs))]
    kw = dict(dist=dist, reverse=rev, subaxes={n: SUB[s][0]() for n, s in zip(names, subs)})
    if first is not None:
        kw["firstdist"] = first
    if last is not None:
        kw["lastdist"] = last
    f0 = first if first is not None else (0 if kind == "split" else 0.5*dist)
    l0 = last if last is not None else (0 if kind == "split" else 0.5*dist)
    ax = (axis.bar if kind == "bar" else axis.split)(**kw)
    chunks = [[(names[i], 1.0)] for i in order[:1]] + [[(names[i], 3.0) for i in order], [(None, 2.0)]]
    a = make(ax, chunks)
    seq = [names[i] for i in order]
    if rev:
        seq.reverse()
    sizes = {n: SUB[s][1] for n, s in zip(names, subs)}
    total = f0+l0+sum(sizes.values())+dist*(len(names)-1)
    require(close(a.data.size, total), "the size is %s instead of %s", a.data.size, total)
    pos = f0
    require(list(a.data.names) == seq, "the order is %s instead of %s", a.data.names, seq)
    where = {}
    for n in seq:
        lo, hi = pos/total, (pos+sizes[n])/total
        where[n] = (lo, hi)
        pos += sizes[n]+dist
        r = subs[names.index(n)] == "rev"
        for x in (0, 1, 2.5, 4):
            e = lo+(hi-lo)*(1-x/4 if r else x/4)
            v = a.convert((n, x))
            require(close(v, e), "%s of %s is mapped to %s instead of %s", x, n, v, e)
        for x in (-0.5, 4.5):
            try:
                v = a.convert((n, x))
            except ValueError:
                pass
            else:
                require(False, "%s outside of the subaxis %s is mapped to %s", x, n, v)
        sa = a.data.subaxes[n]
        require(math.dist(sa.vtickpoint_pt(0.25), point(lo+0.25*(hi-lo))) < 1e-6, "tick point of subaxis %s", n)
        require(math.dist(sa.vbasepath(0.25, 0.75).atbegin_pt(), point(lo+0.25*(hi-lo))) < 1e-6, "base path of subaxis %s", n)
        require(math.dist(sa.vgridpath(0.25).atbegin_pt(), point(lo+0.25*(hi-lo))) < 1e-6, "grid path of subaxis %s", n)
    # the base paths of the subaxes cover the whole axis
    cover = []
    for n in seq:
        p = a.data.subaxes[n].vbasepath()
        cover.append((whereis(p.atbegin_pt()), whereis(p.atend_pt())))
    require(close(cover[0][0], 0) and close(cover[-1][1], 1) and all(close(p[1], q[0]) for p, q in zip(cover, cover[1:])), "the base paths are %s", cover)
    for (b, e), n in zip(cover, seq):
        require(b <= where[n][0]+1e-9 and where[n][1] <= e+1e-9, "the base path %s of %s does not contain its values %s", (b, e), n, where[n])
    dt, labels, base = drawn_any(a)
    ticks = []
    for n in seq:
        if subs[names.index(n)] == "part":
            lo, hi = where[n]
            ticks.extend(lo+(hi-lo)*i/4 for i in range(5))
    got = sorted(whereis_near(p) for p in dt)
    if kind == "bar":
        require(len(got) == len(ticks) and all(abs(x-y) < 1e-4 for x, y in zip(got, sorted(ticks))), "ticks of the subaxes are drawn at %s instead of %s", got, ticks)
        lab = sorted((s, round(whereis_label(a, s), 6)) for s in {x[0] for x in labels} if s in names)
        require([x[0] for x in lab] == sorted(names), "the names %s", lab)
        for s, v in lab:
            require(abs(v-0.5*sum(where[s])) < 1e-4, "the name %s is placed at %s instead of at the middle of %s", s, v, where[s])
    else:
        for t in ticks:
            require(any(abs(x-t) < 1e-4 for x in got), "the tick at %s is missing", t)
    return str([(n, round(where[n][0], 6), round(where[n][1], 6)) for n in seq])


def drawn_any(a):
    marks, labels = graphs.draw(a.canvas)
    ticks = []
    for m in marks:
        if m.op == "stroke":
            seg = m.path[0][1]
            p, q = seg[0][0], seg[-1][-1]
            if math.dist(p, q) < 4:
                ticks.append((p, q))
    return ticks, labels, None


def whereis_near(pq):
    for p in pq:
        v = (p[0]-X0)/DX
        if abs(Y0+DY*v-p[1]) < 2e-3:
            return v
    require(False, "the tick %s does not touch the axis", pq)


def whereis_label(a, s):
    at = {x.at for x in a.graphtextengine.labels if x.text == s}
    require(len(at) == 1, "the label %s is placed at %s", s, at)
    return whereis(at.pop())


def gen_nested(tier):
    for outer in itertools.permutations(("A", "B", "C")[:2 if tier == "quick" else 3]):
        for inner in itertools.permutations((1, 2, "z")):
            for rev in (0, 1):
                for irev in (0, 1):
                    for dist in (0, 0.5, 2):
                        for idist in (0, 0.5):
                            for missing in (None, 0, 1, 2):
                                for yield_order in (0, 1):
                                    yield [list(outer), list(inner), rev, irev, dist, idist, missing, yield_order]


def run_nested(case):
    outer, inner, rev, irev, dist, idist, missing, yo = case
    ax = axis.nestedbar(dist=dist, reverse=rev, defaultsubaxis=axis.bar(dist=idist, reverse=irev, painter=None, linkpainter=None))
    data = [(o, (i, x)) for o in outer for i in inner for x in (0.0, 1.0)]
    if yo:
        data.sort(key=lambda d: inner.index(d[1][0]))
    if missing is not None:
        data = [d for d in data if not (d[0] == outer[0] and d[1][0] == inner[missing])]
    a = make(ax, [data[:3], data[3:]])
    names = []
    for d in data:
        if d[0] not in names:
            names.append(d[0])
    subs = {n: [] for n in names}
    for d in data:
        if d[1][0] not in subs[d[0]]:
            subs[d[0]].append(d[1][0])
    if rev:
        names.reverse()
    if irev:
        for n in names:
            subs[n].reverse()
    size = {n: len(subs[n])*(1+idist) for n in names}
    total = sum(size.values())+dist*len(names)
    pos = 0.5*dist
    for n in names:
        for j, i in enumerate(subs[n]):
            b = pos+j*(1+idist)+0.5*idist
            for x in (0, 0.25, 1):
                v = a.convert((n, (i, x)))
                require(close(v, (b+x)/total), "%s, %s, %s is mapped to %s instead of %s", n, i, x, v, (b+x)/total)
        pos += size[n]+dist
    return str((names, subs, total))


# ------------------------------------------------------------ linked axes
def gen_linked():
    for kind in ("lin", "log", "bar", "split"):
        for first in ("base", "link"):
            for kw in (None, "painter", "none", "labels"):
                for chain in (1, 2):
                    yield [kind, first, kw, chain]


def run_linked(case):
    kind, first, kw, chain = case
    if kind in ("lin", "log"):
        ax = (axis.lin if kind == "lin" else axis.log)(title="T")
        data = [1.3, 77.7]
    else:
        ax = (axis.bar if kind == "bar" else axis.split)(title="T", subaxes={"a": axis.lin(min=0, max=5), "b": axis.sizedlin(size=2, min=0, max=5)})
        data = [("a", 1), ("b", 2)]
    e = graphs.Engine()
    a = axismod.anchoredaxis(ax, e, "x")
    a.setcreatecall(a.create)
    a.adjustaxis(data)
    a.setpositioner(lineposition())
    off = 60
    base = a
    links = []
    for i in range(chain):
        k = {}
        if kw == "none":
            k["painter"] = None
        elif kw == "painter" and kind in ("lin", "log"):
            k["painter"] = painter.linked(innerticklength=None, outerticklength=0.1)
        elif kw == "labels" and kind in ("lin", "log"):
            k["painter"] = painter.regular()
        l = axismod.linkedaxis(base, "y%d" % i, **k)
        l.setcreatecall(l.create)
        l.setpositioner(positioner.lineaxispos_pt(X0, Y0+off, X0+DX, Y0+DY+off, (0.6, -0.8), None))
        links.append(l)
        base = l
    if first == "base":
        a.create()
    links[-1].create()
    a.create()
    vals = data
    for l in links:
        l.create()
        for v in vals:
            require(close(l.convert(v), a.convert(v)), "the linked axis maps %s to %s instead of %s", v, l.convert(v), a.convert(v))
            p, q = a.tickpoint_pt(v), l.tickpoint_pt(v)
            require(abs(p[0]-q[0]) < 1e-6 and abs(p[1]+off-q[1]) < 1e-6, "tick point of the linked axis")
    m1, t1 = graphs.draw(a.canvas)
    n1 = [m for m in m1 if m.op == "stroke"]
    ticks1, ticks2 = drawn_any(a)[0], drawn_any(links[-1])[0]
    m2, t2 = graphs.draw(links[-1].canvas)
    if kind in ("lin", "log"):
        if kw == "none":
            require(not m2 and not t2, "a linked axis without painter draws")
            return "none"
        if kw == "labels":
            require(len(t2) == len(t1), "%d labels instead of %d", len(t2), len(t1))
        else:
            require(not t2, "the linked axis shows the labels %s", t2)
        require(len(ticks2) == len(ticks1) and len(ticks1) > 3, "%d ticks on the linked axis, %d on the axis", len(ticks2), len(ticks1))
        for x, y in zip(ticks1, ticks2):
            v, w = whereis_near(x), None
            for p in y:
                for q in ((p[0], p[1]-off), ):
                    t = (q[0]-X0)/DX
                    if abs(Y0+DY*t-q[1]) < 2e-3:
                        w = t
            require(w is not None and abs(v-w) < 1e-4, "tick at %s on the axis, at %s on the linked axis", v, w)
    else:
        require(kw == "none" or len(ticks2) == len(ticks1), "%d ticks on the linked axis, %d on the axis", len(ticks2), len(ticks1))
        require(not t2, "the linked axis shows the labels %s", t2)
    return "%d ticks" % len(ticks2)


# ------------------------------------------------------------ along paths
PATHS = {"line": lambda: path.line_pt(3, 4, 203, 54), "circle": lambda: path.circle_pt(10, 20, 80), "curve": lambda: path.curve_pt(0, 0, 20, 150, 180, -60, 200, 40),
         "corner": lambda: path.path(path.moveto_pt(0, 0), path.lineto_pt(100, 0), path.lineto_pt(100, 60))}


def gen_path():
    for p in PATHS:
        for d in (1, -1):
            for lo, hi in ((0, 10), (-3, 3), (10, 0)):
                for dist in ("1", "5/2"):
                    yield [p, d, lo, hi, dist]


def run_path(case):
    p, d, lo, hi, dist = case
    pth = PATHS[p]()
    ref = PATHS[p]()
    e = graphs.Engine()
    from pyx import text
    old = text.defaulttextengine
    text.defaulttextengine = e
    try:
        c = axis.pathaxis(pth, axis.lin(min=lo, max=hi, parter=parter.lin([dist])), direction=d)
    finally:
        text.defaulttextengine = old
    marks, labels = graphs.draw(c)
    step = float(tick.rational(dist))
    a, b = min(lo, hi), max(lo, hi)
    vals = [i*step for i in range(math.ceil(a/step-1e-9), math.floor(b/step+1e-9)+1)]
    L = ref.arclen_pt()
    short = [m for m in marks if len(m.path) == 1 and len(m.path[0][1]) == 1 and math.dist(m.path[0][1][0][0], m.path[0][1][0][-1]) < 4]
    require(len(short) == len(vals), "%d ticks instead of %d", len(short), len(vals))
    for v, m in zip(vals, short):
        f = (v-lo)/(hi-lo)
        par = ref.arclentoparam_pt(f*L)
        q = ref.at_pt(par)
        s = m.path[0][1][0]
        require(min(math.dist(s[0], q), math.dist(s[1], q)) < 5e-3, "the tick of %s is at %s instead of %s", v, s, q)
        other = max(s, key=lambda x: math.dist(x, q))
        t = ref.rotation(par).apply_pt(0, d)
        require(math.dist((q[0]+t[0]*3.4015748, q[1]+t[1]*3.4015748), other) < 5e-3, "the tick of %s ends at %s", v, other)
    at = [x.at for x in e.labels]
    require(len(labels) == len(vals), "%d labels", len(labels))
    for v in vals:
        q = ref.at_pt(ref.arclentoparam_pt((v-lo)/(hi-lo)*L))
        l = [x for x in e.labels if abs(float(number(x.text))-v) < 1e-9]
        require(len(l) == 1 and math.dist(l[0].at, q) < 5e-3, "the label of %s is at %s", v, l and l[0].at)
    return "%d ticks" % len(vals)


# ------------------------------------------------------------ painters
def gen_painter():
    for lab in ("all", "none", "main"):
        for tk in ("all", "none", "main", "outer"):
            for grid in ("none", "all", "main"):
                for base in (0, 1):
                    for title in (None, "T", "off"):
                        for ldir in (None, "par", "orth"):
                            yield [lab, tk, grid, base, title, ldir]


def run_painter(case):
    lab, tk, grid, base, title, ldir = case
    kw = {}
    if lab == "none":
        kw["labelattrs"] = None
    elif lab == "main":
        kw["labelattrs"] = [attr.changelist([color.rgb.red, None])]
    if tk == "none":
        kw["tickattrs"] = None
    elif tk == "main":
        kw["tickattrs"] = [attr.changelist([style.linewidth.Thick, None])]
    elif tk == "outer":
        kw["outerticklength"] = 0.3
        kw["innerticklength"] = None
    if grid == "all":
        kw["gridattrs"] = [style.linewidth.thin]
    elif grid == "main":
        kw["gridattrs"] = [attr.changelist([style.linewidth.thin, None])]
    if not base:
        kw["basepathattrs"] = None
    if title == "off":
        kw["titleattrs"] = None
    if ldir:
        kw["labeldirection"] = painter.rotatetext.parallel if ldir == "par" else painter.rotatetext.orthogonal
    ax = axis.lin(min=0.0, max=4.0, title=title, parter=parter.lin(["2", "1"], ["2", "1"]), painter=painter.regular(**kw))
    a = make(ax, [])
    marks, labels = graphs.draw(a.canvas)
    n = {"short": [], "long": [], "grid": []}
    for m in marks:
        s = m.path[0][1]
        p, q = s[0][0], s[-1][-1]
        L = math.dist(p, q)
        if L > 290:
            n["long"].append(0)
        elif L > 100:
            n["grid"].append(round((p[0]-X0)/DX*4, 3))
        else:
            n["short"].append((p, q))
    require(len(n["long"]) == base, "%d base lines", len(n["long"]))
    require(n["grid"] == {"none": [], "all": [0, 1, 2, 3, 4], "main": [0, 2, 4]}[grid], "grid lines at %s", n["grid"])
    want = {"all": [0, 1, 2, 3, 4], "none": [], "main": [0, 2, 4], "outer": [0, 1, 2, 3, 4]}[tk]
    require([round(4*whereis_near(s), 2) for s in n["short"]] == want, "ticks at %s instead of %s", n["short"], want)
    for p, q in n["short"]:
        far = max((p, q), key=lambda x: abs(Y0+DY*((x[0]-X0)/DX)-x[1]))
        inner = (far[1] < Y0+DY*((far[0]-X0)/DX))
        require(inner == (tk != "outer"), "the tick %s is on the wrong side", (p, q))
    texts = [l[0] for l in labels if l[0] != "T"]
    require(texts == {"all": ["0", "1", "2", "3", "4"], "none": [], "main": ["0", "2", "4"]}[lab], "labels %s", texts)
    require(len(labels)-len(texts) == (title == "T"), "title %s", labels)
    # labels lie outside (opposite to the tick direction) with the declared distance
    ext = 0.3/2.54*72 if texts else 0
    if tk == "outer":
        ext = max(ext, 0.3/2.54*72)
    for l in a.graphtextengine.labels:
        if not any(l is x for x in a.canvas.labels or []):
            continue
        d = [((c[0]-X0)*-0.6+(c[1]-Y0)*0.8)-((l.at[0]-X0)*-0.6+(l.at[1]-Y0)*0.8) for c in l.corners]
        require(abs(min(d)-0.3/2.54*72) < 1e-3 or min(d) > 0.3/2.54*72, "the label %s has the distance %s", l.text, min(d))
        ext = max(ext, max(d))
        if ldir:
            c = l.corners
            ang = math.degrees(math.atan2(c[1][1]-c[0][1], c[1][0]-c[0][0]))
            e = math.degrees(math.atan2(-0.8, 0.6))+(90 if ldir == "par" else 180)
            e = (e+90) % 180-90
            require(min(abs(ang-e), abs(abs(ang-e)-180)) < 1e-6, "the label is rotated by %s instead of %s", ang, e)
            require(-90-1e-6 <= ang <= 90+1e-6, "the label is upside down at %s", ang)
    if title != "T":
        require(abs(a.canvas.extent_pt-ext) < 1e-3, "the extent is %s instead of %s", a.canvas.extent_pt, ext)
    else:
        t, = [l for l in a.graphtextengine.labels if l.text == "T"]
        mid = point(0.5)
        d = [((c[0]-mid[0])*-0.6+(c[1]-mid[1])*0.8) for c in t.corners]
        require(abs(min(d)-(ext+0.3/2.54*72)) < 1e-3, "the title has the distance %s instead of %s", min(d), ext+0.3/2.54*72)
        require(abs(a.canvas.extent_pt-max(d)) < 1e-3, "the extent is %s instead of %s", a.canvas.extent_pt, max(d))
    return str((len(marks), texts))


def gen_time():
    for perm in itertools.permutations((3, 17, 25, 9)):
        for lo in (None, 1):
            for hi in (None, 30):
                yield [list(perm), lo, hi]


def run_time(case):
    days, lo, hi = case
    T = lambda d, h=0: datetime.datetime(2003, 8, d, h)
    kw = {}
    if lo:
        kw["min"] = T(lo)
    if hi:
        kw["max"] = T(hi)
    ticks = [timeaxis.timetick(2003, 8, d) for d in (10, 14, 20)]
    ax = timeaxis.timeaxis(manualticks=ticks, texter=timeaxis.timetexter("%d"), **kw)
    a = make(ax, [[T(d, 6)] for d in days])
    l = T(lo) if lo else T(min(days), 6)
    h = T(hi) if hi else T(max(days), 6)
    require((a.data.min, a.data.max) == (l, h), "the range is %s..%s", a.data.min, a.data.max)
    for d in days:
        x = T(d, 6)
        e = (x-l).total_seconds()/(h-l).total_seconds()
        require(close(a.convert(x), e), "%s is mapped to %s instead of %s", x, a.convert(x), e)
    marks, labels = graphs.draw(a.canvas)
    require([x[0] for x in labels] == ["10", "14", "20"], "labels %s", labels)
    for d in (10, 14, 20):
        e = (T(d)-l).total_seconds()/(h-l).total_seconds()
        at = [x.at for x in a.graphtextengine.labels if x.text == str(d)]
        require(len(at) == 1 and math.dist(at[0], point(e)) < 1e-6, "the label %s is at %s", d, at)
    return "%s %s" % (l, h)


def spaces(tier):
    return [
        Space("regular", lambda: gen_regular(tier), run_regular, "3 kinds x limits, reversal, divisors, partitioners, manual ticks, data sets, each axis used twice", True, cpu=30),
        Space("orders", lambda: gen_orders(tier), run_orders, "all orders and groupings of small data sets for 4 kinds of axes and limits", True),
        Space("zero", gen_zero, run_zero, "zero ranges with and without fallback", True),
        Space("calls", gen_calls, run_calls, "all sequences of two (partly three) options given in calls for 7 axis classes, compared with the options given at once", True),
        Space("bars", lambda: gen_bar(tier), run_bar, "all sequences of up to 3 subaxes of 5 kinds in all orders, distances and reversal, for bar and split axes", True),
        Space("nested", lambda: gen_nested(tier), run_nested, "nested bar axes in all orders of outer and inner names, with missing data", True),
        Space("linked", gen_linked, run_linked, "linked axes of 4 kinds, chains, painters and creation orders", True),
        Space("paths", gen_path, run_path, "axes along 4 paths, directions, ranges and tick distances", True),
        Space("painters", gen_painter, run_painter, "all combinations of label, tick, grid, base line and title settings", True),
        Space("times", gen_time, run_time, "time axes for all orders of 4 days and limits", True),
    ]


ASSUMPTIONS = ["label texts are measured by a fixed rule instead of TeX"]
