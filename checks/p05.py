"""P05: PostScript, PDF and SVG output paint the marks the canvas tree prescribes."""
import io, itertools, math
from mc import core, geom as g, machines as M
from mc.core import Space, require, Violation
from pyx import attr, canvas, color, deco, path, style, trafo, unit

PROPERTY = "P05"
LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of canvas programs; the written PostScript, PDF and SVG programs are executed by independent interpreters and compared with a graphics state model"
LEVEL_NOTE = "Every canvas program of the stated size over the alphabet of drawing commands, attribute lists and nestings is built on the real code and written in all three formats; the interpreters' marks are compared one by one with the marks of a graphics-state model of the program."
RULE = "A case is a canvas program; it is non-trivial if it paints at least one mark; model states are the graphics states at which marks are painted."

T0 = 0.02*72/2.54       # default line width in pt

# ---------------------------------------------------------------- attributes: name -> (real object, model effect)
ATTRS = {}


def A(name, kind, make, eff=None):
    ATTRS[name] = (kind, make, eff)


def setter(**kw):
    def f(st):
        for k, v in kw.items():
            setattr(st, k, v)
    return f


def dasher(pattern, offset, rel, cap=None):
    def f(st):
        if cap is not None:
            st.cap = cap
        q = st.width/T0 if rel else 1
        st.dash = (tuple(x*q for x in pattern), offset if pattern else 0.0)
    return f


def col(c):
    def f(st, stroke=True, fill=True):
        if stroke:
            st.stroke = c
        if fill:
            st.fill = c
    return f


def alpha(a):
    def f(st, stroke=True, fill=True):
        if stroke:
            st.sa = a
        if fill:
            st.fa = a
    return f


A("lw2", "linewidth", lambda: style.linewidth(2*unit.t_pt), setter(width=2.0))
A("lwThick", "linewidth", lambda: style.linewidth.Thick, setter(width=2*T0))
A("capround", "linecap", lambda: style.linecap.round, setter(cap=1))
A("capsquare", "linecap", lambda: style.linecap.square, setter(cap=2))
A("joinbevel", "linejoin", lambda: style.linejoin.bevel, setter(join=2))
A("miter3", "miterlimit", lambda: style.miterlimit(3), setter(miter=3.0))
A("dash", "dash", lambda: style.dash([1, 2], 0.5), dasher((1, 2), 0.5, True))
A("dashabs", "dash", lambda: style.dash([3, 1, 2], 0, rellengths=0), dasher((3, 1, 2), 0, False))
A("solid", "linestyle", lambda: style.linestyle.solid, dasher((), 0, True, 0))
A("dashdotted", "linestyle", lambda: style.linestyle.dashdotted, dasher((0, 2, 2, 2), 0, True, 1))
A("red", "color", lambda: color.rgb(1, 0, 0), col(("rgb", (1, 0, 0))))
A("gray", "color", lambda: color.gray(.2), col(("gray", (.2,))))
A("cmyk", "color", lambda: color.cmyk(.2, .4, .6, .2), col(("cmyk", (.2, .4, .6, .2))))
A("hsb", "color", lambda: color.hsb(.25, .6, .8), col(("hsb", (.25, .6, .8))))
A("transp", "transparency", lambda: color.transparency(.25), alpha(.75))
A("opaque", "transparency", lambda: color.transparency(0), alpha(1.0))
A("evenodd", "fillrule", lambda: style.fillrule.even_odd, setter(eo=True))
A("nonzero", "fillrule", lambda: style.fillrule.nonzero_winding, setter(eo=False))
A("cl-lw", ("clear", "linewidth"), lambda: style.linewidth.clear)
A("cl-col", ("clear", "color"), lambda: color.clear)
A("cl-dash", ("clear", "dash"), lambda: style.dash.clear)
A("cl", ("clear", None), lambda: attr.clear)
A("scale", "trafo", lambda: trafo.scale(2, .5), (2, 0, 0, .5, 0, 0))
A("rot", "trafo", lambda: trafo.rotate(30), g.rotate(30))
A("shift", "trafo", lambda: trafo.translate_pt(7, -3), g.translate(7, -3))
A("mirror", "trafo", lambda: trafo.mirror(90), (-1, 0, 0, 1, 0, 0))
A("clip", "clip", lambda: canvas.clip(path.rect_pt(-5, -5, 30, 20)), [(True, [(-5, -5), (25, -5), (25, 15), (-5, 15)])])

STROKEONLY = ["linewidth", "linecap", "linejoin", "miterlimit", "dash", "linestyle"]


def merge(names):
    """the documented rules: last of a class wins, clears remove what is before, line
    widths go in front of dashes"""
    out = []
    for n in names:
        k = ATTRS[n][0]
        if isinstance(k, tuple):
            out = [o for o in out if k[1] is not None and ATTRS[o][0] != k[1]]
            continue
        if k not in ("trafo", "clip"):
            out = [o for o in out if ATTRS[o][0] != k]
        out.append(n)
    lw = [o for o in out if ATTRS[o][0] == "linewidth"]
    return lw + [o for o in out if ATTRS[o][0] != "linewidth"]


class MState(M.State):
    def __init__(self):
        super().__init__()
        self.width = T0
        self.eo = False

    def copy(self):
        s = MState()
        s.__dict__.update(self.__dict__)
        return s

    def key(self):
        return tuple(repr(v) for k, v in sorted(self.__dict__.items()) if k != "bits")


def applystyle(st, name, stroke=True, fill=True):
    k, _, eff = ATTRS[name]
    if k in ("color", "transparency"):
        eff(st, stroke, fill)
    else:
        eff(st)


# ---------------------------------------------------------------- paths
def poly(*pts, closed=False):
    items = [path.moveto_pt(*pts[0])] + [path.lineto_pt(*p) for p in pts[1:]]
    return path.path(*(items + ([path.closepath()] if closed else [])))


def polysub(pts, closed):
    return [(closed, [(p, q) for p, q in zip(pts, pts[1:] + (pts[:1] if closed else []))])]


TRI = [(0, 0), (20, 4), (9, 16)]
SQ1 = [(1, 1), (18, 1), (18, 17), (1, 17)]
SQ2 = [(5, 4), (5, 12), (12, 12), (12, 4)]
SQ3 = [(4, 4), (12, 4), (12, 12), (4, 12)]


def curve():
    return path.curve_pt(0, 0, 5, 18, 12, -9, 20, 7)


PATHS = [(lambda: poly(*TRI), polysub(TRI, False)),
         (lambda: poly(*SQ1, closed=True) + poly(*SQ3, closed=True), polysub(SQ1, True) + polysub(SQ3, True)),
         (curve, [(False, [((0, 0), (5, 18), (12, -9), (20, 7))])]),
         (lambda: curve().normpath(), [(False, [((0, 0), (5, 18), (12, -9), (20, 7))])])]


def tpath(m, subs):
    return [(c, [tuple(g.app(m, p) for p in s) for s in l]) for c, l in subs]


def cut(subs, d):
    """the triangle path without its first d points of length"""
    (c, l), = subs
    p, q = l[0]
    L = math.dist(p, q)
    return [(c, [((p[0]+(q[0]-p[0])*d/L, p[1]+(q[1]-p[1])*d/L), q)] + l[1:])]


class blob(deco.deco, attr.attr):
    """ornament: a filled and a stroked square at a fixed place"""
    def __init__(self, attrs=()):
        self.attrs = list(attrs)

    def decorate(self, dp, texrunner):
        dp.ornaments.fill(poly(*SQ2, closed=True), self.attrs)
        dp.ornaments.stroke(poly(*SQ2, closed=True))


class shorten(deco.deco, attr.attr):
    """do not stroke the first three points of the path"""
    def decorate(self, dp, texrunner):
        dp.ensurenormpath()
        dp.excluderange(0, 3*unit.t_pt)


# ---------------------------------------------------------------- programs
# item = ("p", path, kind, strokestyles or None, fillstyles or None, styles, decos) | ("c", attrs, items) | ("i", item, attrs)

def build(c, item):
    k = item[0]
    if k == "c":
        c.insert(mkcanvas(item))
    elif k == "i":
        inner = mkcanvas(item[1])
        c.insert(inner, [ATTRS[n][1]() for n in item[2]])
    else:
        _, pi, ss, fs, styles, decos = item
        p = PATHS[pi][0]()
        at = [ATTRS[n][1]() for n in styles]
        for d in decos:
            at.append(blob() if d == "blob" else blob([color.rgb(0, 0, 1)]) if d == "blobblue" else shorten())
        if ss is not None and fs is None and not ss:
            c.stroke(p, at)
        elif fs is not None and ss is None and not fs:
            c.fill(p, at)
        else:
            d = []
            if fs is not None:
                d.append(deco.filled([ATTRS[n][1]() for n in fs]) if fs else deco.filled)
            if ss is not None:
                d.append(deco.stroked([ATTRS[n][1]() for n in ss]) if ss else deco.stroked)
            c.draw(p, at + d)


def mkcanvas(item):
    c = canvas.canvas([ATTRS[n][1]() for n in item[1]])
    for i in item[2]:
        build(c, i)
    return c


def applycanvas(st, names):
    st = st.copy()
    names = merge(names)
    for n in names:
        if ATTRS[n][0] not in ("trafo", "clip"):
            applystyle(st, n)
    m = g.IDENT
    clip = None
    for n in reversed(names):       # leftmost transformation is applied first
        if ATTRS[n][0] == "trafo":
            m = g.mul(m, ATTRS[n][2])
        elif ATTRS[n][0] == "clip":
            clip = tpath(m, [x for c, p in ATTRS[n][2] for x in polysub(p, c)])
    if clip is not None:
        st.clips = st.clips + ((tpath(st.ctm, clip), False),)
    st.ctm = g.mul(st.ctm, m)
    return st


def model(st, item, out):
    k = item[0]
    if k == "c":
        st = applycanvas(st, item[1])
        for i in item[2]:
            model(st, i, out)
        return
    if k == "i":
        model(applycanvas(st, item[2]), item[1], out)
        return
    _, pi, ss, fs, styles, decos = item
    p = PATHS[pi][1]
    st = st.copy()
    if "cl" in styles:
        # clears everything before, which includes the stroking and filling of the
        # stroke and fill methods (draw gets them last here)
        if ss is not None and fs is None and not ss or fs is not None and ss is None and not fs:
            ss = fs = None
    for n in merge(styles):
        if ATTRS[n][0] == "trafo":
            p = tpath(ATTRS[n][2], p)
        else:
            applystyle(st, n)
    if fs is not None:
        f = st.copy()
        for n in merge(fs):
            applystyle(f, n, stroke=False)
        mark(out, M.Mark("fill", f, tpath(f.ctm, p), eo=f.eo), f)
    if ss is not None:
        s = st.copy()
        for n in merge(ss):
            applystyle(s, n, fill=False)
        q = cut(p, 3) if "shorten" in decos else p
        mark(out, M.Mark("stroke", s, tpath(s.ctm, q)), s)
    for d in decos:
        if d.startswith("blob"):
            f = st.copy()
            if d == "blobblue":
                f.fill = ("rgb", (0, 0, 1))
            sq = tpath(st.ctm, polysub(SQ2, True))
            mark(out, M.Mark("fill", f, sq, eo=st.eo), f)
            mark(out, M.Mark("stroke", st, sq), st)


def mark(out, m, st):
    core.TRACE.step((m.op, st.key()))
    out.append(m)


def blank(m):
    """strips what is only visible in other marks"""
    return m


def run(case):
    top = ("c", case[0], case[1])
    want = []
    model(MState(), top, want)
    if not want:
        return None
    # clips which cut everything are still marks
    c = mkcanvas(top)
    outs = {}
    for fmt, fn in (("PS", "writeEPSfile"), ("PDF", "writePDFfile"), ("SVG", "writeSVGfile")):
        f = io.BytesIO()
        getattr(c, fn)(f)
        outs[fmt] = f.getvalue()
    got = {"PS": M.psmarks(outs["PS"]), "PDF": M.pdfmarks(outs["PDF"]), "SVG": M.svgmarks(outs["SVG"])}
    for fmt in ("PS", "PDF", "SVG"):
        ceps = 1e-5 if fmt != "SVG" else 1.01/255
        w = want
        if fmt == "PDF":
            # PDF has no hsb colours
            w = [torgbmark(m) for m in want]
        r = M.samemarks(got[fmt], w, ceps=ceps, exactspace=fmt != "SVG")
        require(r is None, "%s: %s", fmt, r)
    return tuple((m.op, m.eo, repr(m.color), m.alpha) for m in want)


def torgbmark(m):
    if m.color[0] == "hsb":
        n = M.Mark.__new__(M.Mark)
        n.__dict__.update(m.__dict__)
        n.color = ("rgb", M.hsb2rgb(*m.color[1]))
        return n
    return m


# ---------------------------------------------------------------- spaces
STYLES = [n for n in ATTRS if ATTRS[n][0] not in ("trafo", "clip")]
TRAFOS = ["scale", "rot", "shift", "mirror"]
FILLOK = ["red", "gray", "cmyk", "hsb", "transp", "opaque", "evenodd", "nonzero"]
STROKEOK = [n for n in ATTRS if ATTRS[n][0] in STROKEONLY + ["color", "transparency"]]
P0 = ("p", 0, (), None, (), ())
F0 = ("p", 1, None, (), (), ())
D0 = ("p", 0, (), None, ("dash",), ())      # shows the line width and the dash of the context


def gen_single(n):
    for kind in ((), None), (None, ()), ((), ()):
        for pi in range(len(PATHS)):
            for k in range(n+1):
                if k == 3 and (pi != 1 or kind != ((), ())):
                    continue
                for c in itertools.product(STYLES + TRAFOS[:2], repeat=k):
                    yield ((), (("p", pi) + kind + (c, ()),))


def gen_siblings(n):
    for k in range(1, n+1):
        for c in itertools.product(STYLES, repeat=k):
            yield ((), (("p", 0, (), (), c, ()), P0, F0, D0))
            if any(x.startswith("cl") for x in c):
                continue        # not accepted by canvases
            yield ((), (("c", c, (P0, F0)), P0, F0))
            yield ((), (("i", ("c", (), (F0, P0)), c), P0, F0))
            yield (c, (P0, F0))
            # own styles of the sibling on top of inherited ones
            yield (c[:1], (("p", 0, c[1:], None, (), ()), ("p", 1, (), (), (), ())) if all(x in STROKEOK for x in c[1:]) else (P0,))


def gen_nested(full):
    some = ["lw2", "dash", "dashdotted", "red", "transp", "evenodd", "scale", "rot", "shift", "clip", "miter3", "capround"]
    for a in itertools.chain([()], itertools.permutations(some, 1), itertools.permutations(some, 2)):
        for b in itertools.chain([()], itertools.permutations(some, 1), itertools.permutations(some, 2) if full else []):
            yield (a, (("c", b, (P0, F0)), ("p", 1, (), (), (), ("blob",))))
    for a in itertools.permutations(some, 3):
        yield (a, (P0, F0))
    if full:
        for a, b, c in itertools.product([()] + [(s,) for s in some], repeat=3):
            yield (a, (("c", b, (("c", c, (P0, F0)), F0)), P0))


def gen_strokefill(full):
    ss = [None, ()] + [(s,) for s in STROKEOK]
    fs = [None, ()] + [(s,) for s in FILLOK]
    outer = [()] + [(s,) for s in ("lw2", "red", "transp", "evenodd", "dash", "rot")]
    decos = [(), ("blob",), ("blobblue",), ("shorten",), ("shorten", "blob")]
    if full:
        ss += [p for p in itertools.permutations(("lw2", "dash", "red", "gray", "transp"), 2)]
        fs += [p for p in itertools.permutations(("red", "transp", "evenodd"), 2)]
    for s, f, o, d in itertools.product(ss, fs, outer, decos):
        if s is None and f is None:
            continue
        if "rot" in o and "shorten" in d:
            pass
        yield ((), (("p", 0 if "shorten" in d else 1, s, f, o, d), P0, F0, D0))


def gen_trafos(n):
    """all orders of transformations, a clip and a style on a canvas, below a transformed canvas"""
    al = ["scale", "rot", "shift", "mirror", "clip", "lw2"]
    for k in range(1, n+1):
        for c in itertools.product(al, repeat=k):
            if c.count("clip") > 1:
                continue
            yield (c, (P0,))
            if k < n:
                for o in ("rot", "scale", "clip"):
                    yield ((o,), (("c", c, (F0,)), P0))


def spaces(tier):
    q = tier == "quick"
    return [Space("single", lambda: gen_single(2 if q else 3), run, "every list of up to %d of 24 attributes on stroke, fill and both, 4 paths (lists of 3: one path)" % (2 if q else 3)),
            Space("siblings", lambda: gen_siblings(2), run, "every list of up to 2 of 22 styles on an item, a canvas and an insert, followed by plain siblings"),
            Space("nested", lambda: gen_nested(not q), run, "canvases nested to depth %d with all ordered attribute pairs of 12" % (2 if q else 3)),
            Space("stroke-fill", lambda: gen_strokefill(not q), run, "all stroke styles x fill styles x common styles x ornaments"),
            Space("trafos", lambda: gen_trafos(3 if q else 4), run, "all sequences of up to %d transformations, clip and line width" % (3 if q else 4))]
