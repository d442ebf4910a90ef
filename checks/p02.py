"""P02: affine transformations."""
import itertools, math
from mc import core, geom as g
from mc.core import Space, require, Violation
from pyx import trafo, unit, path, canvas

PROPERTY = "P02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all transformation words up to a length, each compared with an independent matrix model on points, paths, boxes and canvases"
LEVEL_NOTE = "Exhaustive within the stated alphabets and word lengths on the real trafo module; compared to 1e-7; the reference builds mirror, rotate, slant and fixed-point variants from their geometric definition."
RULE = "A case is a word of constructors (or one constructor call with arguments); non-trivial if the composed map was compared on the point grid; outcomes are the composed matrices."
PT = 72/2.54

# (name, method name or None, args, reference) ; lengths in user cm unless _pt
A = []


def add(cls, args, ref, method=None):
    A.append((cls, args, ref, method))


add("translate_pt", (3, -2), g.translate(3, -2), "translated_pt")
add("translate", (1, 0.5), g.translate(PT, .5*PT), "translated")
add("rotate", (30,), g.rotate(30), "rotated")
add("rotate_pt", (-75, 4, 7), g.about(g.rotate(-75), 4, 7), "rotated_pt")
add("rotate", (110, 0.5, -1), g.about(g.rotate(110), .5*PT, -PT), "rotated")
add("scale", (2,), g.scale(2), "scaled")
add("scale_pt", (0.5, -3, 5, 2), g.about(g.scale(.5, -3), 5, 2), "scaled_pt")
add("scale", (1.5, 0.25, -1, 2), g.about(g.scale(1.5, .25), -PT, 2*PT), "scaled")
add("mirror", (25,), g.mirror(25), "mirrored")
add("mirror", (90,), g.mirror(90), "mirrored")
add("slant", (0.7,), g.slant(.7), "slanted")
add("slant_pt", (-0.4, 20, 3, 1), g.about(g.slant(-.4, 20), 3, 1), "slanted_pt")
add("slant", (0.5, 65, 1, -2), g.about(g.slant(.5, 65), PT, -2*PT), "slanted")
add("trafo_pt", (((1, 2), (3, 4)), (5, 6)), (1, 3, 2, 4, 5, 6))
add("trafo", (((0.5, -1), (2, 0)), (1, -2)), (.5, 2, -1, 0, PT, -2*PT))
add("trafo", (), g.IDENT)

PTS = [(0, 0), (1, 0), (0, 1), (-3, 2.5), (40, -17)]


def make(i):
    cls, args, ref, m = A[i]
    return getattr(trafo, cls)(*args)


def same(t, ref, what):
    for p in PTS:
        got, want = t.apply_pt(*p), g.app(ref, p)
        require(g.near(got, want, 1e-7), "%s: %r maps to %r, expected %r", what, p, got, want)


def rounded(m):
    return tuple(round(x, 5) + 0.0 for x in m)


def gen_words(n):
    for d in range(0, n+1):
        yield from itertools.product(range(len(A)), repeat=d)


def run_word(w):
    ref = g.IDENT
    t = trafo.identity
    meth = trafo.trafo()
    core.TRACE.visit(rounded(ref))
    factors = []
    for i in w:
        f = make(i)
        factors.append(f)
        old, oldref = t, ref
        t = f * t
        ref = g.mul(A[i][2], ref)
        core.TRACE.step(rounded(ref))
        if A[i][3]:
            meth = getattr(meth, A[i][3])(*A[i][1])
        else:
            meth = f * meth
        same(old, oldref, "left operand after product")
        same(f, A[i][2], "factor after product")
    same(t, ref, "product")
    same(meth, ref, "chain of methods")
    # one after the other
    for p in PTS:
        q = p
        for f in factors:
            q = f.apply_pt(*q)
        require(g.near(q, t.apply_pt(*p), 1e-7), "stepwise %r differs from product %r", q, t.apply_pt(*p))
    # the other association
    r = trafo.trafo()
    for f in reversed(factors):
        r = r * f
    same(r, ref, "left associated product")
    i = t.inverse()
    same(i, g.inv(ref), "inverse")
    same(t * i, g.IDENT, "t*inverse")
    same(i * t, g.IDENT, "inverse*t")
    same(i.inverse(), ref, "double inverse")
    same(trafo.identity, g.IDENT, "identity")
    # lengths
    for p in PTS[:4]:
        x, y = t.apply(p[0], p[1]*unit.cm)
        want = g.app(ref, (p[0]*PT, p[1]*PT))
        require(g.near((unit.topt(x), unit.topt(y)), want, 1e-7), "apply() gives %r, expected %r", (x, y), want)
    return rounded(ref)


# every constructor, all argument combinations, under user scale settings
def gen_ctor():
    angles = [0, 1, 30, 45, 90, 135, 180, 270, 359, -60, 725]
    pos = [None, (0, 0), (1, 0), (0, 2), (-3, 4)]
    sc = [1, 2, -1, 0.3, -2.5, 1e-3]
    for us in (1, 2, 0.5):
        for meth in (False, True):
            for suffix in ("", "_pt"):
                for a in angles:
                    for p in pos:
                        yield ("rotate", suffix, us, meth, (a,), p)
                    for s in (0, 0.5, -2):
                        for p in pos:
                            yield ("slant", suffix, us, meth, (s, a), p)
                for s in sc:
                    for p in pos:
                        yield ("scale", suffix, us, meth, (s,), p)
                        for s2 in sc:
                            yield ("scale", suffix, us, meth, (s, s2), p)
                for x in (0, 1, -2.5):
                    for y in (0, 3, -1):
                        yield ("translate", suffix, us, meth, (x, y), None)
            for a in angles:
                yield ("mirror", "", us, meth, (a,), None)
            for m in [((1, 0), (0, 1)), ((2, 1), (1, 1)), ((0, -1), (1, 0)), ((1, 2), (-3, .5))]:
                for v in [(0, 0), (1, -2), (3, .5)]:
                    yield ("trafo", "", us, False, (m, v), None)
                    yield ("trafo", "_pt", us, False, (m, v), None)


METH = dict(rotate="rotated", slant="slanted", scale="scaled", translate="translated", mirror="mirrored")


def run_ctor(case):
    name, suffix, us, meth, args, pos = case
    unit.set(uscale=us)
    try:
        k = 1 if suffix else PT*us
        if name == "rotate":
            ref = g.rotate(args[0])
        elif name == "slant":
            ref = g.slant(*args)
        elif name == "scale":
            ref = g.scale(*args)
        elif name == "translate":
            ref = g.translate(args[0]*k, args[1]*k)
        elif name == "mirror":
            ref = g.mirror(*args)
        else:
            (a, b), (e, f) = args[0], args[1]
            ref = (a[0], b[0], a[1], b[1], e*k, f*k)
        kw = {}
        if pos is not None:
            ref = g.about(ref, pos[0]*k, pos[1]*k)
            if suffix:
                kw = dict(x=pos[0], y=pos[1])
            else:
                kw = dict(x=pos[0]*unit.cm, y=pos[1])
        base = trafo.trafo_pt(((2, 0), (1, 1)), (4, 5))
        if meth:
            t = getattr(base, METH[name] + suffix)(*args, **kw)
            ref = g.mul(ref, (2, 1, 0, 1, 4, 5))
        else:
            t = getattr(trafo, name + suffix)(*args, **kw)
        same(t, ref, name)
        if pos is not None and not meth:
            require(g.near(t.apply_pt(pos[0]*k, pos[1]*k), (pos[0]*k, pos[1]*k), 1e-7), "the fixed point moves")
        if pos is not None:
            for bad in (dict(x=1), dict(y=1)):
                try:
                    getattr(trafo, name + suffix)(*args, **bad)
                except Exception:
                    pass
                else:
                    raise Violation("half a fixed point accepted")
        return rounded(ref)
    finally:
        unit.set(uscale=1)


# singular matrices
def gen_sing():
    for a, b, c, d in itertools.product((-1, 0, 1, 2), repeat=4):
        yield (a, b, c, d)


def run_sing(m):
    a, b, c, d = m
    det = a*d - b*c
    t = trafo.trafo_pt(((a, b), (c, d)), (1, 2))
    if det == 0:
        try:
            i = t.inverse()
        except Exception:
            return ("singular", m)
        raise Violation("the inverse of a singular matrix is %s" % i)
    same(t.inverse(), g.inv((a, c, b, d, 1, 2)), "inverse")
    return m


# paths, boxes, canvases
def shapes():
    p = path
    return [p.line_pt(1, 2, 7, -3), p.rect_pt(0, 0, 5, 2), p.curve_pt(0, 0, 1, 9, 8, -5, 4, 4),
            p.circle_pt(2, 3, 4), p.path(p.arc_pt(1, 1, 3, 20, 250)), p.path(p.moveto_pt(1, 1), p.arct_pt(9, 1, 9, 9, 2), p.lineto_pt(9, 9), p.closepath()),
            p.path(p.moveto_pt(0, 0), p.rlineto_pt(3, 1), p.rcurveto_pt(1, 1, 2, 2, 0, 5), p.closepath(), p.moveto_pt(8, 8), p.lineto_pt(9, 11)),
            p.path(p.moveto_pt(0, 0), p.multilineto_pt([(1, 5), (4, 4)]), p.multicurveto_pt([(5, 5, 6, 4, 7, 7)]))]


def gen_path(n):
    for s in range(len(shapes())):
        for w in gen_words(n):
            if w:
                yield (s, w)


def run_path(case):
    s, w = case
    p = shapes()[s]
    ref, t = g.IDENT, trafo.trafo()
    for i in w:
        ref = g.mul(A[i][2], ref)
        t = make(i) * t
    before = g.segs(p.normpath())
    want = [(c, [tuple(g.app(ref, q) for q in sg) for sg in l]) for c, l in before]
    results = [("path.transformed", p.transformed(t)), ("normpath.transformed", p.normpath().transformed(t)),
               ("trafo.deform", t.deform(p))]
    inplace = p.normpath()
    inplace = inplace.transformed(make(w[0]))
    for i in w[1:]:
        inplace = inplace.transformed(make(i))
    results.append(("stepwise", inplace))
    for name, r in results:
        got = g.segs(r.normpath() if hasattr(r, "normpath") else r)
        require(len(got) == len(want), "%s: %d subpaths instead of %d", name, len(got), len(want))
        for (c1, l1), (c2, l2) in zip(got, want):
            require(c1 == c2, "%s: closedness changed", name)
            require(len(l1) == len(l2), "%s: %d segments instead of %d", name, len(l1), len(l2))
            for s1, s2 in zip(l1, l2):
                for k in range(5):
                    require(g.near(g.bez(s1, k/4), g.bez(s2, k/4), 1e-6), "%s: point %r instead of %r", name, g.bez(s1, k/4), g.bez(s2, k/4))
    require(g.segs(p.normpath()) == before, "transforming changed the path")
    # bounding boxes
    bb = p.bbox()
    corners = [(bb.llx_pt, bb.lly_pt), (bb.urx_pt, bb.lly_pt), (bb.urx_pt, bb.ury_pt), (bb.llx_pt, bb.ury_pt)]
    tc = [g.app(ref, q) for q in corners]
    wb = (min(q[0] for q in tc), min(q[1] for q in tc), max(q[0] for q in tc), max(q[1] for q in tc))
    tb = bb.transformed(t)
    b2 = p.bbox()
    b2.transform(t)
    for b in (tb, b2):
        gb = b.highrestuple_pt()
        require(all(abs(x-y) <= 1e-6*max(1, abs(x)) for x, y in zip(gb, wb)), "transformed box %r expected %r", gb, wb)
    c = canvas.canvas([make(i) for i in w])
    c.stroke(p)
    c2 = canvas.canvas()
    sub = canvas.canvas()
    sub.stroke(p)
    c2.insert(sub, [t])
    for b in (c.bbox(), c2.bbox()):
        gb = b.highrestuple_pt()
        require(all(abs(x-y) <= 1e-6*max(1, abs(x)) for x, y in zip(gb, wb)), "canvas box %r expected %r", gb, wb)
    return (s, rounded(ref))


def spaces(tier):
    q = tier == "quick"
    return [Space("words", lambda: gen_words(3 if q else 4), run_word, "all words of up to %d of 16 factors" % (3 if q else 4)),
            Space("constructors", gen_ctor, run_ctor, "all constructors and methods over angle/factor/fixed point grids, pt and length variants, 3 user scales"),
            Space("singular", gen_sing, run_sing, "all 2x2 matrices over {-1,0,1,2}"),
            Space("shapes", lambda: gen_path(2 if q else 3), run_path, "8 shapes x all words of up to %d factors on paths, normpaths, boxes, canvases" % (2 if q else 3))]
