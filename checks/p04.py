"""P04: path construction follows the PostScript path operators."""
import itertools, io, math
from mc import core, geom as g, machines as M
from mc.core import Space, require, Violation
from pyx import path, unit, trafo, normpath, writer

PROPERTY = "P04"
LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive exploration of all path operator sequences on the real path code against an independent PostScript path machine"
LEVEL_NOTE = "The model is a PostScript path machine (current point, subpaths, closedness); every operator sequence within the bounds is executed on the real code, and the normalized path as well as the emitted PostScript, PDF and SVG programs are compared with the machine state."
RULE = "A case is a sequence of path operators (or shape with parameters, or a split of a construction into append/extend/+/+= steps); it is non-trivial if geometry was compared; model states are the machine's subpaths after each operator."

OPS = [("moveto", 1, 2), ("rmoveto", -3, 1), ("lineto", 7, 5), ("rlineto", 2, -4), ("lineto", 1, 2),
       ("curveto", 0, 6, 6, 6, 9, 1), ("rcurveto", 1, 3, 4, 3.5, 6, 1),
       ("arc", 3, 3, 2, 20, 200), ("arc", 5, 1, 3, 300, 60), ("arcn", 2, 4, 2.5, 30, -100), ("arcn", 4, 4, 1.5, 60, 300),
       ("arct", 9, 4, 2, 11, 1.5), ("arct", 0, -5, 8, -6, 2),
       ("closepath",), ("multilineto_pt", ((2, 2), (4, 7))), ("multicurveto_pt", ((3, 5, 6, 5, 8, 2), (9, 0, 5, -3, 2, 1)))]


def run_machine(P, op, m=g.IDENT):
    k, a = op[0], op[1:]
    T = lambda x, y: g.app(m, (x, y))

    def rel(x, y):
        if P.cur is None:
            raise M.MachineError("nocurrentpoint")
        return (P.cur[0]+x, P.cur[1]+y)
    if k == "moveto":
        P.moveto(T(*a))
    elif k == "rmoveto":
        P.moveto(rel(*a))
    elif k == "lineto":
        P.lineto(T(*a))
    elif k == "rlineto":
        P.lineto(rel(*a))
    elif k == "curveto":
        P.curveto(a[:2], a[2:4], a[4:])
    elif k == "rcurveto":
        P.curveto(rel(*a[:2]), rel(*a[2:4]), rel(*a[4:]))
    elif k == "arc":
        M.psarc(P, m, *a, True)
    elif k == "arcn":
        M.psarc(P, m, *a, False)
    elif k == "arct":
        M.psarct(P, m, *a)
    elif k == "closepath":
        if P.cur is None:
            raise M.MachineError("nocurrentpoint")
        P.close()
    elif k == "multilineto_pt":
        for p in a[0]:
            P.lineto(p)
    elif k == "multicurveto_pt":
        for p in a[0]:
            P.curveto(p[:2], p[2:4], p[4:])


def build(op, units=False):
    k, a = op[0], op[1:]
    if k == "closepath":
        return path.closepath()
    if k.startswith("multi"):
        return getattr(path, k)([tuple(p) for p in a[0]])
    if units:
        n = 3 if k in ("arc", "arcn") else len(a)
        return getattr(path, k)(*([v*unit.t_pt for v in a[:n]] + list(a[n:])))
    return getattr(path, k + "_pt")(*a)


def degenerate_close(ops):
    """closing a subpath without extent is documented to raise; closing twice too"""
    P = M.Path()
    for op in ops:
        if op[0] == "closepath":
            if not P.subs or P.subs[-1][0] or max([math.dist(P.subs[-1][1], p) for s in P.subs[-1][2] for p in s] or [0]) < 1e-4:
                return True
        try:
            run_machine(P, op)
        except M.MachineError:
            return False
    return False


def nontrivial(np):
    return [(c, l) for c, l in g.segs(np) if l]


def output_ps(p):
    f = io.BytesIO()
    p.outputPS(writer.writer(f), None)
    s = M.PS(f.getvalue()).run()
    return s.path.done()


def output_pdf(p):
    f = io.BytesIO()
    p.outputPDF(writer.writer(f), None)
    c = M.Content(None, {})
    marks = c.run(f.getvalue() + b"S\n")
    return marks[0].path


def output_svg(p):
    return M.svgpath(p.returnSVGdata(), (1, 0, 0, -1, 0, 0)).done(), M.svgpath(p.returnSVGdata(inverse_y=False)).done()


def same(got, want, what):
    r = M.samepath(got, want)
    require(r is None, "%s: %s", what, r)


def compare(p, want, outputs=True):
    want = [(c, l) for c, l in want if max(math.dist(l[0][0], q) for s in l for q in s) > 1e-4]
    np = p.normpath()
    same(nontrivial(np), want, "normpath")
    if outputs:
        same(output_ps(p), want, "PostScript")
        same(output_pdf(p), want, "PDF")
        a, b = output_svg(p)
        same(a, want, "SVG")
        same(b, want, "SVG without inversion")
    same(nontrivial(np.path().normpath()), want, "normpath().path()")
    same(output_ps(np), want, "PostScript of the normpath")
    same(output_pdf(np), want, "PDF of the normpath")
    a, b = np.returnSVGdata(), np.returnSVGdata(inverse_y=False)
    same(M.svgpath(a, (1, 0, 0, -1, 0, 0)).done(), want, "SVG of the normpath")
    same(M.svgpath(b).done(), want, "SVG of the normpath without inversion")
    # first and last points and box
    if want and len(want) == len(np.normsubpaths):
        for q, w in ((p.atbegin_pt(), want[0][1][0][0]), (p.atend_pt(), want[-1][1][-1][-1])):
            require(math.dist(q, w) < 2e-3*max(1, abs(w[0]), abs(w[1])), "begin or end at %r instead of %r", q, w)
    if want:
        b = p.bbox()
        w = g.union([g.extent(s) for _, l in want for s in l])
        e = 2e-3*max(1, *[abs(v) for v in w])
        require(b.llx_pt <= w[0]+e and b.lly_pt <= w[1]+e and b.urx_pt >= w[2]-e and b.ury_pt >= w[3]-e, "box %r does not enclose %r", b.highrestuple_pt(), w)
    return np


def sig(want):
    return tuple((c, len(l), tuple(round(v, 3) for v in l[-1][-1])) for c, l in want)


def run_seq(case):
    ops = [OPS[i] for i in case]
    P = M.Path()
    bad = False
    for op in ops:
        try:
            run_machine(P, op)
        except M.MachineError:
            bad = True
            break
        core.TRACE.step(tuple((c, s, tuple(l)) for c, s, l in P.subs) + (P.cur,))
    p = path.path(*[build(op) for op in ops])
    require(len(p) == len(ops) and all(p[i] is x for i, x in enumerate(p.pathitems)), "len or getitem")
    if bad:
        for name, f in (("normpath", lambda: p.normpath()), ("bbox", lambda: p.bbox()), ("PDF", lambda: output_pdf(p)), ("SVG", lambda: output_svg(p)),
                        ("arclen", lambda: p.arclen())):
            try:
                f()
            except Exception:
                pass
            else:
                raise Violation("no error from %s for a path PostScript rejects" % name)
        return "rejected"
    if degenerate_close(ops):
        return None
    want = P.done()
    compare(p, want)
    return sig(want)


def gen_seq(n):
    for k in range(1, n+1):
        for c in itertools.product(range(len(OPS)), repeat=k):
            if k > 1 and OPS[c[0]][0] not in ("moveto", "arc", "arcn"):
                continue
            yield c


# --------------------------------------------------------------- ways of building
BUILD = [0, 1, 3, 5, 7, 11, 13, 14]


def gen_build(n):
    for k in range(1, n+1):
        for c in itertools.product(BUILD, repeat=k):
            if OPS[c[0]][0] not in ("moveto", "arc"):
                continue
            for way in itertools.product(range(7), repeat=min(k-1, 2)):
                yield (c, way)


def run_build(case):
    c, way = case
    ops = [OPS[i] for i in c]
    if degenerate_close(ops):
        return None
    P = M.Path()
    pre = []
    for op in ops:
        try:
            run_machine(P, op)
        except M.MachineError:
            return None
        pre.append([(a, list(b)) for a, b in P.done()])
    n = len(ops)
    # build ops[0], then the rest by up to two steps
    cuts = [n] if not way else [1, n] if len(way) == 1 else [1, 1 + (n-1)//2, n]
    p = path.path(*[build(op) for op in ops[:cuts[0]]])
    done = cuts[0]
    for w, e in zip(way, cuts[1:]):
        items = [build(op) for op in ops[done:e]]
        old = p
        oldlen = len(p)
        if w in (1, 3, 5):
            p.normpath(); p.bbox(); p.arclen()      # fill caches
        if w in (0, 1):
            for it in items:
                p.append(it)
        elif w in (2, 3):
            p.extend(items)
        elif w in (4, 5):
            q = path.path(*items)
            p += q
            require(len(q) == len(items) and p is old, "+= changed its right operand or made a copy")
        else:
            q = path.path(*items)
            p = p + q
            require(p is not old and len(old) == oldlen and len(q) == len(items), "+ changed an operand")
            old.append(path.lineto_pt(100, 100))
            q.append(path.lineto_pt(100, 100))
        done = e
        core.TRACE.step((tuple(c[:e]), w))
        if p.normpath().normsubpaths:
            same(nontrivial(p.normpath()), [x for x in pre[done-1]], "after step")
    compare(p, P.done(), outputs=False)
    return sig(P.done())


# --------------------------------------------------------------- units
def run_units(case):
    i, j, s = case
    ops = [("moveto", 1, 2), OPS[i], OPS[j]]
    if degenerate_close(ops):
        return None
    P = M.Path()
    for op in ops:
        run_machine(P, op)
    p = path.path(*[build(op, True) for op in ops])
    same(nontrivial(p.normpath()), P.done(), "lengths in true pt")
    # bare numbers and strings are user lengths in the default unit
    unit.set(defaultunit="pt", uscale=s)
    try:
        items = []
        for op in ops:
            k, a = op[0], op[1:]
            if k == "closepath" or k.startswith("multi"):
                items.append(build(op))
            else:
                n = 3 if k in ("arc", "arcn") else len(a)
                items.append(getattr(path, k)(*([v/s if i % 2 else unit.length(v, "t", "pt") for i, v in enumerate(a[:n])] + list(a[n:]))))
    finally:
        unit.set(defaultunit="cm", uscale=1)
    same(nontrivial(path.path(*items).normpath()), P.done(), "mixed lengths")
    return sig(P.done())


# --------------------------------------------------------------- arcs
ANG = [0, 30, 90, 135, 180, 225, 270, 330, 360, -45, -180, -360, 405, 500, 720, 1000]


def gen_arcs():
    for kind in ("arc", "arcn"):
        for a1, a2 in itertools.product(ANG, repeat=2):
            for r in (0, 2, 6.5):
                for lead in (None, (1, 1), (20, -3)):
                    for trail in (0, 1, 2):
                        yield (kind, a1, a2, r, lead, trail)


def run_arcs(case):
    kind, a1, a2, r, lead, trail = case
    ops = ([("moveto",) + lead] if lead else []) + [(kind, 3, -1, r, a1, a2)] + [[], [("rlineto", 2, 3)], [("closepath",)]][trail]
    if degenerate_close(ops) or r == 0 and lead is None:
        return None
    P = M.Path()
    for op in ops:
        run_machine(P, op)
    want = P.done()
    if max([math.dist(l[0][0], q) for c, l in want for s in l for q in s]) < 1e-4:
        return None
    p = path.path(*[build(op) for op in ops])
    compare(p, want)
    for i in range(2):
        same(nontrivial(path.path(*[build(op, True) for op in ops]).normpath()), want, "unit variant")
    return sig(want)


ARCT = [(x, y) for x in (-4, 0, 3, 10) for y in (-5, 0, 3, 6)]


def gen_arct():
    for p1 in range(len(ARCT)):
        for p2 in range(len(ARCT)):
            for r in (0, 0.7, 3):
                for s in ((1, 1), (-7, 3), (.1, .7)):
                    yield (s, p1, p2, r)
    # tangents in line with each other, forwards and backwards
    for x in range(1, 8):
        for y in range(-3, 8):
            for f in (2, 3, .5, -1):
                yield ((0.25, 0.5), (x, y), (.25+(x-.25)*f, .5+(y-.5)*f), 1)


def run_arct(case):
    s, p1, p2, r = case
    p1 = ARCT[p1] if isinstance(p1, int) else p1
    p2 = ARCT[p2] if isinstance(p2, int) else p2
    if p1 == p2 or p1 == tuple(s):
        return None     # rejected by PostScript as well
    ops = [("moveto",) + tuple(s), ("arct",) + tuple(p1) + tuple(p2) + (r,), ("rlineto", 1, 2)]
    P = M.Path()
    for op in ops:
        run_machine(P, op)
    if max(abs(v) for c, l in P.done() for q in l for w in q for v in w) > 1e4:
        return None
    compare(path.path(*[build(op) for op in ops]), P.done())
    return sig(P.done())


# --------------------------------------------------------------- shapes
VALS = (0, 1.5, -2, 4)


def gen_shapes():
    for u in (0, 1):
        for v in itertools.product(VALS, repeat=4):
            yield ("line", v, u)
            yield ("rect", v, u)
        for v in itertools.product((0, 2, -1), repeat=8):
            if u == 0 or sum(v) % 3 == 0:
                yield ("curve", v, u)
        for x, y, r in itertools.product(VALS, VALS, (0.5, 1, 7)):
            for e in (0.1, 5):
                yield ("circle", (x, y, r, e), u)
        for x, y, a, b, ang in itertools.product((0, 3, -2), (0, 1), (1, 2.5), (1, .5, 4), (0, 30, 90, 135, -20, 180)):
            yield ("ellipse", (x, y, a, b, ang), u)


def ellipse(x, y, a, b, ang):
    m = g.mul(g.translate(x, y), g.mul(g.rotate(ang), g.scale(a, b)))
    P = M.Path()
    M.psarc(P, m, 0, 0, 1, 0, 360, True)
    P.close()
    return P.done()


def run_shapes(case):
    k, v, u = case
    q = [x*unit.t_pt for x in v] if u else v
    P = M.Path()
    if k == "line":
        p = path.line(*q) if u else path.line_pt(*q)
        P.moveto(v[:2]); P.lineto(v[2:])
    elif k == "rect":
        p = path.rect(*q) if u else path.rect_pt(*q)
        if v[2] == 0 and v[3] == 0:
            return None
        x, y, w, h = v
        P.moveto((x, y)); P.lineto((x+w, y)); P.lineto((x+w, y+h)); P.lineto((x, y+h)); P.close()
    elif k == "curve":
        p = path.curve(*q) if u else path.curve_pt(*q)
        P.moveto(v[:2]); P.curveto(v[2:4], v[4:6], v[6:])
    elif k == "circle":
        x, y, r, e = v
        p = path.circle(q[0], q[1], q[2], arcepsilon=e) if u else path.circle_pt(x, y, r, arcepsilon=e)
        P.moveto((x+r, y))
        M.psarc(P, g.IDENT, x, y, r, e, 360-e, True)
        P.close()
    else:
        x, y, a, b, ang = v
        p = path.ellipse(q[0], q[1], q[2], q[3], ang) if u else path.ellipse_pt(*v)
        want = ellipse(*v)
        got = nontrivial(p.normpath())
        require(len(got) == 1 and got[0][0], "ellipse is not one closed subpath")
        for pt in M.polyline(got[0][1]):
            X, Y = g.app(g.inv(g.mul(g.translate(x, y), g.mul(g.rotate(ang), g.scale(a, b)))), pt)
            require(abs(math.hypot(X, Y)-1) < 2e-3, "ellipse passes %r", pt)
        L = M.trace(got[0][1])[0]; W = M.trace(want[0][1])[0]
        require(abs(L-W) < 3e-3*W, "ellipse has circumference %g instead of %g", L, W)
        return tuple(v)
    want = [(c, l) for c, l in P.done() if max(math.dist(l[0][0], z) for s in l for z in s) > 1e-4]
    if not want:
        return None
    compare(p, want)
    return sig(want)


# --------------------------------------------------------------- coincident and tiny steps
TINY = [("lineto", 1, 2), ("rlineto", 0, 0), ("rlineto", 4e-6, 0), ("rlineto", 0, 3), ("rcurveto", 0, 0, 0, 0, 0, 0), ("rcurveto", 1, 2, -1, 2, 0, 0),
        ("rcurveto", 0, 0, 2, 1, 2, 1), ("closepath",), ("lineto", 5, 2), ("rmoveto", 0, 0)]


def gen_tiny(n):
    for k in range(1, n+1):
        for c in itertools.product(range(len(TINY)), repeat=k):
            yield c


def run_tiny(case):
    ops = [("moveto", 1, 2)] + [TINY[i] for i in case]
    if degenerate_close(ops):
        return None
    P = M.Path()
    for op in ops:
        run_machine(P, op)
        core.TRACE.step(tuple((c, s, tuple(l)) for c, s, l in P.subs) + (P.cur,))
    want = P.done()
    if not want or max([math.dist(l[0][0], z) for c, l in want for s in l for z in s] or [0]) < 1e-4:
        return None
    p = path.path(*[build(op) for op in ops])
    compare(p, want)
    return sig(want)


def spaces(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [Space("sequences", lambda: gen_seq(n), run_seq, "all sequences of up to %d of 16 operators" % n, cpu=60),
            Space("construction", lambda: gen_build(3 if q else 4), run_build, "all sequences of up to %d of 8 operators, built in up to three steps by append, extend, += or +, with and without filled caches" % (3 if q else 4)),
            Space("units", lambda: itertools.product(range(len(OPS)), range(len(OPS)), (1, 2.5)), run_units, "all pairs of operators in unit variants, two unit scales"),
            Space("arcs", gen_arcs, run_arcs, "both directions, 16x16 angles, 3 radii, 3 leads, 3 continuations"),
            Space("tangent-arcs", gen_arct, run_arct, "all corner and end points on a 4x4 grid, 3 radii, 3 starts; collinear tangents"),
            Space("shapes", gen_shapes, run_shapes, "lines, rectangles, curves, circles and ellipses over parameter grids in pt and unit variants"),
            Space("tiny", lambda: gen_tiny(4 if q else 5), run_tiny, "all sequences of up to %d of 10 operators with coincident and tiny steps" % (4 if q else 5))]
