"""P06: curve parameters, arc lengths and local geometry agree."""
import itertools, math
from mc import core, geom as g, machines as M, curves
from mc.core import Space, require
from checks import p04
from pyx import path, unit, trafo

PROPERTY = "P06"
LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of paths, argument lists and parameter arithmetic on the real path code against an arc length model integrated independently"
LEVEL_NOTE = "The model is the drawn curve of a PostScript path machine with arc lengths integrated by Gauss-Legendre quadrature; every combination of path, method, unit variant and argument list up to the bound is executed on the real code."
RULE = "A case is a path of the catalogue with a list of lengths, parameters or a parameter expression; non-trivial when positions were compared; states are the addressed positions."
ASSUMPTIONS = ["at the joint of two path parts either side's tangent, frame and curvature is accepted", "behaviour outside the path (negative lengths, beyond the end) is not specified"]

CAT = [
    [("moveto", 1, 2), ("lineto", 7, 5)],
    [("moveto", 1, 2), ("lineto", 7, 5), ("lineto", 9, -1), ("rlineto", -20, 1)],
    [("moveto", 0, 0), ("curveto", 0, 6, 6, 6, 9, 1)],
    [("moveto", 3, 1), ("curveto", 12, 9, -6, 8, 5, 0.5)],                            # with a loop
    [("moveto", -3, 1), ("curveto", 0, 3, 1, 30, 40, 2), ("lineto", 41, 9)],
    [("arc", 3, 3, 12, 20, 200)],
    [("moveto", 1, 1), ("arcn", 5, 1, 3, 300, 60), ("rlineto", 3, 3)],
    [("moveto", 1, 1), ("lineto", 9, 2), ("lineto", 4, 7), ("closepath",)],
    [("moveto", 1, 1), ("curveto", 5, 9, 15, 3, 4, -2), ("lineto", -3, -3.5), ("closepath",)],
    [("moveto", 1, 1), ("rcurveto", 1, 3, 4, 3.5, 6, 1), ("moveto", 20, 5), ("rlineto", 4, 3), ("rmoveto", 1, 1), ("rcurveto", 3, 1, 3, 2, 1, 5)],
    [("moveto", 0, 0), ("lineto", 8, 0), ("closepath",), ("moveto", 4, 4), ("lineto", 9, 5), ("lineto", 5, 11), ("closepath",), ("moveto", -3, 3), ("rlineto", 0, 7)],
    [("arc", 10, 2, 5, 0, 360), ("closepath",), ("moveto", 1, 3), ("curveto", 2, 2, 3, 2, 4, 3)],
    [("moveto", 0, 0), ("lineto", 3, 4), ("rlineto", 0, .00000001), ("lineto", 3, 14)],          # with a part below epsilon
    [("moveto", 0, 0), ("curveto", 0, 0, 6, 6, 9, 1), ("curveto", 9, 1, 9, 1, 20, 1)],      # vanishing derivatives at ends
    [("moveto", 0, 0), ("lineto", 500, 200), ("rcurveto", 60, 0, 0, -60, 60, -90)],
]
EXACT = set(i for i, ops in enumerate(CAT) if not any(o[0].startswith("arc") for o in ops))
FRACS = [0.0, 0.11, 0.37, 0.5, 0.73, 0.96, 1.0]
CACHE = {}


def setup():
    for i in range(len(CAT)):
        P = M.Path()
        for op in CAT[i]:
            p04.run_machine(P, op)
        subs = [(c, [s for s in l if curves.Piece(s, 0, 0, 0).len > 1e-5]) for c, l in P.done()]
        CACHE[i] = curves.Curve(subs)


def thepath(i, form):
    p = path.path(*[p04.build(op) for op in CAT[i]])
    return p.normpath() if form else p


def lengths(i):
    c = CACHE[i]
    l = set(round(f*c.len, 9) for f in FRACS)
    l.update(round(b, 9) for b in c.bounds())
    for p in c.pieces[:4]:
        l.add(p.start + p.len/2)
        l.add(p.start + p.len*.999)
    return sorted(min(x, c.len) for x in l)


def tol(i):
    return 1e-4 if i in EXACT else 3e-3


def near(i, s, f, what, got, scale=1.0):
    """some position within tolerance of s along the curve satisfies f(piece, t) -> deviation"""
    c = CACHE[i]
    best = None
    for p, t in c.locate(s, tol(i)):
        d = f(p, t)
        best = d if best is None else min(best, d)
    require(best is not None and best <= tol(i)*scale*max(1, c.len/100), "%s at length %r of path %d: %r deviates by %r", what, s, i, got, best)


def frame(tr):
    m = tr.matrix
    return m[0][0], m[0][1], m[1][0], m[1][1], unit.topt(tr.vector[0]) if not hasattr(tr, "vector_pt") else tr.vector_pt[0]


def check_at(i, s, q, what):
    near(i, s, lambda p, t: math.dist(p.at(t), q), what, q)


def check_rot(i, s, tr, what, move):
    x0, y0 = tr.apply_pt(0, 0)
    x1, y1 = tr.apply_pt(1, 0)
    x2, y2 = tr.apply_pt(0, 1)
    require(abs((x1-x0)*(y2-y0) - (y1-y0)*(x2-x0) - 1) < 1e-6, "%s is no rotation", what)

    def dev(p, t):
        tx, ty = p.tangent(t)
        d = max(abs(x1-x0-tx), abs(y1-y0-ty), abs(x2-x0+ty), abs(y2-y0-tx))
        if move:
            d = max(d, math.dist(p.at(t), (x0, y0)))
        else:
            d = max(d, abs(x0), abs(y0))
        return d
    near(i, s, dev, what, (x1-x0, y1-y0, x0, y0), 30)


def check_tangent(i, s, n, l, what):
    sg = g.segs(n.normpath())
    require(len(sg) == 1 and len(sg[0][1]) == 1 and len(sg[0][1][0]) == 2, "%s is no line", what)
    a, b = sg[0][1][0]
    require(core.close(math.dist(a, b), l, 1e-6), "%s has length %r instead of %r", what, math.dist(a, b), l)

    def dev(p, t):
        tx, ty = p.tangent(t)
        return max(math.dist(p.at(t), a), abs((b[0]-a[0])/l-tx), abs((b[1]-a[1])/l-ty))
    near(i, s, dev, what, (a, b), 30)


def check_curv(i, s, k, what):
    near(i, s, lambda p, t: abs(p.curvature(t)-k)/(.1+abs(p.curvature(t))), what, k, 30 if i in EXACT else 60)


def bent(p, t):
    """vanishing derivative: direction and curvature undefined or ill conditioned"""
    d = curves.d1(p.c, t)
    return math.hypot(*d) < .05*p.len


def skip(i, s):
    return any(bent(p, t) for p, t in CACHE[i].locate(s, 1e-3))


U = 1/unit.topt(1)          # user units per point: bare numbers


def run_lengths(case):
    i, form, idx = case
    ls = [lengths(i)[k] for k in idx]
    p = thepath(i, form)
    pts = p.at_pt(ls)
    require(isinstance(pts, list) and len(pts) == len(ls), "list in, list out")
    for s, q in zip(ls, pts):
        check_at(i, s, q, "at_pt")
    for s, q in zip(ls, p.at([U*s for s in ls])):
        check_at(i, s, [unit.topt(v) for v in q], "at")
    for s, q in zip(ls, p.at([s*unit.t_pt for s in ls])):
        check_at(i, s, [unit.topt(v) for v in q], "at")
    par = p.arclentoparam_pt(ls)
    pau = p.arclentoparam([U*s for s in ls])
    for variant, pp in (("arclentoparam_pt", par), ("arclentoparam", pau)):
        for s, r in zip(ls, p.paramtoarclen_pt(pp)):
            require(abs(s-r) < tol(i)*max(1, CACHE[i].len/100), "%s: length %r became %r", variant, s, r)
        for s, r in zip(ls, p.paramtoarclen(pp)):
            require(abs(s-unit.topt(r)) < tol(i)*max(1, CACHE[i].len/100), "%s: length %r became %r", variant, s, r)
        for s, q in zip(ls, p.at_pt(pp)):
            check_at(i, s, q, "at_pt of "+variant)
    for (s, a), (t, b) in itertools.combinations(list(zip(ls, par)), 2):
        core.TRACE.step((i, s, t))
        if abs(s-t) > 2*tol(i)*max(1, CACHE[i].len/100):
            require((a < b) == (s < t) and (a > b) == (s > t) and (a <= b) == (s <= t) and a != b, "order of parameters for lengths %r and %r", s, t)
        elif s == t:
            require(a == b and not a < b, "equal lengths, different parameters")
    # local geometry by length, by parameter
    ok = [s for s in ls if not skip(i, s)]
    if not ok:
        return (i, tuple(pts))
    par = p.arclentoparam_pt(ok)
    um = [U*s for s in ok]
    for s, *trs in zip(ok, p.rotation_pt(ok), p.rotation_pt(par), p.rotation(um), p.rotation(par)):
        for tr in trs:
            check_rot(i, s, tr, "rotation", False)
    for s, *trs in zip(ok, p.trafo_pt(ok), p.trafo_pt(par), p.trafo(um), p.trafo(par)):
        for tr in trs:
            check_rot(i, s, tr, "trafo", True)
    for s, a, b, c, d, e in zip(ok, p.tangent_pt(ok, 3), p.tangent_pt(par, 3), p.tangent(um, length=.2), p.tangent(par, length=2*unit.t_mm), p.tangent(par)):
        check_tangent(i, s, a, 3, "tangent_pt")
        check_tangent(i, s, b, 3, "tangent_pt")
        check_tangent(i, s, c, unit.topt(.2), "tangent")
        check_tangent(i, s, d, unit.topt(.2), "tangent")
        check_tangent(i, s, e, unit.topt(1), "tangent")
    for s, a, b in zip(ok, p.curvature_pt(ok), p.curvature_pt(par)):
        check_curv(i, s, a, "curvature_pt")
        check_curv(i, s, b, "curvature_pt")
    return (i, tuple(pts))


def gen_lengths(tier):
    depth = 3 if tier == "thorough" else 2
    for i in range(len(CAT)):
        n = len(lengths(i))
        few = range(n) if tier == "thorough" else sorted(set(range(i % 3, n, 3)) | {n//2})
        for k in range(1, depth+1):
            for idx in itertools.product(range(n) if k == 1 else few if k == 2 else few[::3], repeat=k):
                for form in (0, 1):
                    if k > 1 and form != (sum(idx) + i) % 2 and tier != "thorough":
                        continue
                    yield (i, form, idx)


def run_single(case):
    """single values instead of lists, and ends"""
    i, form, k = case
    p = thepath(i, form)
    s = lengths(i)[k]
    c = CACHE[i]
    par = p.arclentoparam_pt(s)
    for v in (par, p.arclentoparam(U*s), p.arclentoparam(s*unit.t_pt), p.arclentoparam(unit.length(s, "t", "pt"))):
        check_at(i, s, p.at_pt(v), "at_pt")
        check_at(i, s, [unit.topt(q) for q in p.at(v)], "at")
        require(abs(p.paramtoarclen_pt(v) - s) < tol(i)*max(1, c.len/100) and abs(v.arclen_pt() - s) < tol(i)*max(1, c.len/100) and
                abs(unit.topt(v.arclen()) - s) < tol(i)*max(1, c.len/100) and abs(unit.topt(p.paramtoarclen(v)) - s) < tol(i)*max(1, c.len/100), "length of a parameter")
    if not skip(i, s):
        check_rot(i, s, p.rotation(par), "rotation", False)
        check_rot(i, s, p.rotation_pt(s), "rotation_pt", False)
        check_rot(i, s, p.trafo(U*s), "trafo", True)
        check_rot(i, s, p.trafo_pt(s), "trafo_pt", True)
        check_tangent(i, s, p.tangent(U*s), unit.topt(1), "tangent")
        check_tangent(i, s, p.tangent_pt(s, 5), 5, "tangent_pt")
        check_curv(i, s, p.curvature_pt(s), "curvature_pt")
    # ends
    b, e = p.begin(), p.end()
    check_at(i, 0, p.at_pt(b), "at begin")
    check_at(i, c.len, p.at_pt(e), "at end")
    check_at(i, 0, p.atbegin_pt(), "atbegin_pt")
    check_at(i, c.len, p.atend_pt(), "atend_pt")
    check_at(i, 0, [unit.topt(v) for v in p.atbegin()], "atbegin")
    check_at(i, c.len, [unit.topt(v) for v in p.atend()], "atend")
    require(abs(p.paramtoarclen_pt(b)) < 1e-9 and abs(p.paramtoarclen_pt(e) - c.len) < tol(i)*max(1, c.len/100), "lengths of the ends")
    require(b < e and not e < b and (b <= par or s < 1e-6) and (par <= e or s > c.len - 1e-6), "parameter outside of begin and end")
    # total length
    for l in (p.arclen_pt(), unit.topt(p.arclen()), p.normpath().arclen_pt(upper=True), unit.topt(p.normpath().arclen(upper=True))):
        require(abs(l - c.len) < tol(i)*max(1, c.len/100), "arc length %r instead of %r", l, c.len)
    require(p.normpath().arclen_pt() <= p.normpath().arclen_pt(upper=True) + 1e-9, "lower bound above upper bound")
    if i in EXACT and i not in (12, 13):
        require(p.normpath().arclen_pt() <= c.len + 1e-9 and p.normpath().arclen_pt(upper=True) >= c.len - 1e-9, "bounds do not enclose the length")
    return (i, form, k, round(p.arclen_pt(), 3))


def run_mixed(case):
    """lists of parameters and lengths in any order"""
    i, form, idx, kinds = case
    p = thepath(i, form)
    ls = [lengths(i)[k] for k in idx]
    args = [p.arclentoparam_pt(s) if kind else s for s, kind in zip(ls, kinds)]
    argu = [a if kind else s*U for a, s, kind in zip(args, ls, kinds)]
    for s, q, r in zip(ls, p.at_pt(args), p.at(argu)):
        check_at(i, s, q, "at_pt")
        check_at(i, s, [unit.topt(v) for v in r], "at")
    if not any(skip(i, s) for s in ls):
        for s, a, b, c, d, e, f, h in zip(ls, p.trafo_pt(args), p.trafo(argu), p.rotation_pt(args), p.rotation(argu), p.tangent_pt(args, 2), p.tangent(argu), p.curvature_pt(args)):
            check_rot(i, s, a, "trafo_pt", True)
            check_rot(i, s, b, "trafo", True)
            check_rot(i, s, c, "rotation_pt", False)
            check_rot(i, s, d, "rotation", False)
            check_tangent(i, s, e, 2, "tangent_pt")
            check_tangent(i, s, f, unit.topt(1), "tangent")
            check_curv(i, s, h, "curvature_pt")
    return (i, idx, kinds)


def gen_mixed(tier):
    for i in range(len(CAT)):
        n = len(lengths(i))
        step = n//6+1 if tier == "thorough" else n//3+1
        for idx in itertools.product(range(i % 2, n, step), repeat=3):
            if len(set(idx)) < 2:
                continue
            for kinds in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)):
                if tier != "thorough" and (sum(idx) + len(kinds)) % 3 != kinds[0] + kinds[1]:
                    continue
                yield (i, (sum(idx)+i) % 2, idx, kinds)


def run_arith(case):
    i, form, a, b = case
    p = thepath(i, form)
    L = CACHE[i].len
    x, y = a*L, b*L
    px, py = p.arclentoparam_pt(x), p.arclentoparam_pt(y)
    res = []

    def expect(r, s, what):
        if -1e-9 <= s <= L+1e-9:
            require(abs(p.paramtoarclen_pt(r) - s) < tol(i)*max(1, L/100), "%s of %r and %r: %r instead of %r", what, x, y, p.paramtoarclen_pt(r), s)
            check_at(i, min(max(s, 0), L), p.at_pt(r), what)
            res.append(round(s, 6))
    expect(px + y*unit.t_pt, x+y, "param + length")
    expect(px + y*U, x+y, "param + number")
    expect(y*U + px, x+y, "number + param")
    expect(y*unit.t_pt + px, x+y, "length + param")
    expect(px - y*U, x-y, "param - number")
    expect(px - y*unit.t_pt, x-y, "param - length")
    expect(y*U - px, y-x, "number - param")
    expect(y*unit.t_pt - px, y-x, "length - param")
    if form:
        expect(px + py, x+y, "param + param")
        expect(px - py, x-y, "param - param")
    expect(px*b, x*b, "param * factor")
    expect(b*px, x*b, "factor * param")
    if b:
        expect(px/(1/b), x*b, "param / divisor")
        expect(px/2, x/2, "param / 2")
    if abs(x-y) > 1e-2:
        require((px < y*U) == (x < y) and (px > y*U) == (x > y) and (px >= y*U) == (x > y) and (px < y*unit.t_pt) == (x < y), "comparison with a length")
    return tuple(res)


def gen_arith(tier):
    fr = [0, .1, .4, .5, .75, 1] if tier != "thorough" else [k/16 for k in range(17)]
    for i in range(len(CAT)):
        for form in (0, 1):
            for a in fr:
                for b in fr:
                    yield (i, form, a, b)


def run_moved(case):
    """local geometry is carried along by transformations; lengths scale"""
    i, k, j = case
    tr = [trafo.rotate(40), trafo.scale(2), trafo.translate_pt(5, -3), trafo.mirror(30), trafo.scale(.5)*trafo.rotate(200)][k]
    f = [1, 2, 1, 1, .5][k]
    p = thepath(i, 0)
    q = p.transformed(tr)
    s = lengths(i)[j]
    L = CACHE[i].len
    require(abs(q.arclen_pt() - f*L) < 2*tol(i)*f*max(1, L/100), "length of the transformed path")
    for pt, w in ((q.at_pt(f*s), s), (q.reversed().at_pt(f*(L-s)), s)):
        i0 = tr.inverse().apply_pt(*pt)
        if len(CACHE[i].subs) == 1 or pt is not None and w not in CACHE[i].start:
            near(i, w, lambda p_, t: math.dist(p_.at(t), i0), "at on the transformed path", pt, 4)
    return (i, k, j)


def gen_moved():
    for i in range(len(CAT)):
        for k in range(5):
            for j in range(len(lengths(i))):
                yield (i, k, j)


def gen_single():
    for i in range(len(CAT)):
        for form in (0, 1):
            for k in range(len(lengths(i))):
                yield (i, form, k)


def run_outside(case):
    """lengths before the begin and behind the end of the path are kept by the parameters"""
    i, form, ss = case
    p = thepath(i, form)
    L = CACHE[i].len
    ss = [L+s[1] if isinstance(s, (tuple, list)) else s if s < 0 else s*L for s in ss]
    params = p.arclentoparam_pt(ss)
    back = p.paramtoarclen_pt(params)
    # the continuation of curves is approximate only
    out = lambda s: 4*tol(i)*max(1, L/100) + .35*max(0, -s, s-L)
    for s, q, b in zip(ss, params, back):
        require(abs(b-s) < out(s), "parameter at %r of %r is at length %r", s, L, b)
        for d in (6, -2):
            r = q + d*unit.t_pt
            require(not -.5 <= b+d <= L+.5 or abs(p.paramtoarclen_pt(r)-b-d) < out(b+d), "%r pt from %r at %r", d, b, p.paramtoarclen_pt(r))
    return (i, tuple(ss))


def gen_outside():
    al = [-1.2, -.4, 0, .5, 1, (1, .5), (1, 1.1)]
    for i in range(len(CAT)):
        if i == 13:
            continue    # vanishing derivatives at the ends
        for form in (0, 1):
            for n in (1, 2):
                for ss in itertools.product(al, repeat=n):
                    if any(isinstance(s, tuple) or s < 0 for s in ss):
                        yield (i, form, ss)


def spaces(tier):
    setup()
    b = "%d paths (lines, curves, arcs, closed, multi-part, with degenerate parts), path and normpath form, lengths at %d fractions, all part boundaries, middles and just before ends" % (len(CAT), len(FRACS))
    return [Space("single", gen_single, run_single, b),
            Space("lists", lambda: gen_lengths(tier), run_lengths, b + ("; all lists up to 3" if tier == "thorough" else "; all lists up to 2")),
            Space("mixed", lambda: gen_mixed(tier), run_mixed, b + "; lists of three mixing lengths and parameters"),
            Space("arithmetic", lambda: gen_arith(tier), run_arith, "parameter expressions over pairs of fractions"),
            Space("outside", gen_outside, run_outside, b + "; lists of up to two lengths beyond the ends of the path"),
            Space("transformed", gen_moved, run_moved, b + "; five similarity transformations, forwards and reversed")]
