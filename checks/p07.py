"""P07: cutting, reversing, joining and transforming paths preserve the curve."""
import itertools, math
from mc import core, geom as g, machines as M, curves
from mc.core import Space, require, Violation
from checks import p04
from pyx import path, trafo, normpath, unit

PROPERTY = "P07"
LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive exploration of all operation histories (cut, reverse, join, concatenate, append, close, transform, convert) on real path objects against a model of Bezier subpaths, with snapshots of every object of the history"
LEVEL_NOTE = "The model is a list of subpaths of Bezier segments with its own cutting (blossoming), reversal and joining; after every operation the real result is compared with the model, and every earlier object of the history with its own snapshot."
RULE = "A case is a path of the catalogue with an operation history or a list of cuts; non-trivial when at least one operation was applied; states are the model's subpaths."

CAT = {
    "line": [("moveto", 1, 2), ("lineto", 7, 5)],
    "zigzag": [("moveto", 1, 2), ("lineto", 7, 5), ("lineto", 9, -1), ("rlineto", -12, 1)],
    "curve": [("moveto", 3, 1), ("curveto", 12, 9, -6, 8, 5, 0.5)],
    "mixed": [("moveto", -3, 1), ("curveto", 0, 3, 1, 30, 40, 2), ("lineto", 41, 9), ("rcurveto", 4, 1, 2, 6, 1, 9)],
    "triangle": [("moveto", 1, 1), ("lineto", 9, 2), ("lineto", 4, 7), ("closepath",)],
    "closedcurve": [("moveto", 1, 1), ("curveto", 5, 9, 15, 3, 4, -2), ("lineto", -3, -3.5), ("closepath",)],
    "two": [("moveto", 1, 1), ("rcurveto", 1, 3, 4, 3.5, 6, 1), ("moveto", 20, 5), ("rlineto", 4, 3), ("rlineto", 3, -5)],
    "closedopen": [("moveto", 0, 0), ("lineto", 8, 0), ("lineto", 4, 4), ("closepath",), ("moveto", -3, 3), ("rlineto", 0, 7), ("rlineto", 3, 1)],
    "three": [("moveto", 0, 9), ("rlineto", 5, 1), ("moveto", 4, 4), ("lineto", 9, 5), ("lineto", 5, 11), ("closepath",), ("moveto", 10, 3), ("rcurveto", 0, 7, 3, 3, 4, -1)],
    "arc": [("moveto", 0, 1), ("arc", 3, 3, 12, 20, 200)],
    "circle": [("moveto", 15, 2), ("arc", 10, 2, 5, 0, 360), ("closepath",)],
    "short": [("moveto", 0, 0), ("lineto", 3, 4), ("rlineto", 1e-8, 0), ("lineto", 3, 14), ("rlineto", 0, 3e-6)],
    "backforth": [("moveto", 0, 0), ("lineto", 9, 0), ("lineto", 0, 0), ("lineto", 5, 0)],
}
NAMES = list(CAT)
EPS = 3e-3


def model(name):
    P = M.Path()
    for op in CAT[name]:
        p04.run_machine(P, op)
    return clean(P.done())


def clean(subs):
    out = []
    for c, l in subs:
        l = [s for s in l if len(s) > 2 and max(math.dist(s[0], q) for q in s) > 1e-5 or math.dist(s[0], s[-1]) > 1e-5]
        if l and sum(math.dist(p, q) for s in l for p, q in zip(s, s[1:])) > 2e-3:
            out.append((bool(c), l))
    return out


def real(name):
    return path.path(*[p04.build(op) for op in CAT[name]])


def subs(p):
    return clean(g.segs(p.normpath()))


def compare(got, want, what):
    got, want = clean(got), clean(want)
    require(len(got) == len(want), "%s: %d subpaths instead of %d", what, len(got), len(want))
    for (c, l), (d, m) in zip(got, want):
        require(bool(c) == bool(d), "%s: closed is %r instead of %r", what, c, d)
        if l is m or l == m:
            continue
        a, b = curves.Curve([(c, l)]), curves.Curve([(d, m)])
        scale = max(1, b.len/50)
        require(abs(a.len-b.len) < EPS*scale, "%s: length %r instead of %r", what, a.len, b.len)
        for k in range(12):
            s = b.len*k/11
            p, q = a.at(min(s, a.len))[0], b.at(s)[0]
            require(math.dist(p, q) < EPS*scale, "%s: at %r of %r there is %r instead of %r", what, s, b.len, p, q)
        for x, y in zip(l, l[1:]):
            require(math.dist(x[-1], y[0]) < 1e-4, "%s: gap within a subpath", what)
        if c:
            require(math.dist(l[-1][-1], l[0][0]) < 1e-4, "%s: closed subpath does not return", what)


def revsub(sub):
    c, l = sub
    return c, [tuple(reversed(s)) for s in reversed(l)]


def part(sub, a, b):
    """open piece of a subpath between arc lengths a and b"""
    c = curves.Curve([sub])
    out = []
    for p in c.pieces:
        lo, hi = max(a, p.start), min(b, p.start+p.len)
        if hi - lo > 1e-7:
            out.append(tuple(g.sub(p.seg, p.param(lo-p.start), p.param(hi-p.start))))
    return out


def cut(m, positions):
    """documented result of split: pieces, each a list of subpaths; parts of a closed
    subpath before the first and after the last cut are joined"""
    c = curves.Curve(m)
    bounds = c.start + [c.len]
    pieces = [[]]
    for j, sub in enumerate(m):
        lo, hi = bounds[j], bounds[j+1]
        last = j == len(m)-1
        mine = [min(max(s-lo, 0), hi-lo) for s in positions if lo <= s and (s < hi or last)]
        n = hi-lo
        if not mine:
            pieces[-1].append(sub)
        elif sub[0]:
            pieces[-1].append((False, part(sub, mine[-1], n) + part(sub, 0, mine[0])))
            for a, b in zip(mine, mine[1:]):
                pieces.append([(False, part(sub, a, b))])
        else:
            e = [0] + mine + [n]
            pieces[-1].append((False, part(sub, e[0], e[1])))
            for a, b in zip(e[1:], e[2:]):
                pieces.append([(False, part(sub, a, b))])
    return [clean(p) for p in pieces]


# ------------------------------------------------------------------ split alone
def positions(name):
    c = curves.Curve(model(name))
    pos = set(round(c.len*f, 6) for f in (0, .07, .5, .64, 1))
    # boundaries between parts of one subpath, as well as within parts
    for p in c.pieces[::max(1, len(c.pieces)//4)]:
        if p.index:
            pos.add(p.start)
        pos.add(p.start + p.len*.4)
        pos.add(p.start + p.len*.41)
    return sorted(min(x, c.len) for x in pos)


def usable(name, s):
    """not at the joint of two subpaths, where a position belongs to either"""
    c = curves.Curve(model(name))
    return not any(abs(s-b) < 1e-3 for b in c.start[1:])


def gen_split(tier):
    for name in NAMES:
        pos = [k for k, s in enumerate(positions(name)) if usable(name, s)]
        for n in (0, 1, 2, 3):
            sel = pos if n < 3 or tier == "thorough" else pos[::2]
            for idx in itertools.combinations_with_replacement(sel, n):
                yield (name, idx, 0)
                if n in (1, 2):
                    yield (name, idx, 1)
                    yield (name, idx, 2)
                    if n == 1:
                        yield (name, idx, 3)
                    yield (name, idx, 4)
                    yield (name, idx, 5)


def run_split(case):
    name, idx, way = case
    p = real(name)
    m = model(name)
    pos = [positions(name)[k] for k in idx]
    L = curves.Curve(m).len
    before = subs(p)
    if way == 1:
        q = p.split(p.normpath().arclentoparam_pt(pos))
    elif way == 2:
        q = p.split([s*unit.t_pt for s in pos])
    elif way == 3:
        q = p.split_pt(pos[0])
    elif way == 4:
        p = p.normpath()
        q = p.split_pt([pos[0]] + [p.arclentoparam_pt(s) for s in pos[1:]])
    elif way == 5:
        q = p.normpath().split([s/unit.topt(1) for s in pos])
    else:
        q = p.split_pt(pos)
    want = cut(m, pos) if pos else [m]
    require(len(q) == len(want), "%d pieces instead of %d", len(q), len(want))
    total = 0
    for k, (a, b) in enumerate(zip(q, want)):
        core.TRACE.step((name, idx, k))
        compare(subs(a), b, "piece %d" % k)
        total += sum(curves.Curve([x]).len for x in subs(a))
    require(abs(total-L) < EPS*max(1, L/50), "pieces of total length %r instead of %r", total, L)
    require(subs(p) == before, "split changed the path")
    # pieces are independent of the path and of each other
    snaps = [subs(a) for a in q]
    for k, a in enumerate(q):
        if a.normsubpaths and a.normsubpaths[-1].normsubpathitems:
            if a.normsubpaths[-1].closed:
                a.normsubpaths[0] = a.normsubpaths[0].reversed()
            a.append(path.rlineto_pt(2, 3))
        for j, b in enumerate(q):
            require(j == k or j < k or subs(b) == snaps[j], "changing a piece changed another piece")
        require(subs(p) == before, "changing a piece changed the path")
    return (name, tuple(len(x) for x in want), tuple(pos))


# ------------------------------------------------------------------ histories
TR = trafo.trafo_pt([[1.5, .4], [-.3, .8]], [3, -7])
TRM = (1.5, -.3, .4, .8, 3, -7)
OTHER1 = [("moveto", 30, 1), ("rlineto", 3, 4), ("rcurveto", 1, 5, 5, 1, 6, 7)]
OTHER2 = [("moveto", 50, 1), ("rlineto", 3, 9), ("rlineto", 7, -1), ("closepath",), ("moveto", 60, 0), ("rlineto", 1, 5), ("moveto", 70, 3), ("rlineto", 4, 2), ("rlineto", 1, 1)]
OTHER3 = [("moveto", 80, 2), ("rlineto", 3, 1), ("moveto", 90, 2), ("rcurveto", 3, 1, 2, 5, 6, 6)]


def others(ops):
    P = M.Path()
    for op in ops:
        p04.run_machine(P, op)
    return path.path(*[p04.build(op) for op in ops]), clean(P.done())


class Rejected(Exception):
    pass


def joined(a, b):
    if a[-1][0] or b[0][0]:
        raise Rejected
    s, e = a[-1][1][-1][-1], b[0][1][0][0]
    return a[:-1] + [(False, a[-1][1] + ([(s, e)] if math.dist(s, e) > 0 else []) + b[0][1])] + b[1:]


OPNAMES = ["reverse", "transform", "splitsum", "splitfirst", "splitlast", "splitbound", "join", "rjoin", "joinnp", "ijoin", "add", "radd", "iadd",
           "lineto", "close", "moveto", "normpath", "path", "joinself", "addself"]


def step(p, m, op, hist):
    """one operation on the real object p and its model m; returns new pair"""
    L = curves.Curve(m).len
    if op == "reverse":
        return p.reversed(), [revsub(s) for s in reversed(m)]
    if op == "transform":
        return p.transformed(TR), [(c, [tuple(g.app(TRM, q) for q in s) for s in l]) for c, l in m]
    if op.startswith("split"):
        pos = {"splitsum": [.31*L], "splitfirst": [.28*L, .77*L], "splitlast": [.28*L, .77*L], "splitbound": [curves.Curve(m).pieces[-1].start]}[op]
        c = curves.Curve(m)
        if any(abs(s-b) < 1e-2 for s in pos for b in c.start):
            pos = [s+.1 for s in pos]
        q, w = p.split_pt(pos), cut(m, pos)
        require(len(q) == len(w), "%d pieces instead of %d", len(q), len(w))
        for a, b in zip(q, w):
            hist.append((a, b))
        if op == "splitfirst":
            return q[0], w[0]
        if op == "splitlast":
            return q[-1], w[-1]
        r = q[0]
        for a in q[1:]:
            r = r + a
        return r, [s for b in w for s in b]
    if op in ("join", "joinnp", "ijoin", "rjoin"):
        o, om = others(OTHER3 if op != "rjoin" else OTHER1)
        if op == "joinnp":
            o = o.normpath()
        hist.append((o, om))
        if op == "rjoin":
            return o << p, joined(om, m)
        if op == "ijoin":
            # in place: on a copy, to leave the history alone
            p = p + path.path()
            nm = joined(m, om)
            p.join(o)
            return p, nm
        return p.joined(o), joined(m, om)
    if op == "joinself":
        return p << p, joined(m, m)
    if op == "addself":
        return p + p, m + m
    if op == "add":
        o, om = others(OTHER2)
        hist.append((o, om))
        return p + o, m + om
    if op == "radd":
        o, om = others(OTHER2)
        o = o.normpath()
        hist.append((o, om))
        return o + p, om + m
    if op == "iadd":
        o, om = others(OTHER3)
        o = o.normpath()
        hist.append((o, om))
        return inplace(p, lambda q: q.__iadd__(o), hist), m + om
    if op == "lineto":
        c, l = m[-1]
        if c:
            return inplace(p, lambda q: q.append(path.rlineto_pt(2, 3)), hist), m + [(False, [(l[0][0], (l[0][0][0]+2, l[0][0][1]+3))])]
        e = l[-1][-1]
        return inplace(p, lambda q: q.append(path.rlineto_pt(2, 3)), hist), m[:-1] + [(False, l + [(e, (e[0]+2, e[1]+3))])]
    if op == "close":
        c, l = m[-1]
        if c:
            raise Rejected
        s, e = l[0][0], l[-1][-1]
        return inplace(p, lambda q: q.append(path.closepath()), hist), m[:-1] + [(True, l + ([(e, s)] if math.dist(s, e) > 1e-5 else []))]
    if op == "moveto":
        return inplace(p, lambda q: q.extend([path.moveto_pt(5, 50), path.rlineto_pt(1, 2)]), hist), m + [(False, [((5, 50), (6, 52))])]
    if op == "normpath":
        return p.normpath().copy(), m
    if op == "path":
        return p.path(), m
    raise KeyError(op)


def inplace(p, f, hist):
    """in place operations drop the object itself from the history"""
    hist[:] = [(o, w) for o, w in hist if o is not p and o is not getattr(p, "_normpath", None)]
    f(p)
    return p


def run_hist(case):
    name, ops = case[0], [OPNAMES[k] for k in case[1]]
    p, m = real(name), model(name)
    hist = [(p, m)]
    sig = []
    for op in ops:
        try:
            q, n = None, None
            q, n = step(p, m, op, hist)
        except Rejected:
            return None
        except normpath.NormpathException:
            # must be one the model rejects as well, with nothing changed
            try:
                mm = m
                if op in ("join", "joinnp", "ijoin"):
                    joined(m, others(OTHER3)[1])
                elif op == "rjoin":
                    joined(others(OTHER1)[1], m)
                elif op == "joinself":
                    joined(m, m)
                elif op == "close" and m[-1][0]:
                    raise Rejected
                raise
            except Rejected:
                for o, w in hist:
                    compare(subs(o), w, "object of the history after rejected %s" % op)
                return ("rejected", name, tuple(case[1]))
        core.TRACE.step((name, tuple((c, len(l), l[-1][-1]) for c, l in n)))
        compare(subs(q), n, "result of %s" % op)
        for o, w in hist:
            compare(subs(o), w, "object of the history after %s" % op)
        p, m = q, n
        hist.append((p, m))
        sig.append((op, len(m), round(curves.Curve(m).len, 2)))
    return tuple(sig)


def gen_hist(names, depth, ops=None):
    ks = [OPNAMES.index(o) for o in (ops or OPNAMES)]
    for d in range(1, depth+1):
        for name in names:
            for c in itertools.product(ks, repeat=d):
                yield (name, c)


ALIAS = ["join", "joinself", "addself", "iadd", "splitsum", "splitfirst", "splitlast", "reverse", "lineto", "close", "moveto", "normpath"]


# ------------------------------------------------------------------ sharing of the cached normpath
def run_cache(case):
    name, way = case
    p, m = real(name), model(name)
    n = p.normpath()
    if way == 0:
        p.append(path.rlineto_pt(2, 3))
        compare(subs(n), m, "earlier normpath of a changed path")
    elif way == 1:
        p += real("line")
        compare(subs(n), m, "earlier normpath of a changed path")
    elif way == 2:
        p.extend([path.moveto_pt(5, 50), path.rlineto_pt(1, 2)])
        compare(subs(n), m, "earlier normpath of a changed path")
    elif way == 3:
        if m[-1][0]:
            return None
        p.join(real("line"))
        compare(subs(n), m, "earlier normpath of a changed path")
        compare(subs(p), joined(m, model("line")), "joined path")
    elif way == 4:
        q = p.normpath(epsilon=1e-3)
        compare(subs(p), m, "path after normpath with other epsilon")
        require(all(s.epsilon == 1e-3 for s in q.normsubpaths), "epsilon of the normpath")
        require(all(s.epsilon == 1e-5 for s in p.normpath().normsubpaths), "epsilon of the normpath")
        compare(subs(q), m, "normpath with other epsilon")
        for r in (q.reversed(), q.copy(), q.transformed(TR), *q.split_pt([curves.Curve(m).len*.4])):
            require(all(s.epsilon == 1e-3 for s in r.normsubpaths), "operations lose epsilon")
    return (name, way)


def run_shared(case):
    name, way = case
    p, m = real(name), model(name)
    n = p.normpath()
    if way == 0:
        n.append(path.moveto_pt(5, 50))
        n.append(path.rlineto_pt(1, 2))
    elif way == 1:
        n += real("line")
    else:
        if m[-1][0]:
            return None
        n.join(real("line"))
    compare(subs(p), m, "path whose normpath was changed")
    return (name, way)


def spaces(tier):
    t = tier == "thorough"
    core_names = ["zigzag", "curve", "triangle", "two", "closedopen", "three"]
    out = [Space("split", lambda: gen_split(tier), run_split, "%d paths, all ascending lists of up to three positions out of part boundaries, ends and inner points; six ways of giving them" % len(CAT)),
           Space("histories-2", lambda: gen_hist(NAMES, 2), run_hist, "all histories of up to two of %d operations on %d paths" % (len(OPNAMES), len(CAT))),
           Space("histories-3", lambda: gen_hist(core_names if t else ["triangle", "two"], 4 if t else 3, ALIAS if not t else ALIAS[:8] + ["lineto", "close"]), run_hist,
                 "all histories of up to three (thorough: four) sharing-prone operations"),
           Space("cache", lambda: ((n, w) for n in NAMES for w in range(5)), run_cache, "changes before and after conversion"),
           Space("normpath-shared", lambda: ((n, w) for n in ("zigzag", "closedopen") for w in range(3)), run_shared, "in place changes of the normpath of a path")]
    return out
