"""P23: rational arithmetic, merging of tick lists, and partitions."""
import itertools, math
from fractions import Fraction as F
from mc import core
from mc.core import Space, require
from pyx.graph.axis import tick, parter

PROPERTY = "P23"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of rationals, number strings, tick list pairs and partition parameters over grids, compared with exact fractions"
LEVEL_NOTE = "Exhaustive over the stated grids. Range ends are either exact multiples of a distance or off by at least an eighth of it, so that the tolerance of the partitioners is not the subject."
RULE = "A case is one pair of rationals, one number string, one pair of tick lists or one partition call; non-trivial if the result has at least one tick or is a number; outcomes are the values."

rational = tick.rational


def val(r):
    require(isinstance(r.num, int) and isinstance(r.denom, int) and r.denom > 0, "not a normalised rational: %r/%r", r.num, r.denom)
    return F(r.num, r.denom)


# ------------------------------------------------------------ arithmetic
def gen_arith(n):
    def gen():
        r = range(-n, n+1)
        for a in r:
            for b in r:
                for c in r:
                    for d in r:
                        if b and d:
                            yield [a, b, c, d]
    return gen


def run_arith(case):
    a, b, c, d = case
    x, y = F(a, b), F(c, d)
    X = lambda: rational((a, b))
    Y = lambda: rational((c, d))
    require(val(X()) == x, "(%d, %d) became %s", a, b, X())
    require(val(X()*Y()) == x*y, "%s * %s = %s", x, y, X()*Y())
    require(val(abs(X())) == abs(x), "abs(%s) = %s", x, abs(X()))
    require(float(X()) == float(x), "float(%s) = %r", x, float(X()))
    if y:
        require(val(X()/Y()) == x/y, "%s / %s = %s", x, y, X()/Y())
        z = X()
        z /= Y()
        require(val(z) == x/y, "%s /= %s gives %s", x, y, z)
    else:
        for f in (lambda: X()/Y(), lambda: X().__itruediv__(Y())):
            try:
                f()
            except ZeroDivisionError:
                pass
            else:
                require(False, "%s was divided by zero", x)
    z, w = X(), Y()
    z *= w
    require(val(z) == x*y, "%s *= %s gives %s", x, y, z)
    require(val(w) == y, "the right operand changed")
    for name, f in (("<", lambda p, q: p < q), ("<=", lambda p, q: p <= q), ("==", lambda p, q: p == q),
                    ("!=", lambda p, q: p != q), (">", lambda p, q: p > q), (">=", lambda p, q: p >= q)):
        require(bool(f(X(), Y())) == f(x, y), "%s %s %s is wrong for %s/%s and %s/%s", x, name, y, a, b, c, d)
        if (d & -d) == d or (-d & d) == -d:   # an exact float
            require(bool(f(X(), float(y))) == f(x, y), "%s %s %r is wrong", x, name, float(y))
    cp = rational(X())
    cp *= Y()
    return (str(x*y), x < y)


def gen_power():
    for a in range(-4, 5):
        for b in range(-4, 5):
            for p in range(-4, 5):
                for kind in ("pair", "rational", "string", "float"):
                    yield [a, b, p, kind]


def run_power(case):
    a, b, p, kind = case
    if kind == "float" and b not in (1, 2, 4, -1, -2, -4):
        return None
    try:
        x = F(a, b)
        expect = x**p
    except ZeroDivisionError:
        expect = None
    try:
        if kind == "pair":
            X = rational((a, b), power=p)
        elif kind == "rational":
            src = rational((a, b))
            X = rational(src, power=p)
            require(val(src) == F(a, b), "the rational %s/%s was changed by taking its power", a, b)
        elif kind == "string":
            X = rational("%d/%d" % (a, b), power=p)
        else:
            X = rational(a/b, power=p)
    except ZeroDivisionError:
        require(expect is None or b == 0, "%s/%s to the %s raised ZeroDivisionError", a, b, p)
        return "zerodivision"
    if expect is None:
        require(p == 0, "%s/%s to the %s gave %s", a, b, p, X)
        return "zero power"
    require(val(X) == expect, "%s/%s to the %s from a %s gave %s", a, b, p, kind, X)
    return str(expect)


def gen_string(tier):
    signs = ["", "-", "+"]
    ints = ["", "0", "1", "07", "10", "250", "123456789012345678901"]
    fracs = [None, "", "0", "5", "05", "250", "000001", "98765432109876543210"]
    exps = [None, "e0", "e3", "E3", "e+2", "e-3", "E-1", "e12"]
    base = []
    for s, i, f, e in itertools.product(signs, ints, fracs, exps):
        if not i and not f:
            continue
        base.append(s + i + ("" if f is None else "." + f) + (e or ""))
    for s in base:
        yield [s]
        yield [" %s " % s]
    small = base[::7] if tier == "thorough" else base[::37]
    for s, t in itertools.product(small, small):
        yield [s + "/" + t]
        yield [s + " / " + t]
    for s in ("", "-", "1.2.3", "1e2e3", "1/2/3", "a", "1a", "1.a", "1e2.5", "--1", "1e--1", "0x10", "1/a", "1 2", "1,5"):
        yield ["bad:" + s]


def run_string(case):
    s, = case
    if s.startswith("bad:"):
        s = s[4:]
        if s in ("", "-"):
            return None      # not specified
        try:
            r = rational(s)
        except ValueError:
            return "ValueError"
        require(False, "%r was read as %s", s, r)
    try:
        x = F(1)
        parts = [F(p.strip()) for p in s.split("/")]
        x = parts[0]/(parts[1] if len(parts) == 2 else 1)
    except ZeroDivisionError:
        try:
            rational(s)
        except ZeroDivisionError:
            return "zerodivision"
        require(False, "%r did not raise", s)
    require(val(rational(s)) == x, "%r was read as %s instead of %s", s, rational(s), x)
    t = tick.tick(s, ticklevel=1, labellevel=None, label="L", labelattrs=[3])
    require(val(t) == x and (t.ticklevel, t.labellevel, t.label, t.labelattrs) == (1, None, "L", [3]), "tick from %r: %s", s, t)
    return str(x)


def gen_float():
    for m in (0, 1, -1, 2, -3, 25, 125, -375, 1234567890, 999999999, 9999999999, 1/3, 2/3, 0.1, 0.7, math.pi):
        for e in range(-12, 13):
            for p in (10, 3, 6, 15):
                yield [m, e, p]


def run_float(case):
    m, e, p = case
    x = m*10.0**e
    expect = F("%.*g" % (p, x))
    r = rational(x, floatprecision=p)
    require(val(r) == expect, "%r with precision %d was read as %s instead of %s", x, p, r, expect)
    if x:
        require(abs(val(r)/F(x)-1) <= F(1, 2*10**(p-1)), "%r with precision %d was read as %s", x, p, r)
    if p == 10:
        require(val(rational(x)) == expect, "%r was read as %s", x, rational(x))
    return str(expect)


# --------------------------------------------------------------- merging
REPR = {0: [(1, 2), (2, 4)], 1: [(1, 1), (3, 3)], 2: [(-1, 3), (-2, 6)], 3: [(3, 2), (6, 4)], 4: [(-5, 4), (-10, 8)]}


def ticks_for(spec, which):
    out = []
    for pos, tl, ll, lab in spec:
        out.append(tick.tick(REPR[pos][which], ticklevel=tl, labellevel=ll, label=lab))
    out.sort(key=lambda t: F(t.num, t.denom))
    return out


def gen_merge(tier):
    attrs = [(None, None, None), (0, None, None), (1, 0, None), (None, 1, "a"), (1, None, "b"), (0, 0, "c")]
    if tier == "thorough":
        attrs += [(None, 0, None), (2, 1, "d")]
    two = []
    for c in itertools.product([None] + attrs, repeat=2):
        two.append([[p] + list(x) for p, x in zip((0, 2), c) if x is not None])
    for l1 in two:
        for l2 in two:
            for eq in (0, 1):
                yield [l1, l2, eq]
    five = []
    for sub in range(32):
        five.append([p for p in range(5) if sub >> p & 1])
    for s1 in five:
        for s2 in five:
            for eq in (0, 1):
                yield [[[p, 1, None, None] for p in s1], [[p, 0, 1, None] for p in s2], eq]


def lev(a, b):
    return min([x for x in (a, b) if x is not None], default=None)


def desc(t):
    return (F(t.num, t.denom), t.ticklevel, t.labellevel, t.label)


def run_merge(case):
    s1, s2, eq = case
    l1, l2 = ticks_for(s1, 0), ticks_for(s2, 1)
    k1, k2 = list(l1), list(l2)
    d1, d2 = [desc(t) for t in l1], [desc(t) for t in l2]
    expect = {}
    for d in d1:
        expect[d[0]] = d
    for d in d2:
        if d[0] in expect:
            if eq:
                e = expect[d[0]]
                expect[d[0]] = (d[0], lev(e[1], d[1]), lev(e[2], d[2]), d[3] if e[3] is None else e[3])
        else:
            expect[d[0]] = d
    got = tick.mergeticklists(l1, l2) if eq else tick.mergeticklists(l1, l2, mergeequal=0)
    require([desc(t) for t in got] == [expect[k] for k in sorted(expect)], "merged %s with %s to %s", d1, d2, [desc(t) for t in got])
    require(len(l1) == len(k1) and len(l2) == len(k2) and all(a is b for a, b in zip(l1, k1)) and all(a is b for a, b in zip(l2, k2)),
            "the merged lists were changed")
    require([desc(t) for t in l2] == d2, "the ticks of the second list were changed")
    ml = tick.maxlevels(got)
    require(tuple(ml) == (max([t.ticklevel+1 for t in got if t.ticklevel is not None], default=0),
                          max([t.labellevel+1 for t in got if t.labellevel is not None], default=0)), "maxlevels gave %s", ml)
    return str([desc(t)[1:] for t in got]) if got else None


# ------------------------------------------------------------ partitions
def multiples(lo, hi, d):
    return [i*d for i in range(math.ceil(lo/d), math.floor(hi/d)+1)]


def ref_linear(lo, hi, ticks, labels, et, el, emin, emax):
    if ticks is None:
        ticks = labels[:1]
    elif labels is None:
        labels = ticks[:1]
    for e, l in ((et, ticks), (el, labels)):
        if e is not None and e < len(l):
            if emin:
                lo = math.floor(lo/l[e])*l[e]
            if emax:
                hi = math.ceil(hi/l[e])*l[e]
    return merge_ref([[multiples(lo, hi, d) for d in ticks], [multiples(lo, hi, d) for d in labels]])


def merge_ref(which):
    out = {}
    for k, lists in enumerate(which):
        for i, l in enumerate(lists):
            for p in l:
                t = out.setdefault(p, [None, None])
                t[k] = lev(t[k], i)
    return [(p,) + tuple(out[p]) for p in sorted(out)]


def got(ticks):
    r = [(val(t), t.ticklevel, t.labellevel) for t in ticks]
    require(all(isinstance(t, tick.tick) for t in ticks), "not a list of ticks")
    return r


def show(l):
    return " ".join("%s:%s:%s" % x for x in l)


DISTS = {"1": ["1"], "1/2,1/4": ["1/2", "1/4"], "2,1": ["2", "1"], "0.1,0.05": ["0.1", "0.05"], "3,2": ["3", "2"],
         "0.3": ["0.3"], "7/10,1/10": ["7/10", "1/10"], "2.5e2,50,10": ["2.5e2", "50", "10"], "none": None, "2": ["2"], "1,1/3": ["1", "1/3"]}


def gen_linear(tier):
    q = [F(n, 8) for n in range(0, 8, 3 if tier == "thorough" else 5)] if tier == "thorough" else [F(0), F(3, 8)]
    spans = [F(1), F(7, 8), F(5, 2), F(4)] + ([F(1, 4), F(11), F(25, 8)] if tier == "thorough" else [F(1, 4)])
    for t in DISTS:
        for l in DISTS:
            if t == l == "none":
                continue
            unit = DISTS[t] or DISTS[l]
            for start in (-3, -1, 0, 2):
                for off in q:
                    for sp in spans:
                        for et, el in ((0, None), (None, 0), (None, None), (1, 0), (0, 1), (0, 0)):
                            for e in ((0, 0), (1, 0), (0, 1), (1, 1)):
                                yield [t, l, str(start+off), str(sp), et, el, e[0], e[1]]


def clean(lo, hi, dists):
    """ends are multiples of each distance or clearly off"""
    for x in (lo, hi):
        for d in dists:
            r = (x/d) % 1
            if 0 < min(r, 1-r) < F(1, 1000):
                return False
    return True


def run_linear(case):
    t, l, start, sp, et, el, emin, emax = case
    T = None if DISTS[t] is None else [F(x) for x in DISTS[t]]
    L = None if DISTS[l] is None else [F(x) for x in DISTS[l]]
    unit = (T or L)[0]
    lo = F(start)*unit
    hi = lo + F(sp)*unit
    if not clean(lo, hi, (T or []) + (L or [])) or (hi-lo)/min((T or []) + (L or [])) > 200:
        return None
    kw = dict(extendtick=et, extendlabel=el)
    p = parter.linear(tickdists=DISTS[t], labeldists=DISTS[l], **kw)
    expect = ref_linear(lo, hi, T, L, et, el, emin, emax)
    funcs = p.partfunctions(float(lo), float(hi), emin, emax)
    require(len(funcs) == 1, "a linear partition has %d directions", len(funcs))
    ticks = funcs[0]()
    g = got(ticks)
    require(g == expect, "%s..%s: ticks %s instead of %s", lo, hi, show(g), show(expect))
    require(funcs[0]() is None, "more than one partition")
    again = got(p.partfunctions(float(lo), float(hi), emin, emax)[0]())
    require(again == expect, "a second partitioning gave %s", show(again))
    q = parter.linear(tickdists=T and [rational((x.numerator, x.denominator)) for x in T], labeldists=L and [rational((x.numerator, x.denominator)) for x in L], **kw)
    require(got(q.partfunctions(float(lo), float(hi), emin, emax)[0]()) == expect, "the distances given as rationals yield different ticks")
    # parameters changed by a call keep the rest
    q = parter.linear(tickdists=["17"], extendtick=el)(tickdists=DISTS[t], labeldists=DISTS[l], extendtick=et, extendlabel=el)
    require(got(q.partfunctions(float(lo), float(hi), emin, emax)[0]()) == expect, "the called partitioner differs")
    if (emin, emax) == (1, 1) and F(sp) != 4:
        q = p(extendtick=None)
        require(got(q.partfunctions(float(lo), float(hi), 1, 1)[0]()) == ref_linear(lo, hi, T, L, None, el, 1, 1), "call with extendtick=None")
        if T:
            q = p(labeldists=["2"])
            if clean(lo, hi, [F(2)]) and (hi-lo) < 400:
                require(got(q.partfunctions(float(lo), float(hi), 1, 1)[0]()) == ref_linear(lo, hi, T, [F(2)], et, el, 1, 1), "call with labeldists")
    return show(g) or None


def gen_autolinear(tier):
    for scale in ("1", "1/1000", "1000000", "3/10"):
        for lo in ("0", "-7/2", "1", "9/4", "-1", "121/100"):
            for span in ("1", "5/2", "9", "10", "99/10", "37/100", "1/10", "1001/100", "2/3"):
                for e in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    for v in ("default", "own", "one"):
                        for et in (0, None, 1):
                            yield [scale, lo, span, e[0], e[1], v, et]


VARIANTS = {"default": None, "own": [["1"], ["3", "1"], ["20/3", "10/3", "5/3"]], "one": [["2", "1/2"]]}


def run_autolinear(case):
    scale, lo, span, emin, emax, v, et = case
    lo = F(lo)*F(scale)
    hi = lo+F(span)*F(scale)
    steps = 7
    if VARIANTS[v] is None:
        p = parter.autolinear(extendtick=et)
        variants = [[F(1), F(1, 2)], [F(2), F(1)], [F(5, 2), F(5, 4)], [F(5), F(5, 2)]]
    else:
        p = parter.autolinear(extendtick=9)(variants=[[rational(x) for x in y] for y in VARIANTS[v]], extendtick=et)
        variants = [[F(x) for x in y] for y in VARIANTS[v]]
    up, down = p.partfunctions(float(lo), float(hi), emin, emax)
    # the directions may be walked alternately
    ups, downs = [], []
    fine = {"default": 4, "own": 3, "one": 1}[v]
    for i in range(steps):
        ups.append(got(up()))
        if i < fine:
            downs.append(got(down()))
    n = len(variants)

    def ref(i):
        k, j = divmod(i, n)
        d = [x*F(10)**k for x in variants[j]]
        if not clean(lo, hi, d):
            return None
        return ref_linear(lo, hi, d, None, et, None, emin, emax)
    k0 = math.floor(math.log10(hi-lo)+1e-9)
    for k in (k0, k0-1, k0+1):
        if all(ref(k*n+i) in (None, u) for i, u in enumerate(ups)) and all(ref(k*n-1-i) in (None, d) for i, d in enumerate(downs)):
            break
    else:
        i = [i for i in range(steps) if ref(k0*n+i) not in (None, ups[i])]
        require(False, "%s..%s: the candidates do not follow the variants: %s", lo, hi, [show(ups[j]) + " instead of " + show(ref(k0*n+j)) for j in i[:2]])
    if et == 0:
        for u in ups+downs:
            main = [x[0] for x in u if x[1] == 0]
            require(not emin or (main and u[0][0] == main[0] <= lo), "the range %s.. does not start at a tick: %s", lo, show(u))
            require(not emax or (main and u[-1][0] == main[-1] >= hi), "the range ..%s does not end at a tick: %s", hi, show(u))
    return show(ups[0]) or "empty"


def logpos(pre, lo, hi):
    """positions of a preexp within [lo, hi], both positive fractions"""
    pres, exp = pre
    out = set()
    for f in pres:
        i = 0
        while f*F(exp)**i > lo:
            i -= 1
        while f*F(exp)**i < lo:
            i += 1
        while f*F(exp)**i <= hi:
            out.add(f*F(exp)**i)
            i += 1
    return sorted(out)


def ref_log(lo, hi, ticks, labels, et, el, emin, emax):
    if ticks is None:
        ticks = labels[:1]
    elif labels is None:
        labels = ticks[:1]
    neg = hi < 0
    if neg:
        lo, hi, emin, emax = -hi, -lo, emax, emin
    for e, l in ((et, ticks), (el, labels)):
        if e is not None and e < len(l):
            exp = l[e][1]
            a, b = lo, hi
            if emin:
                lo = max(logpos(l[e], a/exp, a))
            if emax:
                hi = min(logpos(l[e], b, b*exp))
    out = merge_ref([[logpos(d, lo, hi) for d in ticks], [logpos(d, lo, hi) for d in labels]])
    return [(-p, t, l) for p, t, l in reversed(out)] if neg else out


PRES = {"1": ([F(1)], 10), "125": ([F(1), F(2), F(5)], 10), "1to9": ([F(i) for i in range(1, 10)], 10), "1e100": ([F(1)], 100),
        "13": ([F(1), F(3)], 10), "1e2": ([F(1)], 2), "1,3/2e4": ([F(1), F(3, 2)], 4)}
LOGSETS = {"none": None, "1": ["1"], "1,1to9": ["1", "1to9"], "1,125": ["1", "125"], "100,1": ["1e100", "1"], "125,1to9": ["125", "1to9"],
           "13": ["13"], "2": ["1e2"], "mix": ["1,3/2e4", "1e2"]}


def topre(names):
    if names is None:
        return None
    return [parter.preexp([rational((f.numerator, f.denominator)) for f in PRES[x][0]], PRES[x][1]) for x in names]


def gen_log(tier):
    los = ["1", "1/100", "3", "17/10", "2", "99/10", "10"]
    factors = ["10", "3", "1000", "7/2", "11/10"] + (["100000", "2", "9"] if tier == "thorough" else [])
    for t in LOGSETS:
        for l in LOGSETS:
            if t == l == "none":
                continue
            if tier == "quick" and l not in ("none", "1", "1,125", "mix") :
                continue
            for lo in los:
                for f in factors:
                    for sign in (1, -1):
                        for et, el in ((0, None), (None, 0), (1, None), (None, None), (0, 1)):
                            for e in ((0, 0), (1, 0), (0, 1), (1, 1)):
                                yield [t, l, lo, f, sign, et, el, e[0], e[1]]


def run_log(case):
    t, l, lo, f, sign, et, el, emin, emax = case
    T = None if LOGSETS[t] is None else [PRES[x] for x in LOGSETS[t]]
    L = None if LOGSETS[l] is None else [PRES[x] for x in LOGSETS[l]]
    lo = F(lo)
    hi = lo*F(f)
    if sign < 0:
        lo, hi = -hi, -lo
    p = parter.logarithmic(tickpreexps=topre(LOGSETS[t]), labelpreexps=topre(LOGSETS[l]), extendtick=et, extendlabel=el)
    expect = ref_log(lo, hi, T, L, et, el, emin, emax)
    funcs = p.partfunctions(float(lo), float(hi), emin, emax)
    g = got(funcs[0]())
    require(g == expect, "%s..%s: ticks %s instead of %s", lo, hi, show(g), show(expect))
    require(len(funcs) == 1 and funcs[0]() is None, "more than one partition")
    q = parter.logarithmic(tickpreexps=topre(["125"]), extendtick=7, extendlabel=el)(
        tickpreexps=topre(LOGSETS[t]), labelpreexps=topre(LOGSETS[l]), extendtick=et)
    g = got(q.partfunctions(float(lo), float(hi), emin, emax)[0]())
    require(g == expect, "the called partitioner gives %s", show(g))
    return show(g) or None


def gen_autolog():
    for lo in ("1", "1/1000", "3", "17/10", "2"):
        for f in ("10", "3", "1000", "100000000", "7/2"):
            for sign in (1, -1):
                for e in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    for et in (0, None):
                        for ae in (10, 100):
                            for v in ("default", "own"):
                                yield [lo, f, sign, e[0], e[1], et, ae, v]


def run_autolog(case):
    lo, f, sign, emin, emax, et, ae, v = case
    lo = F(lo)
    hi = lo*F(f)
    if sign < 0:
        lo, hi = -hi, -lo
    if v == "default":
        p = parter.autologarithmic(extendtick=et, autoexponent=ae)
        variants = [(["1", "1to9"], ["1", "125"]), (["1", "1to9"], None)]
    else:
        variants = [(["1", "13"], None), (["1e100", "1"], ["1"]), (["1e2"], ["1"])]
        p = parter.autologarithmic(extendtick=5, autoexponent=ae)(
            variants=[(topre(a), topre(b)) for a, b in variants], extendtick=et)
    first, second = p.partfunctions(float(lo), float(hi), emin, emax)
    n = 0
    for a, b in reversed(variants):
        g = got(first())
        expect = ref_log(lo, hi, [PRES[x] for x in a], None if b is None else [PRES[x] for x in b], et, None, emin, emax)
        require(g == expect, "%s..%s: variant %s gives %s instead of %s", lo, hi, a, show(g), show(expect))
        n += len(g)
    require(first() is None, "more candidates than variants")
    exp = ae
    for i in range(3):
        exp *= ae
        g = got(second())
        expect = ref_log(lo, hi, [([F(1)], exp), PRES["1"]], None, et, None, emin, emax)
        require(g == expect, "%s..%s: exponent %s gives %s instead of %s", lo, hi, exp, show(g), show(expect))
        n += len(g)
    return "%d ticks" % n


def spaces(tier):
    n = 5 if tier == "thorough" else 3
    return [
        Space("arithmetic", gen_arith(n), run_arith, "all pairs of fractions with numerators and denominators up to %d in magnitude, all operators" % n, True),
        Space("power", gen_power, run_power, "all fractions up to 4/4 of both signs to powers -4..4, from pairs, rationals, strings and floats", True),
        Space("strings", lambda: gen_string(tier), run_string, "all strings from sign, integer, fraction and exponent alphabets, alone and as fractions; malformed strings", True),
        Space("floats", gen_float, run_float, "16 mantissas, decades -12..12, precisions 3..15", True),
        Space("merging", lambda: gen_merge(tier), run_merge, "all pairs of lists of up to 2 ticks over levels and labels, all pairs of subsets of 5 positions", True),
        Space("linear", lambda: gen_linear(tier), run_linear, "all pairs of 11 tick and label distance lists, ranges, extensions", True),
        Space("autolinear", lambda: gen_autolinear(tier), run_autolinear, "3 variant lists, 216 ranges, extensions, 7 coarser and 4 finer candidates", True),
        Space("logarithmic", lambda: gen_log(tier), run_log, "pairs of 9 tick and label lists, positive and negative ranges, extensions", True),
        Space("autologarithmic", gen_autolog, run_autolog, "2 variant lists, 50 ranges of both signs, extensions, exponents", True),
    ]


ASSUMPTIONS = ["range ends are exact multiples of tick distances or off by more than a thousandth of them"]
