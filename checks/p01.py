"""P01: lengths obey unit arithmetic and late scaling."""
import itertools
from mc import core
from mc.core import Space, require, close, Violation
from pyx import unit

PROPERTY = "P01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of scale/length histories and all expression trees, against a 5-component reference vector"
LEVEL_NOTE = "Exhaustive within the stated bounds on the real unit module; the reference is a 5-vector of metres per kind; values are compared to 1e-9 relative."
RULE = "A case is one expression tree or one history of scale changes, constructions and conversions; it is non-trivial if at least one conversion is compared; outcomes are the converted values."

M = {"m": 1.0, "cm": 0.01, "mm": 0.001, "inch": 0.0254, "pt": 0.0254 / 72}
KINDS = "tuvwx"
CONV = [("tom", "m"), ("tocm", "cm"), ("tomm", "mm"), ("toinch", "inch"), ("topt", "pt")]
DEF = dict(u=1, v=1, w=1, x=1)


class Ref:
    """reference state: scales and default unit"""
    def __init__(self):
        self.scale = dict(DEF)
        self.unit = "cm"

    def set(self, **kw):
        for k, v in kw.items():
            if k == "defaultunit":
                self.unit = v
            else:
                self.scale[k[0]] = v

    def number(self, f):
        """a plain number as a user length"""
        return (0, float(f) * M[self.unit], 0, 0, 0)

    def make(self, f, kind, un):
        return tuple(float(f) * M[un or self.unit] if k == kind else 0 for k in KINDS)

    def metres(self, v):
        return v[0] + sum(v[i] * self.scale[KINDS[i]] for i in range(1, 5))

    def key(self):
        return (tuple(sorted(self.scale.items())), self.unit)


def reset():
    unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")


def compare(impl, vec, ref, what):
    out = []
    m = ref.metres(vec)
    for fn, un in CONV:
        got = getattr(unit, fn)(impl)
        want = m / M[un]
        require(close(got, want, 1e-9), "%s: %s gives %r, expected %r", what, fn, got, want)
        out.append(round(want, 6))
    return out


SETTINGS = [dict(), dict(uscale=2), dict(vscale=3), dict(wscale=0.5), dict(xscale=5),
            dict(uscale=0.25, vscale=7, wscale=11, xscale=13), dict(uscale=0, vscale=2),
            dict(vscale=0, wscale=0), dict(xscale=0, uscale=-1), dict(wscale=1.5, defaultunit="mm"),
            dict(defaultunit="inch"), dict(defaultunit="pt", uscale=3), dict(defaultunit="m", xscale=2)]


# --- space 1: every predefined length and constructor, every converter, every setting
def gen_units():
    for s in range(len(SETTINGS)):
        for before in (False, True):
            for un in M:
                yield ("const", s, before, "", un, 1)
                for k in KINDS:
                    yield ("const", s, before, k + "_", un, 1)
            for un in list(M) + [None]:
                for k in KINDS:
                    for f in (0, 1, -2.5, "3.25", 7):
                        yield ("make", s, before, k, un, f)
            for f in (0, 1, -3.5, 12):
                yield ("number", s, before, "u", None, f)


def run_units(case):
    what, s, before, k, un, f = case
    reset()
    ref = Ref()
    try:
        if before:
            unit.set(**SETTINGS[s]); ref.set(**SETTINGS[s])
        if what == "const":
            l = getattr(unit, k + un)
            v = ref.make(1, k[:1] or "u", un)
        elif what == "make":
            if un is None:
                l = unit.length(f, type=k)
            else:
                l = unit.length(f, type=k, unit=un)
            v = ref.make(f, k, un)
        else:
            l = f
            v = None
        if not before:
            unit.set(**SETTINGS[s]); ref.set(**SETTINGS[s])
        if v is None:
            v = ref.number(f)
        return compare(l, v, ref, "length")
    finally:
        reset()


# --- space 2: expression trees
ATOMS = [("n", 2), ("n", -0.5), ("s", "1.5"), ("l", (1, "u", "cm")), ("l", (3, "t", "pt")), ("l", (2, "v", "mm")),
         ("l", (-1, "w", "pt")), ("l", (5, "x", "inch")), ("l", (0.25, "u", None)), ("c", "v_cm"), ("c", "t_inch"),
         ("c", "w_m"), ("c", "mm")]
UN = ["neg", "mul2", "rmul-3", "div4"]
BIN = ["+", "-"]


def shapes(tier):
    atoms = range(len(ATOMS))
    for a in atoms:
        for u in UN:
            yield (u, a)
            for u2 in UN:
                yield (u2, (u, a))
    for a, b in itertools.product(atoms, atoms):
        for o in BIN:
            yield (o, a, b)
            for u in UN:
                yield (u, (o, a, b))
                yield (o, (u, a), b)
                yield (o, a, (u, b))
            for c in atoms:
                for o2 in BIN:
                    yield (o2, (o, a, b), c)
                    yield (o2, c, (o, a, b))
    if tier == "thorough":
        for a, b, c, d in itertools.product(atoms, repeat=4):
            for o in itertools.product(BIN, repeat=3):
                yield (o[0], (o[1], a, b), (o[2], c, d))
                yield (o[0], (o[1], (o[2], a, b), c), d)


def build(e, ref):
    """returns (impl value, 5-vector or plain number)"""
    if isinstance(e, int):
        k, v = ATOMS[e]
        if k == "n":
            return v, v
        if k == "s":
            return v, v
        if k == "l":
            f, t, un = v
            return (unit.length(f, t, un) if un else unit.length(f, t)), ref.make(f, t, un)
        t, _, un = v.rpartition("_")
        return getattr(unit, v), ref.make(1, t or "u", un)
    if e[0] in UN:
        i, r = build(e[1], ref)
        if not isinstance(r, tuple):
            raise Skip()
        if e[0] == "neg":
            return -i, tuple(-x for x in r)
        if e[0] == "mul2":
            return i * 2, tuple(x * 2 for x in r)
        if e[0] == "rmul-3":
            return -3 * i, tuple(x * -3 for x in r)
        return i / 4, tuple(x / 4 for x in r)
    i1, r1 = build(e[1], ref)
    i2, r2 = build(e[2], ref)
    if not isinstance(r1, tuple) and not isinstance(r2, tuple):
        raise Skip()
    if not isinstance(r1, tuple):
        r1 = ref.number(r1)
    if not isinstance(r2, tuple):
        r2 = ref.number(r2)
    if e[0] == "+":
        return i1 + i2, tuple(x + y for x, y in zip(r1, r2))
    return i1 - i2, tuple(x - y for x, y in zip(r1, r2))


class Skip(Exception):
    pass


def run_expr(e):
    reset()
    ref = Ref()
    try:
        try:
            i, r = build(e, ref)
        except Skip:
            return None
        out = []
        for s in (dict(), dict(uscale=3), dict(uscale=0.5, vscale=2, wscale=5, xscale=7)):
            unit.set(**s); ref.set(**s)
            out.append(compare(i, r, ref, "expression"))
        return out
    finally:
        reset()


# --- space 3: histories, explored as a state machine
OPS = [("set", dict(uscale=2)), ("set", dict(vscale=3)), ("set", dict(wscale=4)), ("set", dict(xscale=5)),
       ("set", dict(defaultunit="pt")), ("set", dict(defaultunit="mm", uscale=0.5)), ("set", dict()),
       ("acc", (1, "u", None)), ("acc", (2, "v", "cm")), ("acc", (1, "t", "mm")), ("acc", (1, "x", "pt")), ("acc", (3, "w", None)),
       ("addnum", 2), ("subnum", 1), ("rsubnum", 3), ("scale", -2), ("iadd", (1, "v", "pt"))]


def gen_hist(depth):
    for d in range(1, depth + 1):
        yield from itertools.product(range(len(OPS)), repeat=d)


def run_hist(case):
    reset()
    ref = Ref()
    l, v = unit.length(1, "u", "cm"), ref.make(1, "u", "cm")
    first, fv = unit.length(1, "v"), ref.make(1, "v", None)   # a bystander that must not change
    core.TRACE.visit((ref.key(), v))
    try:
        for o in case:
            op, a = OPS[o]
            if op == "set":
                unit.set(**a); ref.set(**a)
            elif op == "acc":
                l = l + (unit.length(a[0], a[1], a[2]) if a[2] else unit.length(a[0], type=a[1]))
                v = tuple(x + y for x, y in zip(v, ref.make(*a)))
            elif op == "iadd":
                old, ov = l, v
                l += unit.length(*a)
                v = tuple(x + y for x, y in zip(v, ref.make(*a)))
                compare(old, ov, ref, "operand of +=")
            elif op == "addnum":
                l = a + l
                v = tuple(x + y for x, y in zip(v, ref.number(a)))
            elif op == "subnum":
                l = l - a
                v = tuple(x - y for x, y in zip(v, ref.number(a)))
            elif op == "rsubnum":
                l = a - l
                v = tuple(y - x for x, y in zip(v, ref.number(a)))
            elif op == "scale":
                l = l * a
                v = tuple(x * a for x in v)
            core.TRACE.step((ref.key(), tuple(round(x, 9) for x in v)))
        out = compare(l, v, ref, "history")
        compare(first, fv, ref, "bystander")
        compare(2.5, ref.number(2.5), ref, "number")
        return out
    finally:
        reset()


# --- space 4: comparison and division of pairs
VALS = [("l", (1, "u", "cm")), ("l", (10, "t", "mm")), ("l", (1, "v", "inch")), ("l", (2.54, "w", "cm")), ("l", (72, "x", "pt")),
        ("l", (0, "u", "m")), ("l", (-1, "v", "cm")), ("l", (2, "u", "cm")), ("n", 1), ("n", 2), ("n", 0), ("n", -1), ("n", 2.5)]


def gen_cmp():
    for s in range(len(SETTINGS)):
        for a in range(len(VALS)):
            for b in range(len(VALS)):
                if VALS[a][0] == "l" or VALS[b][0] == "l":
                    yield (s, a, b)


def run_cmp(case):
    s, a, b = case
    reset()
    ref = Ref()
    try:
        unit.set(**SETTINGS[s]); ref.set(**SETTINGS[s])

        def mk(x):
            k, v = VALS[x]
            if k == "n":
                return v, ref.number(v)
            return unit.length(*v), ref.make(*v)
        (x, vx), (y, vy) = mk(a), mk(b)
        mx, my = ref.metres(vx), ref.metres(vy)
        got = [x < y, x <= y, x > y, x >= y, x == y, x != y]
        if abs(mx - my) > 1e-12:
            want = [mx < my, mx <= my, mx > my, mx >= my, False, True]
            require(got == want, "comparison %r expected %r", got, want)
        else:   # equal up to rounding: the six answers must at least be consistent
            require(got[4] != got[5] and got[0] + got[2] + got[4] == 1 and
                    got[1] == (got[0] or got[4]) and got[3] == (got[2] or got[4]), "inconsistent comparisons %r", got)
            if a == b:
                require(got[4], "a length is not equal to itself")
        if VALS[a][0] == "l" and VALS[b][0] == "l":
            if abs(my) > 1e-15:
                q = x / y
                require(isinstance(q, float) and close(q, mx / my, 1e-9), "quotient %r expected %r", q, mx / my)
            else:
                try:
                    q = x / y
                except ZeroDivisionError:
                    pass
                else:
                    raise Violation("division by a zero length gives %r" % q)
        return (got, round(mx, 9), round(my, 9))
    finally:
        reset()


# --- space 5: misuse raises
BAD = [("rdiv", lambda l: 5 / l), ("pow", lambda l: l ** 2), ("add None", lambda l: l + None), ("radd None", lambda l: None + l),
       ("add list", lambda l: l + [1]), ("sub text", lambda l: l - "abc"), ("rsub text", lambda l: "abc" - l),
       ("topt text", lambda l: unit.topt("abc")), ("tom None", lambda l: unit.tom(None)), ("lt text", lambda l: l < "abc"),
       ("ge None", lambda l: l >= None), ("make text", lambda l: unit.length("abc")), ("make unit", lambda l: unit.length(1, "u", "furlong")),
       ("div text", lambda l: l / "2"), ("topt list", lambda l: unit.topt([l])), ("float", lambda l: float(l)),
       ("sum text", lambda l: unit.topt(l + "one"))]


def run_bad(case):
    name, k = case
    reset()
    fn = dict(BAD)[name]
    l = unit.length(2, k, "cm")
    try:
        r = fn(l)
    except Exception as e:
        require(close(unit.tocm(l), 2), "operand changed")
        return (name, "raises")
    raise Violation("%s gives %r instead of raising" % (name, r))


def spaces(tier):
    return [
        Space("units", gen_units, run_units, "25+5 predefined lengths, all constructor kinds/units/values x 13 scale settings, set before or after construction"),
        Space("expressions", lambda: shapes(tier), run_expr, "all trees of up to 3 (thorough: 4) leaves over 13 atoms and 6 operators"),
        Space("histories", lambda: gen_hist(4 if tier == "quick" else 5), run_hist, "all histories of up to 4 (thorough: 5) of 17 operations"),
        Space("compare", gen_cmp, run_cmp, "all pairs of 13 values x 13 scale settings"),
        Space("misuse", lambda: itertools.product([b[0] for b in BAD], KINDS), run_bad, "17 misuses x 5 kinds"),
    ]
