"""P09: attribute lists merge, clear and cycle by fixed rules."""
import itertools
from mc import core
from mc.core import Space, require
from pyx import attr, style, color, deco, deformer, trafo, canvas, path, pattern, text

PROPERTY = "P09"
LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive exploration of all attribute lists over abstract and real attribute kinds, and all selections, on the real attribute code against a rule table"
LEVEL_NOTE = "The model folds a list by a table of rules (append, keep last, sort before, clear) written from the documentation; every list up to the bound is merged by the real code and compared by identity, every prefix is a model state."
RULE = "A case is an attribute list, or a list of changeable attributes with index and total; non-trivial when the list is not empty; states are merged lists."


# rules: ("E", tag) keep last of tag; ("S", tags) before tags; ("SE", tag, tags); ("C", tag); ("X",) clear all; ("P",) append
def fold(items, rules, tags):
    out = []
    for it in items:
        r = rules[it]
        has = lambda x, t: t in tags[x]
        if r[0] == "P":
            out.append(it)
        elif r[0] == "E":
            out = [x for x in out if not has(x, r[1])] + [it]
        elif r[0] == "C":
            out = [x for x in out if not has(x, r[1])]
        elif r[0] == "X":
            out = []
        elif r[0] == "S":
            k = next((i for i, x in enumerate(out) if any(has(x, t) for t in r[1])), len(out))
            out = out[:k] + [it] + out[k:]
        elif r[0] == "SE":
            k = next((i for i, x in enumerate(out) if any(has(x, t) for t in r[2])), None)
            if k is None:
                out = [x for x in out if not has(x, r[1])] + [it]
            else:
                out = [x for x in out[:k] if not has(x, r[1])] + [it] + [x for x in out[k:] if not has(x, r[1])]
        core.TRACE.step(tuple(out))
    return out


# ------------------------------------------------------------- abstract kinds
class A(attr.exclusiveattr):
    def __init__(self): attr.exclusiveattr.__init__(self, A)
class B(A):            # a kind of A which excludes its own kind only
    def __init__(self): attr.exclusiveattr.__init__(self, B)
class C(attr.attr): pass
class D(attr.sortbeforeattr):
    def __init__(self): attr.sortbeforeattr.__init__(self, [A, C])
class E(attr.sortbeforeexclusiveattr):
    def __init__(self): attr.sortbeforeexclusiveattr.__init__(self, E, [C, D])
class F(attr.sortbeforeexclusiveattr):      # sorts before what it excludes
    def __init__(self): attr.sortbeforeexclusiveattr.__init__(self, A, [A])

ABS = [A(), A(), B(), C(), C(), D(), E(), E(), F(), attr.clearclass(A), attr.clearclass(C), attr.clearclass(E), attr.clear]
ABSRULES = [("E", "A"), ("E", "A"), ("E", "B"), ("P",), ("P",), ("S", ["A", "C"]), ("SE", "E", ["C", "D"]), ("SE", "E", ["C", "D"]), ("SE", "A", ["A"]),
            ("C", "A"), ("C", "C"), ("C", "E"), ("X",)]
ABSTAGS = [{"A"}, {"A"}, {"A", "B"}, {"C"}, {"C"}, {"D"}, {"E"}, {"E"}, {"F"}, set(), set(), set(), set()]


def merge(objs, items, rules, tags):
    l = [objs[i] for i in items]
    before = list(l)
    got = attr.mergeattrs(l)
    require(len(l) == len(before) and all(x is y for x, y in zip(l, before)), "mergeattrs changed its argument")
    require(got is not l, "mergeattrs returned its argument")
    want = fold(items, rules, tags)
    require(len(got) == len(want) and all(g is objs[w] for g, w in zip(got, want)), "merged to %r instead of %r",
            [next((k for k, o in enumerate(objs) if o is g), "?") for g in got], want)
    # merging is idempotent on its results
    again = attr.mergeattrs(got)
    require(len(again) == len(fold(want, rules, tags)), "merging the result again")
    return tuple(want)


def run_abs(case):
    return merge(ABS, case, ABSRULES, ABSTAGS)


def gen(n, k):
    for d in range(0, k+1):
        yield from itertools.product(range(n), repeat=d)


# ------------------------------------------------------------- real attributes
UNIT = path.rect_pt(0, 0, 1, 1)
REAL, RRULES, RTAGS = [], [], []


def add(obj, rule, tags=()):
    REAL.append(obj); RRULES.append(rule); RTAGS.append(set(tags))


for cls, o1, o2 in (("linecap", style.linecap.butt, style.linecap.round), ("linejoin", style.linejoin.bevel, style.linejoin.round),
                    ("miterlimit", style.miterlimit(3), style.miterlimit.lessthan60deg), ("dash", style.dash([1, 2]), style.dash([3], offset=1)),
                    ("linestyle", style.linestyle.dashed, style.linestyle.dotted), ("fillrule", style.fillrule.even_odd, style.fillrule.nonzero_winding),
                    ("color", color.rgb.red, color.cmyk.Tan), ("color", color.gray(.4), color.hsb(.3, .5, .7)), ("transparency", color.transparency(.3), color.transparency(.6)),
                    ("stroked", deco.stroked, deco.stroked([color.rgb.blue])), ("filled", deco.filled, deco.filled([color.rgb.blue]))):
    add(o1, ("E", cls), [cls])
    add(o2, ("E", cls), [cls])
add(style.linewidth.thin, ("SE", "linewidth", ["dash", "linestyle"]), ["linewidth"])
add(style.linewidth(.1), ("SE", "linewidth", ["dash", "linestyle"]), ["linewidth"])
add(pattern.hatched(.1, 30), ("E", "pattern"), ["pattern"])
add(pattern.crosshatched(.2, 30), ("E", "pattern"), ["pattern"])
add(deco.linehatched(.1, 45), ("H",), ["linehatched"])
add(deco.earrow(), ("P",), ["arrow"])
add(deco.barrow.large, ("P",), ["arrow"])
add(deco.shownormpath(), ("P",))
add(deformer.cycloid(), ("P",), ["cycloid"])
add(deformer.smoothed(1), ("P",), ["smoothed"])
add(deformer.parallel(.1), ("P",), ["parallel"])
add(trafo.rotate(30), ("P",))
add(canvas.clip(UNIT), ("P",))
for cls, o in (("linecap", style.linecap.clear), ("linejoin", style.linejoin.clear), ("miterlimit", style.miterlimit.clear), ("dash", style.dash.clear),
               ("linestyle", style.linestyle.clear), ("linewidth", style.linewidth.clear), ("fillrule", style.fillrule.clear), ("color", color.color.clear if hasattr(color.color, "clear") else color.clear),
               ("stroked", deco.stroked.clear), ("filled", deco.filled.clear), ("arrow", deco.arrow.clear), ("pattern", pattern.pattern.clear),
               ("linehatched", deco.linehatched.clear), ("cycloid", deformer.cycloid.clear), ("smoothed", deformer.smoothed.clear), ("parallel", deformer.parallel.clear)):
    add(o, ("C", cls))
add(attr.clear, ("X",))
# text attributes
add(text.halign.boxcenter, ("E", "boxhalign"), ["boxhalign", "local"])
add(text.halign.boxright, ("E", "boxhalign"), ["boxhalign", "local"])
add(text.halign.flushcenter, ("E", "flushhalign"), ["flushhalign", "local"])
add(text.halign.raggedleft, ("E", "flushhalign"), ["flushhalign", "local"])
add(text.mathmode, ("E", "mathmode"), ["mathmode", "local"])
add(text.phantom, ("P",), ["phantom", "local"])
add(text.parbox_pt(100), ("SE", "parbox", ["local"]), ["parbox"])
add(text.parbox(5), ("SE", "parbox", ["local"]), ["parbox"])
add(text.valign.top, ("SE", "valign", ["parbox", "local"]), ["valign"])
add(text.valign.bottom, ("SE", "valign", ["parbox", "local"]), ["valign"])
add(text.vshift.mathaxis, ("S", ["valign", "parbox", "local"]), ["vshift"])
add(text.vshift.topzero, ("S", ["valign", "parbox", "local"]), ["vshift"])
add(text.size.large, ("S", ["mathmode", "vshift"]), ["size"])
add(text.size(-1), ("S", ["mathmode", "vshift"]), ["size"])
add(text.clearmathmode, ("C", "mathmode"))
add(text.clearphantom, ("C", "phantom"))
add(text.parbox.clear, ("C", "parbox"))
add(text.valign.clear, ("C", "valign"))
add(text.vshift.clear, ("C", "vshift"))
add(text.size.clear, ("C", "size"))


def run_real(case):
    # linehatched replaces fills and earlier hatches
    rules = list(RRULES)
    h = [k for k, r in enumerate(rules) if r == ("H",)]
    for k in h:
        rules[k] = ("E", "hatchfill")
    tags = [t | {"hatchfill"} if t & {"filled", "linehatched"} else t for t in RTAGS]
    return merge(REAL, case, rules, tags)


# ------------------------------------------------------------- filters
CLS = [A, B, C, D, E, attr.clearclass, attr.exclusiveattr]
CLSIDX = [[0, 1, 2], [2], [3, 4], [5], [6, 7], [9, 10, 11], [0, 1, 2]]


def run_check(case):
    items, classes = case
    l = [ABS[i] for i in items]
    cl = [CLS[c] for c in classes]
    ok = set(k for c in classes for k in CLSIDX[c])
    got = attr.getattrs(l, cl)
    want = [i for i in items if i in ok]
    require(len(got) == len(want) and all(g is ABS[w] for g, w in zip(got, want)), "getattrs")
    try:
        attr.checkattrs(l, cl)
        good = True
    except TypeError as e:
        good = False
        bad = [i for i in items if i not in ok]
        require(bad and repr(ABS[bad[0]]) in str(e), "message %r does not name the first wrong attribute", str(e))
    require(good == (len(want) == len(items)), "checkattrs accepted a wrong attribute or rejected a good one")
    # defaults
    defaults = [ABS[3], ABS[0]]
    try:
        r = attr.refineattrs(l, defaults, cl)
        require(good, "refineattrs accepted a wrong attribute")
        w = fold([3, 0] + list(items), ABSRULES, ABSTAGS)
        require([next(k for k, o in enumerate(ABS) if o is x) for x in r] == w, "refineattrs")
    except TypeError:
        require(not good, "refineattrs rejected a good attribute")
    require(len(defaults) == 2 and len(l) == len(items), "refineattrs changed an argument")
    require(attr.refineattrs(None, defaults, cl) is None, "no attributes")
    return (items, classes, good)


def gen_check():
    for items in gen(len(ABS), 2):
        for k in (0, 1, 2):
            for classes in itertools.combinations(range(len(CLS)), k):
                yield (items, classes)
    for items in itertools.product((0, 2, 3, 5, 9), repeat=3):
        for classes in itertools.combinations(range(len(CLS)), 2):
            yield (items, classes)


# ------------------------------------------------------------- selection
def choices(n):
    return [C() for _ in range(n)]


def run_select(case):
    kinds, index, total = case
    l, want = [], []
    none = False
    for k, (kind, n) in enumerate(kinds):
        ch = choices(n)
        if kind == "plain":
            l.append(ch[0]); want.append(ch[0])
        elif kind == "cyclic":
            l.append(attr.changelist(ch)); want.append(ch[index % n])
        elif kind == "list":
            l.append(attr.changelist(ch, cyclic=0))
            if index < n:
                want.append(ch[index])
            else:
                none = True; want.append(None)
        elif kind == "multi":
            m = dict((t, attr.changelist(choices(t), cyclic=0)) for t in range(1, 7))
            l.append(attr.multichangeattr(m)); want.append(m[total].attrs[index])
        elif kind == "multilist":
            m = [None] + [attr.changelist(choices(max(1, t-1)), cyclic=0) for t in range(1, 7)]
            l.append(attr.multichangeattr(m))
            if index < max(1, total-1):
                want.append(m[total].attrs[index])
            else:
                none = True; want.append(None)
        elif kind == "palette":
            l.append(color.palette(ch)); want.append(ch[index % n])
        elif kind == "custom":
            o = C()
            class ch_(attr.changeattr):
                def select(self, i, t, o=o):
                    assert (i, t) == (index, total)
                    return o
            l.append(ch_()); want.append(o)
    before = list(l)
    got = attr.selectattrs(l, index, total)
    require(l == before, "selectattrs changed its argument")
    if none:
        require(got is None, "a missing choice has to make the list None")
    else:
        require(got is not l and len(got) == len(want) and all(x is y for x, y in zip(got, want)), "wrong choices")
    for a, w in zip(l, want):
        require(attr.selectattr(a, index, total) is w, "selectattr")
    require(attr.selectattrs(None, index, total) is None, "selectattrs of None")
    core.TRACE.step((index, total, tuple(w is None for w in want)))
    return (kinds, index, total, none)


def gen_select():
    base = [("plain", 1), ("cyclic", 1), ("cyclic", 2), ("cyclic", 3), ("list", 1), ("list", 2), ("list", 4), ("multi", 1), ("multilist", 1), ("palette", 2), ("custom", 1)]
    for d in (0, 1, 2, 3):
        for kinds in itertools.product(base, repeat=d):
            for total in range(1, 6 if d < 3 else 4):
                for index in range(total):
                    yield (kinds, index, total)


# shared instances: selecting for several plot items in turn does not disturb later selections
def run_history(case):
    n, cyc, sels = case
    ch = choices(n)
    c = attr.changelist(ch, cyclic=cyc)
    for i in sels:
        r = c.select(i, 4)
        require(r is (ch[i % n] if cyc else ch[i] if i < n else None), "selection depends on the history")
        core.TRACE.step((n, cyc, i))
    require(c.attrs is ch or list(c.attrs) == ch, "list of choices changed")
    return case


def spaces(tier):
    t = tier == "thorough"
    return [Space("abstract", lambda: gen(len(ABS), 5 if t else 4), run_abs, "all lists up to length %d over %d attributes of six kinds with class hierarchies, three clears and clear" % (5 if t else 4, len(ABS))),
            Space("real", lambda: gen(len(REAL), 3), run_real, "all lists up to length 3 over %d real style, decorator, deformer, text and clear attributes" % len(REAL)),
            Space("filters", gen_check, run_check, "getattrs, checkattrs and refineattrs: all lists up to length 2 (some 3) and class sets up to 2"),
            Space("selection", gen_select, run_select, "all lists up to 3 of plain and changeable attributes, all indices out of totals up to 5"),
            Space("history", lambda: ((n, c, s) for n in (1, 2, 3) for c in (0, 1) for d in (1, 2, 3, 4) for s in itertools.product(range(4), repeat=d)), run_history, "all selection histories up to length 4")]
