"""P27: data sources deliver exactly the rows and columns asked for."""
import io, itertools, logging, math, os, struct, tempfile
from mc import core, graphs
from mc.core import Space, require, close
from pyx import graph, text
from pyx.graph import axis, data

logging.getLogger("pyx").setLevel(logging.CRITICAL)

PROPERTY = "P27"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of small data files over an alphabet of lines and cells times all selection options, of column specifications over all data kinds, and of read histories through the cache; delivered columns compared with an independent reader"
LEVEL_NOTE = "All files up to the stated number of lines over the line alphabet with every option combination, all cell sequences up to a length with every separator, all column specifications over the source kinds, all pairs of reads of one file."
RULE = "A case is one file text with its options, one column specification or one history of reads; non-trivial if data were delivered; outcomes are the delivered columns."


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or a != a and b != b or abs(a-b) <= 1e-12*max(1, abs(a), abs(b))
    return type(a) == type(b) and a == b


def samelist(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


# ------------------------------------------------------------ an independent reader
def cells(line):
    """cells of a line as (text, quoted)"""
    out = []
    i, n = 0, len(line)
    while i < n:
        if line[i] == '"':
            # a string in quotes ends with a quote in front of a blank or the end
            j = i+1
            while j < n and not (line[j] == '"' and (j+1 == n or line[j+1] in " \t")):
                j += 1
            if j < n:
                out.append((line[i+1:j], True))
                i = j+1
                while i < n and line[i] in " \t":
                    i += 1
                continue
        j = i
        while j < n and line[j] not in " \t":
            j += 1
        out.append((line[i:j], False))
        i = j
        while i < n and line[i] in " \t":
            i += 1
    return out


def value(c):
    t, quoted = c
    if quoted:
        return t
    try:
        return float(t)
    except ValueError:
        return t


def read(txt, skiphead=0, skiptail=0, every=1):
    names, lines = [], []
    for line in txt.split("\n"):
        line = line.strip(" \t\r")
        if line[:1] in ("#", "!", "%") and line:
            k = 0
            while k < len(line) and line[k] == line[0]:
                k += 1
            n = [c[0] for c in cells(line[k:].lstrip(" \t"))]
            if n and not lines:
                names = n
        elif line:
            lines.append([value(c) for c in cells(line)])
    rows = []
    for i, l in enumerate(lines):
        if i >= skiphead and i < len(lines)-skiptail and (i-skiphead) % every == 0:
            rows.append([i+1]+l)
    width = max([len(r) for r in rows], default=0)
    cols = [[r[k] if k < len(r) else None for r in rows] for k in range(width)]
    return names, cols, bool(len(lines) > 0)


def check(d, names, cols, want):
    """want maps column names to column numbers"""
    for n, k in want.items():
        require(n in d.columns and n in d.columnnames, "column %s is missing", n)
        require(samelist(list(d.columns[n]), cols[k]), "column %s is %s instead of %s", n, list(d.columns[n]), cols[k])
    expect = dict((n, i+1) for i, n in enumerate(names) if not cols or i+1 < len(cols))
    for n, k in expect.items():
        if n in want:
            continue
        require(n in d.columns, "column %r of the header is missing", n)
        require(samelist(list(d.columns[n]), cols[k] if cols else []), "column %r of the header is %s instead of %s", n, list(d.columns[n]), cols[k] if cols else [])
    require(set(d.columnnames) == set(want).union(expect) and set(d.columns) == set(d.columnnames), "columns %s instead of %s", sorted(d.columnnames), sorted(set(want).union(expect)))


LINES = ["1 2", "3", '4 x "q r"', "", "# A B", "#", '! C "D E" F', "  5\t6 7 8 "]


def gen_files(depth):
    opts = list(itertools.product((0, 1, 2), (0, 1, 2, 3), (1, 2, 3)))
    def gen():
        for n in range(depth+1):
            for ls in itertools.product(range(len(LINES)), repeat=n):
                for o in opts:
                    yield ls, o
    return gen


def run_files(case):
    ls, (skiphead, skiptail, every) = case
    txt = "\n".join(LINES[i] for i in ls)
    names, cols, some = read(txt, skiphead, skiptail, every)
    # comment lines between skipped lines and the first kept one are not specified to give names
    before = 0
    for i in ls:
        c = LINES[i].strip()[:1]
        if c and c not in "#!%":
            before += 1
        elif c and 0 < before <= skiphead:
            return None
    want = dict(("k%d" % i, i) for i in range(len(cols)))
    want.update(("m%d" % i, -i) for i in range(1, len(cols)+1))
    spec = dict(want)
    for i in range(len(cols)):
        spec["e%d" % i] = "$%d" % i
        want["e%d" % i] = i
    f = io.StringIO(txt)
    d = data.file(f, skiphead=skiphead, skiptail=skiptail, every=every, title="t", **spec)
    check(d, names, cols, want)
    if cols:
        for k in (len(cols), -len(cols)-1):
            try:
                d = data.file(io.StringIO(txt), skiphead=skiphead, skiptail=skiptail, every=every, x=k)
            except Exception:
                pass
            else:
                require(False, "there is no column %d but it is %s", k, d.columns.get("x"))
    return core.digest(repr((names, cols)))


CELLS = ["1", "-2.5e3", "x", '"a b"', '""', '"un', 'mid"q', "nan", "0x10", "+.5", "1e999", '"7"', "#1", '5"', '"a"b"']
SEPS = [" ", "\t", " \t  "]


def gen_cells(depth):
    def gen():
        for n in range(1, depth+1):
            for cs in itertools.product(range(len(CELLS)), repeat=n):
                for sep in range(len(SEPS)):
                    for end in ("", " ", "\n", "\r\n"):
                        yield cs, sep, end
    return gen


def run_cells(case):
    cs, sep, end = case
    line = SEPS[sep].join(CELLS[i] for i in cs)
    txt = line+end+"\n"
    names, cols, some = read(txt)
    if not cols:
        d = data.file(io.StringIO(txt), title="t")
        require(set(d.columnnames) == set(names), "columns %s instead of %s", d.columnnames, names)
        return core.digest(names)
    spec = dict(("k%d" % i, i) for i in range(len(cols)))
    d = data.file(io.StringIO(txt), title="t", **spec)
    check(d, names, cols, spec)
    # the same cells as column names
    txt = "# "+txt+" ".join("%d" % i for i in range(len(cols)+1))
    names, cols, some = read(txt)
    check(data.file(io.StringIO(txt), title="t"), names, cols, {})
    return core.digest(repr(cols))


# ------------------------------------------------------------ column specifications
A = [1.0, 2.0, -3.0, 4.0]
B = [0.5, 0.0, 2.5, -1.5]


def sources():
    """name: (maker, named columns, numbered columns or None)"""
    num = [[1, 2, 3, 4], A, B]
    rows = list(zip(A, B))
    txt = "# A B\n"+"\n".join("%r %r" % r for r in rows)
    conf = "\n".join("[s%d]\nA=%r\nB=%r" % (i, a, b) for i, (a, b) in enumerate(rows))
    J = data.join
    return {
        "values": (lambda: data.values(A=A, B=B), {"A": A, "B": B}, None),
        "points": (lambda: data.points(rows, A=1, B=2), {"A": A, "B": B}, num),
        "points0": (lambda: data.points(rows, A=0, B=1, addlinenumbers=0), {"A": A, "B": B}, num[1:]),
        "pointslist": (lambda: data.points([list(r) for r in rows], B=-1), {"B": B}, num),
        "file": (lambda: data.file(io.StringIO(txt)), {"A": A, "B": B}, None),
        "data": (lambda: data.data(data.points(rows, A=1, B=2), C="A+1"), {"A": A, "B": B, "C": [a+1 for a in A]}, None),
        "conf": (lambda: data.conffile(io.StringIO(conf)), {"A": A, "B": B}, None),
        "join": (lambda: J([data.values(A=A[:2], B=B[:2]), data.values(A=A[2:], B=B[2:])]), {"A": A, "B": B}, None),
    }


def deg(x):
    return math.pi/180*x


# expression: (needs numbered columns, function of a row {A, B, numbers}) with None for a failed evaluation
EXPR = {
    "A": (0, lambda r: r["A"]),
    "A+B": (0, lambda r: r["A"]+r["B"]),
    " 2*A ": (0, lambda r: 2*r["A"]),
    "A/B": (0, lambda r: r["A"]/r["B"]),
    "sqrt(A)": (0, lambda r: math.sqrt(r["A"])),
    "log(A)+B": (0, lambda r: math.log(r["A"])+r["B"]),
    "exp(1000*A)": (0, lambda r: math.exp(1000*r["A"])),
    "neg(A)*abs(B)": (0, lambda r: -r["A"]*abs(r["B"])),
    "sgn(B)": (0, lambda r: -1 if r["B"] < 0 else 1),
    "sind(A)+cosd(B)+tand(A)": (0, lambda r: math.sin(deg(r["A"]))+math.cos(deg(r["B"]))+math.tan(deg(r["A"]))),
    "asind(B)+acosd(B)+atand(A)": (0, lambda r: (math.asin(r["B"])+math.acos(r["B"])+math.atan(r["A"]))/deg(1)),
    "sin(A)*cos(B)*tan(A)": (0, lambda r: math.sin(r["A"])*math.cos(r["B"])*math.tan(r["A"])),
    "asin(B)-acos(B)-atan(B)": (0, lambda r: math.asin(r["B"])-math.acos(r["B"])-math.atan(r["B"])),
    "norm(A, B)+pi*e": (0, lambda r: math.hypot(r["A"], r["B"])+math.pi*math.e),
    "splitatvalue(A, 0, 1.5)[1]": (0, lambda r: r["A"]),
    "splitatvalue(A, 0)[0]": (0, lambda r: 1 if r["A"] > 0 else 0),
    "splitatvalue(A, 0, 1.5)[0]": (0, lambda r: None if 0 < r["A"] <= 1.5 else 0 if r["A"] <= 0 else 1),
    "k*A": (0, lambda r: 7*r["A"]),
    "f(B)": (0, lambda r: r["B"]*r["B"]),
    "$1+A": (1, lambda r: r[1]+r["A"]),
    "$-1": (1, lambda r: r[-1]),
    "$(1)*$1": (1, lambda r: r[1]*r[1]),
    "$2-$1": (1, lambda r: r[2]-r[1]),
    "$('B')": (0, lambda r: r["B"]),
    "COL('B')": (0, lambda r: r["B"]),
    "COL(-1)+$0": (1, lambda r: r[-1]+r[0]),
    "'$1'": (0, None),
    "B if A > 0 else -B": (0, lambda r: r["B"] if r["A"] > 0 else -r["B"]),
}
SPECS = [("name", "A"), ("name", "B")]+[("number", i) for i in (-4, -3, -2, -1, 0, 1, 2, 3, 4)]+[("expr", e) for e in EXPR]


def gen_columns():
    for src in sources():
        for s in SPECS:
            for copy in (1, 0):
                for key in ("Z", "A"):
                    yield src, s, copy, key


def gen_pairs():
    for src in sources():
        for s1 in SPECS:
            for s2 in SPECS:
                if s1 != s2:
                    yield src, s1, s2


def expected(s, named, num):
    """the column, or None if it must be refused"""
    kind, v = s
    if kind == "name":
        return named.get(v)
    if kind == "number":
        if num is None or not -len(num) <= v < len(num):
            return None
        return num[v]
    need, f = EXPR[v]
    if f is None:
        return "skip"
    out = []
    for i in range(4):
        r = dict((n, c[i]) for n, c in named.items())
        if num:
            r.update((k, num[k][i]) for k in range(-len(num), len(num)))
        try:
            out.append(f(r))
        except (ArithmeticError, ValueError):
            out.append(None)
        except KeyError:
            return None
    return out


def run_columns(case):
    src, s, copy, key = case
    make, named, num = sources()[src]
    if src == "conf" and s == ("number", 0) or s[0] == "expr" and ("$0" in s[1] or "$-1" in s[1]) and src == "conf":
        return None
    want = expected(s, named, num)
    if want == "skip":
        return None
    o = make()
    before = dict((n, list(c)) for n, c in o.columns.items())
    kw = dict(context={"k": 7, "f": lambda x: x*x, "A": "hidden"} if "A" in named else {"k": 7, "f": lambda x: x*x}, copy=copy)
    if "COL" in str(s[1]):
        kw["columncallback"] = "COL"
    try:
        d = data.data(o, **kw, **{key: s[1]})
    except Exception as e:
        require(want is None, "%s is refused: %s %s", s[1], type(e).__name__, e)
        return core.digest(("refused", type(e).__name__))
    require(want is not None, "%s is accepted as %s", s[1], d.columns.get(key))
    require(samelist(list(d.columns[key]), want), "column %s is %s instead of %s", s[1], list(d.columns[key]), want)
    other = [n for n in named if n != key] if copy else []
    require(sorted(d.columnnames) == sorted([key]+other) and sorted(d.columns) == sorted(d.columnnames), "columns %s", sorted(d.columnnames))
    for n in other:
        require(samelist(list(d.columns[n]), named[n]), "copied column %s", n)
    require(dict((n, list(c)) for n, c in o.columns.items()) == before, "the source changed")
    return core.digest(repr(want))


def run_pairs(case):
    src, s1, s2 = case
    make, named, num = sources()[src]
    if src == "conf" and any(s == ("number", 0) or s[0] == "expr" and ("$0" in s[1] or "$-1" in s[1]) for s in (s1, s2)):
        return None
    w1, w2 = expected(s1, named, num), expected(s2, named, num)
    if w1 is None or w2 is None or "skip" in (w1, w2) or "COL" in str(s1[1])+str(s2[1]):
        return None
    d = data.data(make(), context={"k": 7, "f": lambda x: x*x}, U=s1[1], V=s2[1])
    require(samelist(list(d.columns["U"]), w1) and samelist(list(d.columns["V"]), w2), "columns %s, %s instead of %s, %s", d.columns["U"], d.columns["V"], w1, w2)
    return core.digest(repr((w1, w2)))


def gen_points():
    for rows in ((), ((1,),), ((1, 2), (3, 4)), ((1, 2), (3,)), ((1,), (2, 3)), ((1, "a", None), (2, 3, 4), (5, 6, 7))):
        for add in (0, 1):
            for k in range(-4, 5):
                yield rows, add, k


def run_points(case):
    rows, add, k = case
    n = len(rows[0]) if rows else 0
    cols = [list(range(1, len(rows)+1))]*add+[[r[i] for r in rows] for i in range(n)] if all(len(r) == n for r in rows) else None
    try:
        d = data.points([list(r) for r in rows], addlinenumbers=add, x=k)
    except ValueError:
        # the lowest number may be refused
        require(cols is None or not -len(cols) < k < len(cols), "column %d of %d is refused", k, len(cols or ()))
        return core.digest("refused")
    require(cols is not None, "rows of different lengths are accepted")
    if rows:
        require(-len(cols) <= k < len(cols), "column %d of %d is accepted", k, len(cols))
        require(list(d.columns["x"]) == cols[k], "column %d is %s instead of %s", k, d.columns["x"], cols[k])
    else:
        require(list(d.columns["x"]) == [], "column of no rows")
    return core.digest(repr(cols and rows and cols[k]))


def gen_values():
    for la in range(4):
        for lb in range(4):
            for lc in (None, 0, 2):
                yield la, lb, lc


def run_values(case):
    la, lb, lc = case
    kw = dict(a=[1]*la, b=[2]*lb)
    if lc is not None:
        kw["c"] = [3]*lc
    ok = len(set(len(c) for c in kw.values())) == 1
    try:
        d = data.values(**kw)
    except ValueError:
        require(not ok, "columns of equal lengths are refused")
        return "refused"
    require(ok, "columns of different lengths are accepted")
    require(dict(d.columns) == kw and sorted(d.columnnames) == sorted(kw), "columns")
    return core.digest(sorted(kw))


# ------------------------------------------------------------ functions
RANGES = [(None, None), (1, None), (None, 3), (0.5, 4)]
FUNCS = {"y(x)=x*x": ("x", "y", lambda x: x*x), " u ( t )=1/(t-1)": ("t", "u", lambda t: 1/(t-1)), "y(x)=log(x-2)": ("x", "y", lambda x: math.log(x-2)), "x(y)= k+y": ("y", "x", lambda y: 5+y), "y(x)=x==2": ("x", "y", lambda x: x == 2), "f(x)=g(x)": ("x", "f", lambda x: -x)}


def gen_functions():
    for e in FUNCS:
        for ax in ("lin", "log", "rev", "linked"):
            for r in RANGES:
                for n in (2, 3, 4, 7):
                    yield e, ax, r, n


def run_functions(case):
    e, ax, (lo, hi), n = case
    text.defaulttextengine = graphs.Engine()
    xn, yn, f = FUNCS[e]
    a = {"lin": lambda: axis.lin(min=0.25, max=8), "log": lambda: axis.log(min=0.25, max=8), "rev": lambda: axis.lin(min=0.25, max=8, reverse=1), "linked": lambda: axis.log(min=0.25, max=8)}[ax]()
    d = data.function(e, min=lo, max=hi, points=n, context={"k": 5, "g": lambda x: -x})
    require(d.title == e and sorted(d.columnnames) == sorted([xn, yn]), "title or names")
    g = graph.graphxy(width=8, x=a, y=axis.lin(min=0, max=1))
    if xn == "y":
        g = graph.graphxy(width=8, y=a, x=axis.lin(min=0, max=1))
    own = "y" if xn == "y" else "x"
    names = {xn: own+"2" if ax == "linked" else own}
    got = None
    for again in range(2):
        c = d.dynamiccolumns(g, names)
        L, H = 0.25 if lo is None else lo, 8 if hi is None else hi
        xs = []
        for i in range(n):
            t = i/(n-1)
            xs.append(math.exp(math.log(L)+t*(math.log(H)-math.log(L))) if ax in ("log", "linked") else L+t*(H-L))
        require(samelist(list(c[xn]), xs), "evaluated at %s instead of %s", list(c[xn]), xs)
        ys = []
        for x in c[xn]:
            try:
                ys.append(f(x))
            except (ArithmeticError, ValueError):
                ys.append(None)
        require(samelist(list(c[yn]), ys), "values %s instead of %s", list(c[yn]), ys)
        require(got is None or got == (list(c[xn]), list(c[yn])), "the second evaluation differs")
        got = list(c[xn]), list(c[yn])
    # drawn: the positions of the symbols
    if e.startswith("y(x)=x*x") and ax != "linked":
        g = graph.graphxy(width=8, height=6, x=a, y=axis.lin(min=-1, max=70), x2=None, y2=None)
        plain = len(graphs.draw(graph.graphxy(width=8, height=6, x=a, y=axis.lin(min=-1, max=70), x2=None, y2=None))[0])
        g.plot(d, [graph.style.symbol(graph.style.symbol.circle, size=0.1)])
        marks = graphs.draw(g)[0]
        require(len(marks) == plain+n, "%d symbols for %d points", len(marks)-plain, n)
    return core.digest(repr(got))


PARAM = {"x, y = k, k*k": lambda k: dict(x=k, y=k*k), "a,b,c=k+1,2,m*k": lambda k: dict(a=k+1, b=2, c=3*k), "x, y = k, k<=2": lambda k: dict(x=k, y=k <= 2), "x, y = k, k==1": lambda k: dict(x=k, y=k == 1), "x, y = cos(k), sin(k)": lambda k: dict(x=math.cos(k), y=math.sin(k)), "x, y = f(k)": lambda k: dict(x=-k, y=k)}


def gen_param():
    for e in PARAM:
        for lo, hi in ((0, 4), (-1, 2.5), (3, 1)):
            for n in (2, 3, 5, 9):
                yield e, lo, hi, n


def run_param(case):
    e, lo, hi, n = case
    d = data.paramfunction("k", lo, hi, e, points=n, context={"m": 3, "f": lambda k: (-k, k)})
    want = [PARAM[e](lo+(hi-lo)*i/(n-1)) for i in range(n)]
    require(sorted(d.columnnames) == sorted(want[0]) and d.title == e, "names %s", d.columnnames)
    for k in want[0]:
        require(samelist(list(d.columns[k]), [w[k] for w in want]), "column %s is %s", k, d.columns[k])
    d = data.paramfunctionxy(lambda t: (t, 2*t), lo, hi, points=n)
    xs = [lo+(hi-lo)*i/(n-1) for i in range(n)]
    require(samelist(d.columns["x"], xs) and samelist(d.columns["y"], [2*x for x in xs]), "paramfunctionxy")
    text.defaulttextengine = graphs.Engine()
    g = graph.graphxy(width=8, x=axis.lin(min=0, max=4), y=axis.lin(min=0, max=1))
    c = data.functionxy(lambda x: x/2, min=lo, max=hi, points=n).dynamiccolumns(g, {})
    require(samelist(c["x"], xs) and samelist(c["y"], [x/2 for x in xs]), "functionxy")
    return core.digest(repr(want))


# ------------------------------------------------------------ config files, cbd files, joined data
def gen_conf():
    cell = [None, "1.5", "text"]
    for nsec in (0, 1, 2):
        for rows in itertools.product(itertools.product(cell, repeat=3), repeat=nsec):
            for rev in ((0, 1) if nsec > 1 else (0,)):
                for default in (0, 1):
                    yield rows, rev, default


def gen_conf3():
    cell = [None, "2"]
    for rows in itertools.product(itertools.product(cell, repeat=3), repeat=3):
        for rev in (0, 1):
            yield rows, rev, 0


def run_conf(case):
    rows, rev, default = case
    secs = [("s%d" % i, r) for i, r in enumerate(rows)]
    out = ["[DEFAULT]\nd=9\nb=8"] if default else []
    for n, r in (secs[::-1] if rev else secs):
        out.append("[%s]" % n)
        out += ["%s = %s" % (k, v) for k, v in zip("abC", r) if v is not None]
    txt = "\n".join(out)+"\n"
    want = {}
    for n, r in secs:
        for k, v in zip("abC", r):
            if v is not None:
                want.setdefault(k, {})[n] = float(v) if v != "text" else v
        if default:
            want.setdefault("d", {})[n] = 9.0
            want.setdefault("b", {}).setdefault(n, 8.0)
    cols = dict((k, [c.get(n) for n, r in secs]) for k, c in want.items())
    spec = dict(("k"+k, k) for k in cols)
    d = data.conffile(io.StringIO(txt), title="t", **spec)
    require(sorted(d.columnnames) == sorted(list(cols)+list(spec)), "columns %s", sorted(d.columnnames))
    for k, c in cols.items():
        require(samelist(list(d.columns[k]), c) and samelist(list(d.columns["k"+k]), c), "column %s is %s instead of %s", k, d.columns[k], c)
    if secs and cols:
        d = data.conffile(io.StringIO(txt), title="t", s=0)
        require(list(d.columns["s"]) == [n for n, r in secs], "the sections are %s", d.columns["s"])
    return core.digest(repr(cols))


STEPS = [(0, 0), (5, -7), (63, 127), (-64, -128), (64, 1), (1, 128), (-65, 3), (2, -129), (100000, -200000), (-300000, 400000), (70000, 3), (-1, 65536)]


def cbd(segs):
    """segs: list of (rank, x, y, steps)"""
    bodies = []
    for rank, x, y, steps in segs:
        b = struct.pack("<3i2h", x, y, 1, len(steps), 0)
        for dx, dy in steps:
            if -64 <= dx < 64 and -128 <= dy < 128:
                b += bytes([dy & 255, (dx+64 if dx >= 0 else dx & 255) | 0x40])
            else:
                X, Y = struct.pack("<i", dx), struct.pack("<i", dy)
                b += bytes([X[2], X[3] & ~0x40, X[0], X[1], Y[2], Y[3], Y[0], Y[1]])
        bodies.append(b)
    addr = 40
    where = []
    for b in bodies:
        where.append(addr)
        addr += len(b)
    out = struct.pack("<5i20s", 0x20770002, addr, len(segs), 0, 0, b"")+b"".join(bodies)
    for (rank, x, y, steps), w, b in zip(segs, where, bodies):
        xs = [x]
        for dx, dy in steps:
            xs.append(xs[-1]+dx)
        out += struct.pack("<6i2h", 1, 0, 0, max(xs), min(xs), w, len(b), rank)
    return out


def gen_cbd():
    for n in range(3):
        for steps in itertools.product(range(len(STEPS)), repeat=n):
            yield ((1, 1000, -2000, steps),), None, None
    for s1, s2 in itertools.product(range(len(STEPS)), repeat=2):
        for lo in (None, 1, 2, 3):
            for hi in (None, 1, 2):
                yield ((1, 10, 20, (s1,)), (2, -30, 40, (s2, s1))), lo, hi
    for start in (-600000, 600000, 100):
        for s in (8, 9, 10):
            yield ((1, start, 5, (s, s, 9, 9)), (3, 0, 0, ())), None, None
    # across 180 degrees
    yield ((1, -160*3600, 5, (8,)*12), (1, 0, 0, (1,))), None, None


def run_cbd(case):
    segs, lo, hi = case
    raw = [(r, x, y, [STEPS[i] for i in steps]) for r, x, y, steps in segs]
    f = io.BytesIO(cbd(raw))
    want = []
    for r, x, y, steps in raw:
        pts = [(x, y)]
        for dx, dy in steps:
            pts.append((pts[-1][0]+dx, pts[-1][1]+dy))
        if max(p[0] for p in pts) > 150*3600 and min(p[0] for p in pts) < -150*3600:
            pts = [(px+360*3600 if px < 0 else px, py) for px, py in pts]
        if (lo is None or r >= lo) and (hi is None or r <= hi):
            if want:
                want.append((None, None))
            want += [(px/3600, py/3600) for px, py in pts]
    if not want:
        try:
            d = data.cbdfile(f, lo, hi, x=1, y=2)
        except Exception:
            return None
        require(not list(d.columns["x"]), "points of no segment")
        return None
    d = data.cbdfile(f, lo, hi, x=1, y=2)
    require(samelist(list(d.columns["x"]), [p[0] for p in want]), "longitudes %s instead of %s", d.columns["x"], [p[0] for p in want])
    require(samelist(list(d.columns["y"]), [p[1] for p in want]), "latitudes")
    return core.digest(repr(want))


PARTS = [("a",), ("b",), ("a", "b"), ("b", "a", "c"), ()]


def gen_join():
    for n in (1, 2, 3):
        for ps in itertools.product(range(len(PARTS)), repeat=n):
            for ls in itertools.product((0, 2), repeat=n):
                yield ps, ls


def run_join(case):
    ps, ls = case
    ds = [data.values(title="t%d" % i, **dict((c, [10*i+j+ord(c) for j in range(l)]) for c in PARTS[p])) for i, (p, l) in enumerate(zip(ps, ls))]
    d = data.join(ds)
    names = sorted(set(c for p in ps for c in PARTS[p]))
    require(sorted(d.columnnames) == names and sorted(d.columns) == names, "columns %s", d.columnnames)
    for c in names:
        want = []
        for i, (p, l) in enumerate(zip(ps, ls)):
            if PARTS[p]:
                want += [10*i+j+ord(c) for j in range(l)] if c in PARTS[p] else [None]*l
        require(list(d.columns[c]) == want, "column %s is %s instead of %s", c, d.columns[c], want)
    require(d.title == " + ".join("t%d" % i for i in range(len(ps))), "title %r", d.title)
    require(d.defaultstyles is data.values.defaultstyles, "default styles")
    return core.digest(repr(sorted(d.columns.items())))


# ------------------------------------------------------------ reading again
READS = [dict(), dict(skiphead=1), dict(skiptail=1), dict(every=2), dict(x=1), dict(x="$1*2", y="B"), dict(columnpattern=r"(.*?)(,|$)"), dict(commentpattern=r"[#;]+"), dict(context={"B": 1}, z="A*2"), dict(copy=0, x="A")]
TEXTS = ["# A B\n1 2\n3 4\n5,0 6\n; C D\n7 8\n", "1 2\n3 4\n", "# A B\n9 8\n7 6\n4 5\n"]


def gen_cache():
    for t in (0, 2):
        for seq in itertools.product(range(len(READS)), repeat=2):
            yield t, seq
    for seq in itertools.product((0, 1, 4, 8), repeat=3):
        yield 0, seq


def run_cache(case):
    import re
    t, seq = case
    with tempfile.TemporaryDirectory() as dir:
        names = [os.path.join(dir, "f%d" % i) for i in range(2)]
        for n, k in zip(names, (t, 2-t)):
            with open(n, "w") as f:
                f.write(TEXTS[k])
        out = []
        for i in seq:
            kw = dict(READS[i])
            for k in ("columnpattern", "commentpattern"):
                if k in kw:
                    kw[k] = re.compile(kw[k])
            for n, k in zip(names, (t, 2-t)):
                d = data.file(n, **kw)
                e = data.file(io.StringIO(TEXTS[k]), **kw)
                require(sorted(d.columns) == sorted(e.columns), "columns %s instead of %s", sorted(d.columns), sorted(e.columns))
                for c in e.columns:
                    require(samelist(list(d.columns[c]), list(e.columns[c])), "column %s is %s instead of %s", c, d.columns[c], e.columns[c])
                out.append(repr(sorted(e.columns.items())))
    return core.digest(out)


# data sets made one after another do not see the columns and names of each other
HSRC = {"AB": {"A": [1, 2], "B": [3, 5]}, "C": {"C": [7, 11, 13]}, "AC": {"A": [17, 19], "C": [23, 29]}, "k": {"k": [31, 37]}, "empty": {"B": []}}
HEXPR = {"A": lambda r: r["A"], "B+1": lambda r: r["B"]+1, "2*C": lambda r: 2*r["C"], "k*A": lambda r: r["k"]*r["A"], "COL('A')-B": lambda r: r["COL"]("A")-r["B"],
         "f(C)": lambda r: r["f"](r["C"]), "$('k')": lambda r: r["$"]("k"), "k": lambda r: r["k"]}
HCTX = [None, 0, 1]     # no context, a shared context, an own context
HSTEPS = [(s, e, c, cb) for s in HSRC for e in HEXPR for c in HCTX for cb in (0, 1)]


def gen_histories(depth):
    for i in range(len(HSTEPS)):
        for j in range(len(HSTEPS)):
            yield i, j
    if depth > 2:
        some = [i for i, (s, e, c, cb) in enumerate(HSTEPS) if s in ("AB", "C", "k") and e in ("B+1", "k*A", "COL('A')-B", "k") and c != 1]
        for c in itertools.product(some, repeat=3):
            yield c


def run_histories(case):
    shared = {"k": 41, "f": lambda x: x*x}
    out = []
    for i in case:
        s, e, c, cb = HSTEPS[i]
        ctx = [{}, shared, {"k": 43}][0 if c is None else c+1]
        before = dict(ctx)
        cols = HSRC[s]
        n = len(list(cols.values())[0])
        want = []
        for row in range(n):
            r = dict(ctx)
            r["$"] = r["COL" if cb else "__column__"] = lambda name: cols[name][row]
            r.update((k, v[row]) for k, v in cols.items())
            try:
                want.append(HEXPR[e](r))
            except KeyError:
                want = None
                break
        kw = {} if c is None else {"context": ctx}
        if cb:
            kw["columncallback"] = "COL"
        o = data.values(**dict((k, list(v)) for k, v in cols.items()))
        try:
            d = data.data(o, Z=e, **kw)
        except Exception as x:
            if not isinstance(x, (NameError, KeyError)):
                raise
            require(want is None, "%s of columns %s with names %s is refused: %s", e, sorted(cols), sorted(before), x)
            out.append("refused")
        else:
            require(want is not None, "%s of columns %s with names %s is accepted as %s", e, sorted(cols), sorted(before), d.columns["Z"])
            require(samelist(list(d.columns["Z"]), want), "%s is %s instead of %s", e, d.columns["Z"], want)
            out.append(want)
        require(ctx == before, "the names given by the user changed from %s to %s", sorted(before), sorted(ctx))
        core.TRACE.step((i, repr(out[-1])))
    return core.digest(repr(out))


def spaces(tier):
    T = tier == "thorough"
    return [
        Space("files", gen_files(6 if T else 5), run_files, bounds=dict(lines=LINES, depth=6 if T else 5, skiphead=3, skiptail=4, every=3)),
        Space("cells", gen_cells(4 if T else 3), run_cells, bounds=dict(cells=CELLS, depth=4 if T else 3, separators=3, ends=4)),
        Space("columns", gen_columns, run_columns, bounds=dict(sources=list(sources()), specs=len(SPECS), copy=2, names=2)),
        Space("column-pairs", gen_pairs, run_pairs, bounds=dict(sources=len(sources()), specs=len(SPECS))),
        Space("points", gen_points, run_points, bounds=dict(tables=6, numbers="-4..4")),
        Space("values", gen_values, run_values, bounds=dict(lengths="0..3")),
        Space("functions", gen_functions, run_functions, bounds=dict(functions=len(FUNCS), axes=4, ranges=4, points=[2, 3, 4, 7])),
        Space("parametric", gen_param, run_param, bounds=dict(functions=len(PARAM), ranges=3, points=[2, 3, 5, 9])),
        Space("config files", gen_conf, run_conf, bounds=dict(sections="0..2", options=3, values=3, orders=2, defaults=2)),
        Space("config files of three sections", gen_conf3, run_conf, bounds=dict(sections=3, options=3, orders=2)),
        Space("cbd files", gen_cbd, run_cbd, bounds=dict(steps=len(STEPS), segments=2, ranks="None, 1..3")),
        Space("join", gen_join, run_join, bounds=dict(parts=len(PARTS), depth=3, lengths=2)),
        Space("histories", lambda: gen_histories(3 if T else 2), run_histories, bounds=dict(steps=len(HSTEPS), depth=3 if T else 2)),
        Space("cache", gen_cache, run_cache, bounds=dict(reads=len(READS), depth=3, files=2)),
    ]
