"""P24: the labels of ticks name their exact values."""
import itertools, math
from fractions import Fraction as F
from mc import core
from mc.core import Space, require
from pyx import text
from pyx.graph.axis import texter
from pyx.graph.axis.tick import tick as Tick

PROPERTY = "P24"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of tick lists over a grid of rational values times texter options; the labels are read back by an independent parser as exact fractions"
LEVEL_NOTE = "Exhaustive over the stated values and options. Periods and precisions are compared with their number theoretical values."
RULE = "A case is one texter configuration with one list of ticks; non-trivial if at least one label is produced; outcomes are the labels."

A1, A2 = object(), object()     # label attributes


def num(s):
    require(s.isdigit() and s.isascii(), "%r is not a number", s)
    return int(s)


def split_groups(s, sep, left):
    """digits of s with the separator removed; checks its positions"""
    if not sep:
        require(s.isdigit(), "%r should be digits only", s)
        return s
    g = s.split(sep)
    for i, p in enumerate(g):
        full = i > 0 if left else i < len(g)-1
        require(p.isdigit() and (len(p) == 3 if full else 1 <= len(p) <= 3), "misplaced separator in %r", s)
    return "".join(g)


def period(x):
    """length of the non-repeating and of the repeating part of the digits"""
    n = x.denominator
    pre = 0
    m = n
    t = [0, 0]
    for k, p in enumerate((2, 5)):
        while m % p == 0:
            m //= p
            t[k] += 1
    pre = max(t)
    if m == 1:
        return pre, 0
    k, r = 1, 10 % m
    while r != 1:
        r = r*10 % m
        k += 1
    return pre, k


OPTS = dict(prefix="P", infix="I", suffix="S", decimalsep=";", thousandsep="_", thousandthpartsep="'", plus="p", minus="m", period="<%s>")
DEFAULT = dict(prefix="", infix="", suffix="", decimalsep=".", thousandsep="", thousandthpartsep="", plus="", minus="-", period=r"\overline{%s}")


def read_decimal(s, o):
    """(value, number of digits or None if periodic)"""
    full = s
    require(s.startswith(o["prefix"]), "the prefix is missing in %r", full)
    s = s[len(o["prefix"]):]
    if o["suffix"]:
        require(s.endswith(o["suffix"]), "the suffix is missing in %r", full)
        s = s[:-len(o["suffix"])]
    if s.startswith(o["minus"]):
        sign, s = -1, s[len(o["minus"]):]
    else:
        require(s.startswith(o["plus"]), "the sign is missing in %r", full)
        sign, s = 1, s[len(o["plus"]):]
    require(s.startswith(o["infix"]), "the infix is missing in %r", full)
    s = s[len(o["infix"]):]
    a, b = o["period"].split("%s")
    whole, sep, frac = s.partition(o["decimalsep"])
    whole = split_groups(whole, o["thousandsep"], True)
    require(whole == "0" or whole[0] != "0", "leading zero in %r", full)
    if not sep:
        return sign*F(int(whole)), 0, None
    per = None
    if a in frac:
        head, rest = frac.split(a)
        require(rest.endswith(b), "the period does not end at the end in %r", full)
        per = rest[:len(rest)-len(b)]
        digits = split_groups(head+per, o["thousandthpartsep"], False)
        t = o["thousandthpartsep"]
        npre = len(head.replace(t, "")) if t else len(head)
        pre, per = digits[:npre], digits[npre:]
        value = F(int(whole)) + (F(int(pre), 10**len(pre)) if pre else 0) + F(int(per), (10**len(per)-1)*10**len(pre))
        return sign*value, None, (len(pre), len(per))
    digits = split_groups(frac, o["thousandthpartsep"], False)
    return sign*(F(int(whole))+F(int(digits), 10**len(digits))), len(digits), None


VALUES = None


def values(tier):
    dens = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 28, 37, 41, 96, 125, 700, 1000, 1024, 7000, 12345, 99990] + ([17, 19, 23, 101, 271, 4649, 33333, 10**7, 3*10**6] if tier == "thorough" else [])
    nums = [0, 1, 2, 3, 5, 9, 10, 22, 99, 100, 999, 1000, 1001, 12345, 100000, 1234567, 10000000, 12345678901, 10**12+1]
    return [(s*n, d) for d in dens for n in nums for s in (1, -1)]


def mk(v, **kw):
    return Tick(tuple(v), **kw)


def checklabels(ticks, specs):
    """labels set by hand and unlabelled ticks are kept"""
    for t, (kind, v) in zip(ticks, specs):
        require((t.num, t.denom) == (v[0], v[1]), "the tick changed its value to %s", t)
        if kind == "hand":
            require(t.label == "hand" and t.labelattrs == [A1], "a given label was changed to %r %r", t.label, t.labelattrs)
        elif kind == "none":
            require(t.label is None and t.labelattrs == [A1], "a tick without label got %r", t.label)
        else:
            require(t.label is not None, "no label")
            require(t.labelattrs[0] is A1 and A2 in t.labelattrs, "label attributes %r", t.labelattrs)


def makeone(kind, v):
    a = [A1]
    if kind == "hand":
        return mk(v, label="hand", labelattrs=a)
    if kind == "none":
        return mk(v, labellevel=None, labelattrs=a)
    return mk(v, labellevel=1 if kind == "sub" else 0, labelattrs=a)


# ------------------------------------------------------------ decimal
def gen_decimal(tier):
    vals = values(tier)
    for v in vals:
        for o in range(4):
            yield [[["label", list(v)]], o, 0]
    small = [(0, 1), (1, 1), (-1, 2), (3, 4), (1, 3), (-5, 7), (1234, 1), (12345678, 100000), (1, 1000), (-7, 80), (1, 7000), (1, 12500000)]
    kinds = ["label", "sub", "hand", "none"]
    for v1 in small:
        for v2 in small:
            for k in kinds:
                for eq in (0, 1):
                    for o in range(4):
                        yield [[["label", list(v1)], [k, list(v2)]], o, eq]
    for v in itertools.product(small[:8] if tier == "quick" else small, repeat=3):
        yield [[["label", list(x)] for x in v], 1, 1]
        yield [[["label", list(x)] for x in v], 2, 1]


DECOPTS = [{}, {k: OPTS[k] for k in ("thousandsep", "thousandthpartsep", "period")}, OPTS,
           dict(prefix="P", decimalsep="{,}", plus="+", thousandthpartsep=r"\,")]


def run_decimal(case):
    specs, o, eq = case
    o = DECOPTS[o]
    ref = dict(DEFAULT, **o)
    for how in (0, 1):
        if how:
            t = texter.decimal(suffix="XX", equalprecision=not eq, labelattrs=[A2])(suffix=o.get("suffix", ""), equalprecision=eq)(**o)
        else:
            t = texter.decimal(equalprecision=eq, labelattrs=[A2], **o)
        ticks = [makeone(k, v) for k, v in specs]
        t.labels(ticks)
        checklabels(ticks, specs)
        read = []
        for tk, (k, v) in zip(ticks, specs):
            if k in ("label", "sub"):
                x = F(*v)
                value, digits, per = read_decimal(tk.label, ref)
                require(value == x, "the label of %s is %r, i.e. %s", x, tk.label, value)
                pre, p = period(x)
                if p:
                    require(per == (pre, p), "the period of %s is marked wrongly in %r", x, tk.label)
                else:
                    require(per is None, "a period in %r", tk.label)
                    if not eq:
                        require(digits == pre, "needless zeros in %r", tk.label)
                    read.append((pre, digits, tk.label))
        if eq and read:
            want = max(r[0] for r in read)
            for r in read:
                require(r[1] == want, "labels of different precision: %s", [r[2] for r in read])
        labels = [tk.label for tk in ticks]
        # labels are kept when asked for again
        t.labels(ticks)
        require([tk.label for tk in ticks] == labels, "labels changed by a second call")
    return str(labels)


# ------------------------------------------------------------ exponential
def gen_default(tier):
    mant = [(1, 1), (2, 1), (1, 3), (123, 100), (10, 1), (99999999999, 10**10)]
    exps = [-7, -4, -3, -1, 0, 1, 3, 4, 5, 12]
    vals = []
    for m in mant:
        for e in exps:
            for s in (1, -1):
                f = s*F(*m)*F(10)**e
                vals.append([f.numerator, f.denominator])
    vals.append([0, 1])
    opts = list(itertools.product((0, 1, 2), (0, 1), (4, 1, 0, 2), (None, 2), ("10", "2", "5/2")))
    for v in vals:
        for o in opts:
            yield [[["label", v]], list(o)]
    small = [[0, 1], [1, 1], [-1, 1], [1000, 1], [-10000, 1], [1, 100000], [20000, 1], [1, 3], [100000000001, 1]]
    for v1, v2 in itertools.product(small, small):
        for o in opts:
            if tier == "quick" and o[4] == "5/2":
                continue
            yield [[["label", v1], ["label", v2]], list(o)]
    for vs in itertools.product(small[:7], repeat=3):
        for o in itertools.product((0, 1, 2), (0, 1), (4, 1), (None,), ("10",)):
            yield [[["label", vs[0]], ["hand", [50000, 1]], ["sub", vs[1]], ["none", [3, 1]], ["label", vs[2]]], list(o)]


def unitext(u):
    """flattens a unicode text description"""
    if isinstance(u, str):
        return u
    if isinstance(u, text.Text):
        return "[%s]" % u.text
    if isinstance(u, text.StackedText):
        return "{%s}" % "|".join(unitext(x) for x in u.texts)
    return "".join(unitext(x) for x in u)


def run_default(case):
    specs, (skip, uniform, minexp, minneg, base) = case
    base = F(base)
    ref = dict(DEFAULT, period="<%s>")
    kw = dict(skipmantissaunity=skip, uniformexponent=uniform, minexponent=minexp, minnegexponent=minneg, base=base, multiplicationtex="*",
              multiplicationunicode="×", minusunity="u", labelattrs=[A2], mantissatexter_period="<%s>", basetexter_prefix="b", exponenttexter_prefix="e", exponenttexter_minus="m")
    for how in (0, 1):
        if how:
            kw2 = dict(kw)
            if minneg is None:
                kw2["minnegexponent"] = minexp
            del kw2["uniformexponent"]
            t = texter.default(uniformexponent=uniform, skipmantissaunity=(skip+1) % 3, minexponent=3, exponenttexter_prefix="z")(**kw2)
        else:
            t = texter.default(**kw)
        ticks = [makeone(k, v) for k, v in specs]
        t.labels(ticks)
        checklabels(ticks, specs)
        neg = minexp if minneg is None else minneg
        info = []
        for tk, (k, v) in zip(ticks, specs):
            if k not in ("label", "sub"):
                continue
            x = F(*v)
            e = 0
            m = abs(x)
            if m:
                while m >= base:
                    m /= base
                    e += 1
                while m < 1:
                    m *= base
                    e -= 1
            info.append([tk, x, m, e, not -neg < e < minexp])
        if uniform and any(i[4] for i in info):
            for i in info:
                if i[1]:
                    i[4] = True
        allone = all(i[2] == 1 for i in info if i[4])
        for tk, x, m, e, want in info:
            l = tk.label
            if not want:
                require(isinstance(l, str), "%s is written in exponential notation: %r", x, getattr(l, "tex", l))
                require(read_decimal(l, ref)[0] == x, "the label of %s is %r", x, l)
                continue
            require(isinstance(l, text.MultiEngineText), "%s is not written in exponential notation: %r", x, l)
            body, sep, ex = l.tex.partition("^{")
            require(sep and ex.endswith("}"), "no exponent in %r", l.tex)
            ev, ed, ep = read_decimal(ex[:-1], dict(DEFAULT, prefix="e", minus="m"))
            if "*" in body:
                ms, bs = body.split("*")
                mv = read_decimal(ms, ref)[0]
                require(not (m == 1 and (skip == 1 or (skip == 2 and allone))), "the unit mantissa was written in %r", l.tex)
            else:
                require(m == 1 and (skip == 1 or (skip == 2 and allone)), "the mantissa of %s is missing in %r", x, l.tex)
                mv = 1
                bs = body
                if bs.startswith("u"):
                    mv, bs = -1, bs[1:]
            bv = read_decimal(bs, dict(DEFAULT, prefix="b"))[0]
            require(bv == base, "the base is %r", bs)
            require(mv*bv**int(ev) == x and ed == 0, "the label of %s is %r", x, l.tex)
            require(x == 0 or 1 <= abs(mv) < base, "the mantissa in %r", l.tex)
            # both kinds of engines show the same
            require(unitext(l.unicode) == body.replace("*", "×") + "[%s]" % ex[:-1], "unicode text %r and TeX text %r", unitext(l.unicode), l.tex)
    return str([getattr(i[0].label, "tex", i[0].label) for i in info])


# ------------------------------------------------------------ rational
def gen_rational(tier):
    vals = [(n*s, d) for n in (0, 1, 2, 3, 4, 6, 9, 12) for d in (1, 2, 3, 4, 6, 9) for s in (1, -1)]
    affixes = [0, 1, 2, 4, 7]       # whole, numerator, denominator affixes
    flags = list(itertools.product((0, 1), repeat=4))
    for v in vals:
        for a in affixes:
            for mp in (0, 1, -1):
                for plus in (0, 1):
                    for f in flags:
                        yield [[["label", list(v)]], a, mp, plus, list(f), 0]
    small = [[0, 1], [1, 1], [-1, 1], [1, 2], [-2, 4], [5, 3], [7, 12], [4, -6]]
    for v1, v2 in itertools.product(small, small):
        for eq in (0, 1):
            for a in (0, 1, 7):
                for mp in (0, 1, -1):
                    for f in ((1, 1, 1, 1), (0, 0, 0, 0)):
                        yield [[["label", v1], ["none", [3, 7]], ["sub", v2], ["hand", [5, 11]]], a, mp, 0, list(f), eq]
    if tier == "thorough":
        for vs in itertools.product(small, repeat=3):
            for eq in (0, 1):
                for mp in (0, 1, -1):
                    yield [[["label", v] for v in vs], 0, mp, 1, [1, 1, 1, 1], eq]


def run_rational(case):
    specs, a, mp, plus, (skip1, skipnum0, skipnum1, skipdenom1), eq = case
    P = dict(prefix="", infix="", suffix="", numprefix="", numinfix="", numsuffix="", denomprefix="", denominfix="", denomsuffix="")
    if a & 1:
        P.update(prefix="P", infix="I", suffix="S")
    if a & 2:
        P.update(numprefix="A", numinfix="B", numsuffix="C")
    if a & 4:
        P.update(denomprefix="D", denominfix="E", denomsuffix="G")
    kw = dict(P, minuspos=mp, plus="p" if plus else "", minus="m", over="(%s/%s)", equaldenom=eq, skip1=skip1, skipnum0=skipnum0, skipnum1=skipnum1,
              skipdenom1=skipdenom1, labelattrs=[A2])
    specs = [(k, v) for k, v in specs]
    fix = [(k, v if v[1] > 0 else [-v[0], -v[1]]) for k, v in specs]
    for how in (0, 1):
        if how:
            keep = {k: kw[k] for k in ("prefix", "minuspos", "skipnum1", "over")}
            rest = {k: v for k, v in kw.items() if k not in keep}
            t = texter.rational(numsuffix="Z", skip1=not skip1, **keep)(**rest)
        else:
            t = texter.rational(**kw)
        ticks = [makeone(k, v) for k, v in specs]
        t.labels(ticks)
        checklabels(ticks, fix)
        lab = [(tk, F(*v)) for tk, (k, v) in zip(ticks, fix) if k in ("label", "sub")]
        lcm = 1
        for tk, x in lab:
            lcm = lcm*x.denominator//math.gcd(lcm, x.denominator)
        for tk, x in lab:
            n, d = abs(x.numerator), x.denominator
            if eq:
                n, d = n*(lcm//d), lcm
            sign = "m" if x < 0 else kw["plus"]
            s0, s1, s2 = [sign if mp == i else "" for i in (0, 1, -1)]
            dstr = P["denomprefix"]+s2+P["denominfix"]+str(d)+P["denomsuffix"]
            nstr = P["numprefix"]+s1+P["numinfix"]+str(n)+P["numsuffix"]
            if skipnum1 and n == 1 and a & 2:
                nstr = P["numprefix"]+s1+P["numinfix"]+P["numsuffix"]
            nodenom = skipdenom1 and d == 1 and not a & 4 and not s2
            if n == 0 and skipnum0:
                expect = "0"
            elif skip1 and nodenom and n == 1 and a & 1 and not a & 2 and not s1:
                expect = P["prefix"]+s0+P["infix"]+P["suffix"]
            elif nodenom:
                expect = P["prefix"]+s0+P["infix"]+nstr+P["suffix"]
            else:
                expect = None
                tex = P["prefix"]+s0+P["infix"]+"(%s/%s)" % (nstr, dstr)+P["suffix"]
                uni = P["prefix"]+s0+P["infix"]+"{[%s]|[%s]}" % (nstr, dstr)+P["suffix"]
            if expect is not None:
                require(tk.label == expect, "the label of %s is %r instead of %r", x, getattr(tk.label, "tex", tk.label), expect)
            else:
                require(isinstance(tk.label, text.MultiEngineText), "the label of %s is %r instead of %r", x, tk.label, tex)
                require(tk.label.tex == tex, "the label of %s is %r instead of %r", x, tk.label.tex, tex)
                require(unitext(tk.label.unicode) == uni, "the unicode label of %s is %r instead of %r", x, unitext(tk.label.unicode), uni)
    return str([getattr(tk.label, "tex", tk.label) for tk, x in lab])


def spaces(tier):
    return [
        Space("decimal", lambda: gen_decimal(tier), run_decimal, "all values of a grid of numerators and denominators of both signs with 4 option sets; all pairs and triples of 12 values with equal precision, given and missing labels", True),
        Space("exponential", lambda: gen_default(tier), run_default, "121 values and all pairs and triples of 9 values times all options for exponents, mantissas and bases", True),
        Space("rational", lambda: gen_rational(tier), run_rational, "96 values times all options, all pairs of 8 values with common denominators", True),
    ]


ASSUMPTIONS = []
