"""P15: colours convert between models and reach the output unchanged."""
import io, itertools, math, re
from fractions import Fraction as F
from mc import core, machines as M
from mc.core import Space, require, TRACE
from pyx import attr, canvas, color, deco, document, path, trafo, unit

PROPERTY = "P15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the state graph spanned by all colours on a component grid under all conversions, compared with exact rational arithmetic, and of all colour and opacity assignments in canvas programs, whose written PostScript, PDF and SVG is executed by interpreters; all gradient positions on a grid"
LEVEL_NOTE = "Every colour of the grid is followed through every chain of conversions up to the depth; every assignment of colours and opacities to the slots of the canvas programs is written in three formats and the interpreters' stroke and fill colours are compared with a graphics state model."
RULE = "A case is a colour with a conversion chain, a canvas program, a hexadecimal string or a gradient position; states are colours."
ASSUMPTIONS = ["Output is decimal with six digits, SVG colours have 8 bits per component."]

MODELS = {"gray": (color.gray, "g"), "rgb": (color.rgb, "rgb"), "hsb": (color.hsb, "hsb"), "cmyk": (color.cmyk, "cmyk")}
EPS = 1e-9


def comps(c):
    m = model(c)
    return tuple(getattr(c, n) for n in MODELS[m][1])


def model(c):
    for m, (cls, names) in MODELS.items():
        if type(c) is cls:
            return m
    require(False, "a color of type %r", type(c))


# ------------------------------------------------------------ reference: exact rational arithmetic
def id1(x):
    return x


class Ref:

    def __init__(self, uc=id1, um=id1, uy=id1, bg=id1):
        self.ucr, self.bg = (uc, um, uy), bg

    def hsb2rgb(self, v):
        h, s, b = v
        h = h*6
        i = math.floor(h)
        f = h-i
        p, q, t = b*(1-s), b*(1-s*f), b*(1-s*(1-f))
        return [(b, t, p), (q, b, p), (p, b, t), (p, q, b), (t, p, b), (b, p, q)][i % 6]

    def rgb2hsb(self, v):
        r, g, b = v
        mx, mn = max(v), min(v)
        if mx == mn:
            return (F(0), F(0), mx)
        d = mx-mn
        h = (g-b)/d if r == mx else 2+(b-r)/d if g == mx else 4+(r-g)/d
        return (h/6 % 1, d/mx, mx)

    def convert(self, m, v, to):
        if m == to:
            return v
        if m == "gray":
            g, = v
            return {"rgb": (g, g, g), "hsb": (F(0), F(0), g), "cmyk": (F(0), F(0), F(0), 1-g)}[to]
        if m == "hsb":
            return self.convert("rgb", self.hsb2rgb(v), to)
        if m == "cmyk":
            c, mm, y, k = v
            if to == "gray":
                return (1-min(F(1), F(3, 10)*c+F(59, 100)*mm+F(11, 100)*y+k),)
            return self.convert("rgb", tuple(1-min(F(1), x+k) for x in v[:3]), to)
        if to == "gray":
            return (F(3, 10)*v[0]+F(59, 100)*v[1]+F(11, 100)*v[2],)
        if to == "hsb":
            return self.rgb2hsb(v)
        cmy = [1-x for x in v]
        k = min(cmy)
        return tuple(min(F(1), max(F(0), x-u(k))) for x, u in zip(cmy, self.ucr)) + (self.bg(k),)


REF = Ref()


def rgbof(m, v):
    return v if m == "rgb" else REF.convert(m, v, "rgb")


def near(m, got, want):
    """equal components; the hue of an almost grey color and red at both ends are the same"""
    if m == "hsb":
        return all(abs(x-y) < EPS for x, y in zip(REF.hsb2rgb([F(x) for x in got]), REF.hsb2rgb([F(x) for x in want])))
    return len(got) == len(want) and all(abs(x-y) < EPS for x, y in zip(got, want))


def grid(tier):
    steps = {"gray": 60, "rgb": 6, "hsb": 6, "cmyk": 4} if tier == "quick" else {"gray": 600, "rgb": 14, "hsb": 12, "cmyk": 7}
    extra = [F(1, 1000), F(1, 3), F(38, 100), F(999, 1000)] if tier == "thorough" else [F(1, 1000), F(37, 100)]
    for m, (cls, names) in MODELS.items():
        vs = [F(i, steps[m]) for i in range(steps[m]+1)]+extra
        for v in itertools.product(vs, repeat=len(names)):
            yield (m, v)


def space_convert(tier):
    """all chains of conversions"""
    depth = 3 if tier == "quick" else 4
    chains = [c for n in range(1, depth+1) for c in itertools.product(["gray", "grey", "rgb", "hsb", "cmyk"] if n < 3 else ["gray", "rgb", "hsb", "cmyk"], repeat=n)]

    def gen():
        for m, v in grid(tier):
            yield (m, [(x.numerator, x.denominator) for x in v])

    def run(case):
        m, v = case
        v = tuple(F(*x) for x in v)
        start = MODELS[m][0](*[float(x) for x in v])
        seen = {(): (start, m, v)}
        sig = []
        visible = m != "cmyk"
        for ch in chains:
            c0, m0, v0 = seen[ch[:-1]]
            before = comps(c0)
            to = ch[-1].replace("grey", "gray")
            c1 = getattr(c0, ch[-1])()
            require(comps(c0) == before, "the conversion modified the color")
            require(c1 is not c0 and model(c1) == to, "%s converted to %s is %r", m0, ch[-1], c1)
            v1 = REF.convert(m0, v0, to)
            require(near(to, comps(c1), v1), "%s of %r is %r instead of %r", ch, [float(x) for x in v], comps(c1), [float(x) for x in v1])
            require(all(0 <= x <= 1 for x in comps(c1)), "components %r", comps(c1))
            # without passing gray, the visible color stays
            if "gray" not in [x.replace("grey", "gray") for x in ch]:
                require(all(abs(x-y) < EPS for x, y in zip(rgbof(to, v1), rgbof(m, v))), "%s of %r looks different: %r", ch, [float(x) for x in v], [float(x) for x in v1])
            seen[ch] = (c1, to, v1)
            TRACE.step((to, v1))
            if len(ch) == 1:
                sig.append(v1)
        b = start.to8bitbytes() if m != "hsb" else start.rgb().to8bitbytes()
        w = v if m != "hsb" else rgbof(m, v)
        require(len(b) == len(w) and all(abs(x-255*y) <= 1 for x, y in zip(b, w)), "bytes %r", b)
        for x, y in zip(b, w):
            require(y not in (0, 1) or x == 255*y or m == "hsb" and abs(x-255*y) <= 1, "byte %r of %r", x, y)
        if m != "hsb":
            require(start.colorspacestring() == {"gray": "/DeviceGray", "rgb": "/DeviceRGB", "cmyk": "/DeviceCMYK"}[m], "color space %r", start.colorspacestring())
        return (m, v, tuple(sig))
    return Space("convert", gen, run, dict(depth=depth, chains=len(chains)))


def space_blackgeneration(tier):
    """user supplied functions for under color removal and black generation"""
    FS = {"id": id1, "zero": lambda x: 0*x, "half": lambda x: x/2, "square": lambda x: x*x, "one": lambda x: 0*x+1, "neg": lambda x: -x/4}
    n = 4 if tier == "quick" else 6
    sets = [(a, b, c, d) for a in FS for b in ("id", "half", "square") for c in ("id", "zero", "neg") for d in ("id", "zero", "square", "half")]

    def gen():
        for s in sets:
            for order in (0, 1):
                yield (s, order)

    def run(case):
        s, order = case
        kw = dict(zip(("UCRc", "UCRm", "UCRy", "BG"), [FS[x] for x in s]))
        try:
            if order == 0:
                color.set(**kw)
            else:
                for k in reversed(list(kw)):
                    color.set(**{k: kw[k]})
            ref = Ref(*kw.values())
            out = set()
            for v in itertools.product([F(i, n) for i in range(n+1)], repeat=3):
                got = comps(color.rgb(*map(float, v)).cmyk())
                want = ref.convert("rgb", v, "cmyk")
                require(all(abs(x-y) < EPS for x, y in zip(got, want)), "cmyk of %r is %r instead of %r", v, got, want)
                w = ref.rgb2hsb(v)
                got = comps(color.hsb(*map(float, w)).cmyk())
                require(all(abs(x-y) < 1e-6 for x, y in zip(got, ref.convert("rgb", v, "cmyk"))), "cmyk of %r is %r", w, got)
                out.add(want)
        finally:
            color.set(UCRc=id1, UCRm=id1, UCRy=id1, BG=id1)
        return (s, len(out))
    return Space("blackgeneration", gen, run, dict(functions=len(FS), sets=len(sets)))


def space_range(tier):
    """components out of range are rejected, at any position"""
    VS = [-1, -1e-6, -1e-12, 0, 0.0, -0.0, 1e-300, 0.5, 1, 1.0, True, 1-1e-12, 1+1e-12, 1.0000001, 2, 255, float("inf"), float("-inf"), F(1, 2), F(3, 2)]

    def gen():
        for m in MODELS:
            n = len(MODELS[m][1])
            for i in range(n):
                for j in range(n):
                    for a in range(len(VS)):
                        for b in range(len(VS)):
                            if i < j or i == j and a == b:
                                for kw in (0, 1):
                                    yield (m, i, j, a, b, kw)

    def run(case):
        m, i, j, a, b, kw = case
        cls, names = MODELS[m]
        v = [0.25]*len(names)
        v[i], v[j] = VS[a], VS[b]
        ok = all(0 <= x <= 1 for x in v)
        try:
            c = cls(**dict(zip(names, v))) if kw else cls(*v)
        except ValueError:
            require(not ok, "%s%r is rejected", m, v)
            return (m, i, j, a, b)
        require(ok, "%s%r is accepted", m, v)
        require(comps(c) == tuple(v), "%s%r is %r", m, v, comps(c))
        return (m, i, j, a, b)
    return Space("range", gen, run, dict(values=len(VS)))


def space_hex(tier):
    """hexadecimal strings"""
    def gen():
        for k in range(4096):
            yield ("3", k)
        for k in range(256):
            for p in range(3):
                for o in (0, 0x11, 0x80, 0xfe):
                    yield ("6", ((o << 16 | o << 8 | o) & ~(0xff << 8*p)) | k << 8*p)
        if tier == "thorough":
            for a in range(0, 256, 5):
                for b in range(0, 256, 3):
                    for c in range(0, 256, 7):
                        yield ("6", a << 16 | b << 8 | c)
        for s in ("", "#", "1", "12", "1234", "12345", "1234567", "12345678", "ggg", "12g456", "# 12", "red", "0x1234", "-12", "+12", "1.2", "#12\n34"):
            yield ("bad", s)

    def run(case):
        kind, k = case
        if kind == "bad":
            try:
                c = color.rgbfromhexstring(k)
            except ValueError:
                return case
            require(False, "%r is the color %r", k, comps(c))
        s = "%03x" % k if kind == "3" else "%06x" % k
        want = [int(x*2, 16) for x in s] if kind == "3" else [int(s[i:i+2], 16) for i in (0, 2, 4)]
        full = "".join("%02x" % x for x in want)
        for t in (s, "#"+s, s.upper(), "#"+s.upper(), " #%s\n" % s):
            c = color.rgbfromhexstring(t)
            require(model(c) == "rgb" and near("rgb", comps(c), [F(x, 255) for x in want]), "%r is %r", t, comps(c))
        require(list(c.to8bitbytes()) == want, "bytes %r of %r", list(c.to8bitbytes()), s)
        short = full[::2] if full[::2] == full[1::2] else full
        for strip in (0, 1):
            for h in (0, 1):
                r = c.tohexstring(cssstrip=strip, addhash=h)
                require(r.lower() == "#"*h+(short if strip else full), "%r is written as %r with %r", s, r, (strip, h))
        require(c.tohexstring().lower() == "#"+short, "default %r", c.tohexstring())
        return full
    return Space("hex", gen, run, dict(three=4096))


# ------------------------------------------------------------ gradients
LINEAR = {"gray": color.lineargradient_gray, "rgb": color.lineargradient_rgb, "hsb": color.lineargradient_hsb, "cmyk": color.lineargradient_cmyk}
FUNC = {"gray": color.functiongradient_gray, "rgb": color.functiongradient_rgb, "hsb": color.functiongradient_hsb, "cmyk": color.functiongradient_cmyk}
WRAP = {"rgb": color.rgbgradient, "cmyk": color.cmykgradient, None: None}
ENDS = {"Red": (1, 0, 0), "Green": (0, 1, 0), "Blue": (0, 0, 1), "Black": (0, 0, 0), "White": (1, 1, 1)}
JET = {"r": [(0, 0), (.38, 0), (.62, 1), (.87, 1), (1, .5)], "g": [(0, 0), (.13, 0), (.38, 1), (.62, 1), (.87, 0), (1, 0)], "b": [(0, .5), (.13, 1), (.38, 1), (.62, 0), (1, 0)]}


def piecewise(pts, x):
    for (a, u), (b, v) in zip(pts, pts[1:]):
        if a <= x <= b:
            return u+(v-u)*(x-a)/(b-a)


def named():
    """name -> (model, f: position to components)"""
    d = {}
    for a in ENDS:
        for b in ENDS:
            if a != b and {a, b} != {"Black", "White"}:
                d[a+b] = ("rgb", lambda x, a=ENDS[a], b=ENDS[b]: [q*x+p*(1-x) for p, q in zip(a, b)])
    d["Gray"] = d["Grey"] = ("gray", lambda x: [1-x])
    d["ReverseGray"] = d["ReverseGrey"] = ("gray", lambda x: [x])
    d["Rainbow"] = ("hsb", lambda x: [2*x/3, 1, 1])
    d["ReverseRainbow"] = ("hsb", lambda x: [2*(1-x)/3, 1, 1])
    d["Hue"] = ("hsb", lambda x: [x, 1, 1])
    d["ReverseHue"] = ("hsb", lambda x: [1-x, 1, 1])
    d["Jet"] = ("rgb", lambda x: [piecewise(JET[c], x) for c in "rgb"])
    d["ReverseJet"] = ("rgb", lambda x: [piecewise(JET[c], 1-x) for c in "rgb"])
    return d


NAMED = named()


def space_gradients(tier):
    """all positions of all gradients"""
    n = 60 if tier == "quick" else 600
    GV = [0, 0.3, 1]

    def gen():
        for name in NAMED:
            yield ("named", name, None)
        for name in ("Rainbow", "ReverseRainbow", "Hue", "ReverseHue"):
            yield ("named", name, "rgb")
            yield ("named", name, "cmyk")
        for name in ("Jet", "ReverseJet"):
            yield ("named", name, "cmyk")
        for name in ("BlackYellow", "YellowBlack"):
            yield ("yellow", name, None)
        for m in MODELS:
            k = len(MODELS[m][1])
            vs = list(itertools.product(GV, repeat=k)) if k < 4 else list(itertools.product([0.1, 1], repeat=k))
            for a in vs:
                for b in vs:
                    for wrap in WRAP:
                        if k < 3 or wrap is None or sum(a)+sum(b) > k:
                            yield ("linear", (m, a, b), wrap)
            for f in range(3):
                for wrap in WRAP:
                    yield ("function", (m, f), wrap)

    def run(case):
        kind, x, wrap = case
        if kind == "named":
            m, f = NAMED[x]
            g = getattr({"rgb": color.rgbgradient, "cmyk": color.cmykgradient, None: color.gradient}[wrap], x)
        elif kind == "yellow":
            g = getattr(color.gradient, x)
            h = getattr(color.gradient, {"BlackYellow": "YellowBlack", "YellowBlack": "BlackYellow"}[x])
            ends = {"BlackYellow": (0, 1), "YellowBlack": (1, 0)}[x]
            last = None
            for i in range(n+1):
                p = i/n
                a, b = comps(g.getcolor(p)), comps(h.getcolor(1-p))
                require(all(abs(u-v) < 1e-6 for u, v in zip(a, b)), "reverse gradient at %r: %r %r", p, a, b)
                gr = g.getcolor(p).gray().g
                if last is not None:
                    require((gr-last)*(ends[1]-ends[0]) >= -1e-9, "brightness %r after %r at %r", gr, last, p)
                last = gr
            for p, e in ((0, ends[0]), (1, ends[1])):
                c = comps(g.getcolor(p))
                require(near("rgb", c, (1, 1, 0.5) if e else (0, 0, 0)), "color %r at %r", c, p)
            return (x, last)
        elif kind == "linear":
            m, a, b = x
            f = lambda p: [v*p+u*(1-p) for u, v in zip(a, b)]
            g = LINEAR[m](MODELS[m][0](*a), MODELS[m][0](*b))
            if wrap:
                g = WRAP[wrap](g)
        else:
            m, k = x
            fs = [[lambda p: p, lambda p: 1-p, lambda p: p*p, lambda p: 0.25], [lambda p: math.sqrt(p), lambda p: 0.5, lambda p: 1-p*p, lambda p: abs(2*p-1)], [lambda p: 1, lambda p: 0, lambda p: p/3, lambda p: p]][k]
            fs = fs[:len(MODELS[m][1])]
            f = lambda p: [h(p) for h in fs]
            g = FUNC[m](*fs)
            if wrap:
                g = WRAP[wrap](g)

        def check(c, p):
            want = [F(max(0, min(1, v))) for v in f(p)]
            mm = m
            if wrap:
                want = REF.convert(m, want, wrap)
                mm = wrap
            require(model(c) == mm and near(mm, comps(c), want), "%r instead of %s%r at %r", (c, comps(c)), mm, [float(w) for w in want], p)

        for i in range(n+1):
            check(g.getcolor(i/n), i/n)
        for total in range(1, 13):
            for i in range(total):
                check(g.select(i, total), i/(total-1) if total > 1 else 0)
        # by way of the attribute lists of the graph styles
        for total in (1, 2, 5):
            for i in range(total):
                l = attr.selectattrs([g], i, total)
                require(len(l) == 1, "%d attributes", len(l))
                check(l[0], i/(total-1) if total > 1 else 0)
        return (kind, m, x, wrap)
    return Space("gradients", gen, run, dict(positions=n+1, named=len(NAMED)))


def space_palette(tier):
    CS = [color.rgb.red, color.gray(0.5), color.cmyk.Orange, color.hsb(0.5, 1, 0.5)]
    top = 4 if tier == "quick" else 6

    def gen():
        for k in range(1, top+1):
            for cs in itertools.product(range(len(CS)), repeat=k):
                for cyc in (0, 1, None):
                    yield (cs, cyc)

    def run(case):
        cs, cyc = case
        l = [CS[c] for c in cs]
        p = color.palette(l) if cyc is None else color.palette(l, cyclic=cyc)
        for total in range(1, 9):
            for i in range(total):
                c = p.select(i, total)
                want = l[i] if i < len(l) else None if cyc == 0 else l[i % len(l)]
                require(c is want, "color %d of %d is %r instead of %r", i, total, c, want)
                sel = attr.selectattrs([p], i, total)
                require(sel == (None if want is None else [want]), "selected %r", sel)
        return (cs, cyc)
    return Space("palette", gen, run, dict(length=top))


# ------------------------------------------------------------ named colors
def dvipsnames():
    """the names of the color package of dvips, whose values the named cmyk colors take"""
    import glob
    for fn in glob.glob("/usr/share/tex*/texmf-dist/tex/latex/graphics/dvipsnam.def") + glob.glob("/usr/share/texmf*/tex/latex/graphics/dvipsnam.def"):
        with open(fn) as f:
            return dict((n, tuple(map(float, v.split(",")))) for n, v in re.findall(r"\\DefineNamedColor\{named\}\{(\w+)\}\s*\{cmyk\}\{([^}]*)\}", f.read()))
    return {}


def space_names(tier):
    d = dvipsnames()

    def gen():
        for n in sorted(d):
            if n not in ("Peach", "Fuchsia"):   # other values by design of either side would show here
                yield ("cmyk", n, d[n])
        for n in ("Peach", "Fuchsia"):
            if n in d:
                yield ("cmyk", n, d[n])
        for n in ("white", "black", "White", "Black"):
            yield ("cmyk", n, (0, 0, 0, 0 if n.lower() == "white" else 1))
        yield ("cmyk", "Grey", (0, 0, 0, 0.5))
        for n in ("red", "green", "blue", "white", "black"):
            yield ("rgb", n, ENDS[n.capitalize()])
        yield ("gray", "black", (0,))
        yield ("gray", "white", (1,))
        yield ("grey", "black", (0,))

    def run(case):
        m, n, v = case
        c = getattr(getattr(color, m), n)
        require(model(c) == m.replace("grey", "gray") and near("", comps(c), v), "%s.%s is %r instead of %r", m, n, comps(c), v)
        return case
    return Space("names", gen, run, dict(dvips=len(d)))


# ------------------------------------------------------------ output
COL = [("gray", (0.5,)), ("rgb", (0.2, 0.4, 0.6)), ("hsb", (0.4, 0.5, 0.8)), ("cmyk", (0.1, 0.2, 0.4, 0.3)), ("rgb", (1, 1/3, 0)), ("gray", (1/7,)), ("cmyk", (1, 0, 0.123456, 0))]
ALPHA = [0.25, 1, 0, 1/3]


def mk(c):
    return MODELS[c[0]][0](*c[1])


# slots: attribute lists of the parts of a program; each slot is None, ("c", i), ("t", i) or both
def slotvalues(n):
    out = [()]
    out += [(("c", i),) for i in range(n)] + [(("t", i),) for i in range(2)]
    out += [(("c", 1), ("t", 0)), (("t", 0), ("c", 0)), (("c", 0), ("c", 1)), (("t", 0), ("t", 3)), (("t", 0), "clrt"), (("c", 1), "clrc")]
    return out


def real(slot):
    l = []
    for s in slot:
        if s == "clrt":
            l.append(attr.clearclass(color.transparency))
        elif s == "clrc":
            l.append(color.clear)
        else:
            l.append(mk(COL[s[1]]) if s[0] == "c" else color.transparency(ALPHA[s[1]]))
    return l


class St:

    def __init__(self):
        self.stroke = self.fill = ("gray", (0,))
        self.sa = self.fa = 1

    def apply(self, slot, stroke=True, fill=True):
        s = St()
        s.__dict__.update(self.__dict__)
        c = t = None
        for x in slot:
            if x == "clrt":
                t = None
            elif x == "clrc":
                c = None
            elif x[0] == "c":
                c = COL[x[1]]
            else:
                t = 1-ALPHA[x[1]]
        if c is not None:
            if stroke:
                s.stroke = c
            if fill:
                s.fill = c
        if t is not None:
            if stroke:
                s.sa = t
            if fill:
                s.fa = t
        return s


P1 = lambda k: path.line_pt(k, 0, k, 5)
R1 = lambda k: path.rect_pt(k, 0, 5, 5)


def build(outer, stroke, fill, own, how):
    """a canvas and the expected (op, colour, alpha) of its marks"""
    c = canvas.canvas()
    c.stroke(P1(1))
    want = [("stroke", St())]
    st = St()
    so = st.apply(outer)
    sub = canvas.canvas()
    d = {"both": [deco.stroked(real(stroke)), deco.filled(real(fill))], "turned": [deco.filled(real(fill)), deco.stroked(real(stroke))], "stroked": [deco.stroked(real(stroke))], "filled": [deco.filled(real(fill))], "plain": []}[how]
    base = so.apply(own)
    if how == "plain":
        sub.stroke(P1(2), real(own)+real(stroke))
        want.append(("stroke", so.apply(own+stroke, fill=False)))
        sub.fill(R1(3), real(own)+real(fill))
        want.append(("fill", so.apply(own+fill, stroke=False)))
    else:
        sub.draw(R1(2), real(own)+d)
        f = ("fill", base.apply(fill, stroke=False))
        s = ("stroke", base.apply(stroke, fill=False))
        want += {"stroked": [s], "filled": [f]}.get(how, [f, s])
    # attributes of a canvas
    inner = canvas.canvas(real(fill))
    inner.stroke(P1(7))
    inner.fill(R1(8))
    sub.insert(inner)
    s = so.apply(fill)
    want += [("stroke", s), ("fill", s)]
    c.insert(sub, real(outer))
    c.fill(R1(9))
    want.append(("fill", St()))
    return c, want


def judge(ms, want, fmt):
    require(len(ms) == len(want), "%s: %d marks instead of %d", fmt, len(ms), len(want))
    for k, (m, (op, st)) in enumerate(zip(ms, want)):
        require(m.op == op, "%s: mark %d is a %s instead of %s", fmt, k, m.op, op)
        c, a = (st.stroke, st.sa) if op == "stroke" else (st.fill, st.fa)
        got = (m.color[0], tuple(m.color[1]))
        if fmt == "PS":
            ok = got[0] == c[0] and all(abs(x-y) <= 5.1e-7 for x, y in zip(got[1], c[1]))
        elif fmt == "PDF":
            # there is no hsb in PDF
            w = c if c[0] != "hsb" else ("rgb", REF.hsb2rgb([F(x) for x in c[1]]))
            ok = got[0] == w[0] and all(abs(x-y) <= 5.1e-7 for x, y in zip(got[1], w[1]))
        else:
            w = rgbof(c[0], [F(x) for x in c[1]])
            ok = got[0] == "rgb" and all(abs(x-y) <= F(1, 255)+F(1, 10**6) for x, y in zip(got[1], w))
        require(ok, "%s: mark %d (%s) has the color %r instead of %r", fmt, k, op, got, c)
        require(abs(m.alpha-a) < 1e-6, "%s: mark %d (%s) has the opacity %r instead of %r", fmt, k, op, m.alpha, a)
        TRACE.visit((fmt, op, c, a))


def space_output(tier):
    full = slotvalues(4 if tier == "quick" else 7)
    few = [(), (("c", 2),), (("t", 3),), (("c", 3), ("t", 0))] if tier == "quick" else slotvalues(3)

    def gen():
        for how in ("both", "turned", "stroked", "filled", "plain"):
            for outer in few:
                for own in few:
                    for stroke in full if how != "filled" else [()]:
                        for fill in full:
                            yield (how, outer, own, stroke, fill)

    def run(case):
        how, outer, own, stroke, fill = case
        c, want = build(tuple(outer), tuple(stroke), tuple(fill), tuple(own), how)
        f = io.BytesIO(); c.writeEPSfile(f)
        ms = M.psmarks(f.getvalue())
        judge_ps(ms, want)
        f = io.BytesIO(); c.writePDFfile(f)
        judge(M.pdfmarks(f.getvalue()), want, "PDF")
        f = io.BytesIO(); c.writeSVGfile(f)
        judge(M.svgmarks(f.getvalue()), want, "SVG")
        return tuple((op, st.stroke if op == "stroke" else st.fill, st.sa if op == "stroke" else st.fa) for op, st in want)
    return Space("output", gen, run, dict(slotvalues=len(full)))


def judge_ps(ms, want):
    # PostScript knows a single color and opacity only; that of the last assignment holds
    require(len(ms) == len(want), "PS: %d marks instead of %d", len(ms), len(want))
    judge(ms, want, "PS")


def space_values(tier):
    """the components of all colors of a grid reach the output"""
    def gen():
        for m, v in grid(tier if tier == "quick" else "quick"):
            if tier == "thorough" or m in ("gray",) or sum(x.denominator for x in v)+len(v) < 16:
                yield (m, [float(x) for x in v])
        for m in MODELS:
            for i in range(len(MODELS[m][1])):
                for x in (1e-3, 1e-5, 4.9e-7, 5.1e-7, 1-1e-7, 1-1e-6, 1/3, 2/3, 0.123456789):
                    v = [0.5]*len(MODELS[m][1])
                    v[i] = x
                    yield (m, v)

    def run(case):
        m, v = case
        c = canvas.canvas()
        c.stroke(P1(1), [mk((m, v))])
        c.fill(R1(1), [mk((m, v))])
        s = St()
        s.stroke = s.fill = (m, tuple(v))
        want = [("stroke", s), ("fill", s)]
        for fmt, w, read in (("PS", c.writeEPSfile, M.psmarks), ("PDF", c.writePDFfile, M.pdfmarks), ("SVG", c.writeSVGfile, M.svgmarks)):
            f = io.BytesIO(); w(f)
            judge(read(f.getvalue()), want, fmt)
        return (m, v)
    return Space("values", gen, run, dict(models=4))


def space_opacity(tier):
    """opacities in documents with several pages and the same opacity for strokes and fills"""
    VS = [0.25, 0.5, 0, 1, 1/3]

    def gen():
        for n in (1, 2):
            for seq in itertools.product([(k, i) for k in ("s", "f", "d", "n") for i in range(len(VS) if tier == "thorough" else 3)], repeat=2 if n == 2 else 3 if tier == "thorough" else 2):
                yield (n, seq)

    def run(case):
        n, seq = case
        cs = [canvas.canvas() for i in range(n)]
        wants = [[] for i in range(n)]
        for k, (kind, i) in enumerate(seq):
            c, w = cs[k % n], wants[k % n]
            t = color.transparency(VS[i])
            s = St()
            s.sa = s.fa = 1-VS[i]
            if kind == "s":
                c.stroke(P1(k), [t]); w.append(("stroke", s))
            elif kind == "f":
                c.fill(R1(k), [t]); w.append(("fill", s))
            elif kind == "d":
                c.draw(R1(k), [t, deco.stroked, deco.filled]); w += [("fill", s), ("stroke", s)]
            else:
                c.stroke(P1(k)); w.append(("stroke", St()))
        if n == 1:
            for fmt, w, read in (("PS", cs[0].writeEPSfile, M.psmarks), ("PDF", cs[0].writePDFfile, M.pdfmarks), ("SVG", cs[0].writeSVGfile, M.svgmarks)):
                f = io.BytesIO(); w(f)
                judge(read(f.getvalue()), wants[0], fmt)
        d = document.document([document.page(c) for c in cs])
        f = io.BytesIO(); d.writePDFfile(f)
        pdf = M.PDF(f.getvalue())
        for p, w in zip(pdf.pages(), wants):
            judge(pdf.marks(p), w, "PDF")
        return case
    return Space("opacity", gen, run, dict(values=len(VS)))


def spaces(tier):
    return [space_convert(tier), space_blackgeneration(tier), space_range(tier), space_hex(tier), space_gradients(tier), space_palette(tier), space_names(tier), space_values(tier), space_opacity(tier), space_output(tier)]
