"""Independent interpreters for what PyX writes: a PostScript machine, a PDF reader with
a content stream machine, and an SVG renderer.  Each returns painted marks in page
coordinates (PostScript points, y upwards)."""
import math, re, zlib
import xml.etree.ElementTree as ET
from . import geom as g
from . import t1


class MachineError(Exception):
    pass


# ---------------------------------------------------------------- paths
class Path:
    """Path under construction in device coordinates; subpaths = [closed, start, [segments]]"""

    def __init__(self):
        self.subs = []
        self.cur = None

    def copy(self):
        p = Path()
        p.subs = [[c, s, list(l)] for c, s, l in self.subs]
        p.cur = self.cur
        return p

    def moveto(self, p):
        if self.subs and not self.subs[-1][2] and not self.subs[-1][0]:
            self.subs.pop()
        self.subs.append([False, p, []])
        self.cur = p

    def _open(self):
        if self.cur is None:
            raise MachineError("nocurrentpoint")
        if self.subs[-1][0]:
            self.subs.append([False, self.cur, []])

    def lineto(self, p):
        self._open()
        self.subs[-1][2].append((self.cur, p))
        self.cur = p

    def curveto(self, a, b, c):
        self._open()
        self.subs[-1][2].append((self.cur, a, b, c))
        self.cur = c

    def close(self):
        if self.cur is None:
            return
        s = self.subs[-1]
        if not s[0]:
            if s[2] and math.dist(s[2][-1][-1], s[1]) > 0:
                s[2].append((s[2][-1][-1], s[1]))
            s[0] = True
        self.cur = s[1]

    def done(self):
        """subpaths with extent: [(closed, [segments])], dropping isolated points"""
        return [(c, list(l)) for c, s, l in self.subs if l]


def arcsegs(x, y, r, a1, a2):
    """cubic approximations of a circular arc from a1 to a2 degrees (either direction)"""
    n = max(1, int(math.ceil(abs(a2-a1)/15.0)))
    out = []
    for i in range(n):
        s, e = math.radians(a1+(a2-a1)*i/n), math.radians(a1+(a2-a1)*(i+1)/n)
        k = 4/3*math.tan((e-s)/4)
        p0 = (x+r*math.cos(s), y+r*math.sin(s)); p3 = (x+r*math.cos(e), y+r*math.sin(e))
        out.append((p0, (p0[0]-k*r*math.sin(s), p0[1]+k*r*math.cos(s)), (p3[0]+k*r*math.sin(e), p3[1]-k*r*math.cos(e)), p3))
    return out


def psarc(path, m, x, y, r, a1, a2, ccw, cur=True):
    """arc/arcn with the user space matrix m"""
    if ccw:
        while a2 < a1:
            a2 += 360
    else:
        while a2 > a1:
            a2 -= 360
    if abs(a2-a1) > 360:
        a2 = a1 + math.copysign(360 + abs(a2-a1) % 360, a2-a1)
    s = g.app(m, (x+r*math.cos(math.radians(a1)), y+r*math.sin(math.radians(a1))))
    if path.cur is None:
        path.moveto(s)
    else:
        path.lineto(s)
    if a1 == a2 or r == 0:
        path.lineto(path.cur)
        return
    for seg in arcsegs(x, y, r, a1, a2):
        path.curveto(*[g.app(m, p) for p in seg[1:]])


def psarct(path, m, x1, y1, x2, y2, r):
    if path.cur is None:
        raise MachineError("nocurrentpoint")
    x0, y0 = g.app(g.inv(m), path.cur)
    ux, uy, vx, vy = x0-x1, y0-y1, x2-x1, y2-y1
    lu, lv = math.hypot(ux, uy), math.hypot(vx, vy)
    if lu == 0 or lv == 0:
        raise MachineError("undefinedresult")
    ux, uy, vx, vy = ux/lu, uy/lu, vx/lv, vy/lv
    cr = ux*vy - uy*vx
    if abs(cr) < 1e-8 or r == 0:
        path.lineto(g.app(m, (x1, y1)))
        return
    half = math.atan2(abs(cr), ux*vx+uy*vy)/2          # half angle at the corner
    d = r/math.tan(half)
    t1 = (x1+d*ux, y1+d*uy); t2 = (x1+d*vx, y1+d*vy)
    bx, by = ux+vx, uy+vy
    lb = math.hypot(bx, by)
    h = r/math.sin(half)
    c = (x1+h*bx/lb, y1+h*by/lb)
    a1 = math.degrees(math.atan2(t1[1]-c[1], t1[0]-c[0])); a2 = math.degrees(math.atan2(t2[1]-c[1], t2[0]-c[0]))
    ccw = cr < 0        # turning left at the corner
    psarc(path, m, c[0], c[1], r, a1, a2, ccw)


# ---------------------------------------------------------------- marks
class State:
    def __init__(self):
        self.ctm = g.IDENT
        self.width = 1.0
        self.cap = 0
        self.join = 0
        self.miter = 10.0
        self.dash = ((), 0.0)
        self.stroke = ("gray", (0.0,))
        self.fill = ("gray", (0.0,))
        self.strokecs = self.fillcs = "gray"     # PDF colour spaces
        self.sa = 1.0
        self.fa = 1.0
        self.clips = ()
        self.font = None
        self.bits = {}

    def copy(self):
        s = State()
        s.__dict__.update(self.__dict__)
        return s


class Mark:
    """op is stroke, fill, shade, image, text; path is [(closed, [segments])]"""

    def __init__(self, op, st, path=(), **kw):
        self.op = op
        self.path = path
        self.clips = st.clips
        self.ctm = st.ctm
        self.eo = False
        if op == "stroke":
            self.color, self.alpha = st.stroke, st.sa
            self.width, self.cap, self.join, self.miter, self.dash = st.width, st.cap, st.join, st.miter, st.dash
        else:
            self.color, self.alpha = st.fill, st.fa
        self.__dict__.update(kw)

    def __repr__(self):
        return "%s%s %r" % (self.op, " eo" if self.eo else "", dict((k, v) for k, v in self.__dict__.items() if k not in ("op", "eo")))


def hsb2rgb(h, s, b):
    i = math.floor(h*6)
    f = h*6 - i
    p, q, t = b*(1-s), b*(1-s*f), b*(1-s*(1-f))
    return [(b, t, p), (q, b, p), (p, b, t), (p, q, b), (t, p, b), (b, p, q)][int(i) % 6]


def torgb(c):
    kind, v = c[0], c[1]
    if kind == "gray":
        return (v[0],)*3
    if kind == "rgb":
        return tuple(v)
    if kind == "hsb":
        return hsb2rgb(*v)
    if kind == "cmyk":
        return tuple(1-min(1, x+v[3]) for x in v[:3])
    return c


# ---------------------------------------------------------------- PostScript
PSTOK = re.compile(rb"%[^\r\n]*|\(|<~[^~]*~>|<<|>>|<[0-9A-Fa-f\s]*>|[\[\]{}]|//?[^\s()<>\[\]{}/%]*|[^\s()<>\[\]{}/%]+|\s+")


class Name(str):
    pass


class Lit(str):
    pass


class Proc(list):
    pass


class PSMark:
    pass


class PS:
    """Executes the PostScript subset PyX writes for vector graphics.  Unknown operators
    raise.  showpage ends a page."""

    def __init__(self, data, strict=True, builtin=None):
        """builtin maps the names of fonts resident in the device to (encoding, widths)"""
        self.data = data
        self.fonts = {}          # embedded fonts
        self.fontdir = {}        # what findfont finds
        self.builtin = builtin or {}
        self.pos = 0
        self.stack = []
        self.dicts = [{}]
        self.gs = State()
        self.gstack = []
        self.path = Path()
        self.marks = []
        self.pages = []
        self.saves = []
        self.comments = []

    # -- scanner
    def token(self):
        d = self.data
        while self.pos < len(d):
            m = PSTOK.match(d, self.pos)
            if m is None:
                raise MachineError("cannot scan %r" % d[self.pos:self.pos+20])
            t = m.group()
            if t == b"(":
                return self.string()
            self.pos = m.end()
            if t[:1] == b"%":
                self.comments.append(t.decode("latin1"))
                if t.startswith(b"%%BeginFont:"):
                    self.beginfont(t[12:].decode("latin1").strip())
                continue
            if t.isspace():
                continue
            return self.classify(t)
        return None

    def beginfont(self, name):
        """an embedded Type 1 font program"""
        e = self.data.find(b"%%EndFont", self.pos)
        if e < 0:
            raise MachineError("%%BeginFont without %%EndFont")
        b = self.data[self.pos:e]
        self.pos = e
        f = t1.parse(b)
        if f.name != name:
            raise MachineError("font %s announced as %s" % (f.name, name))
        if name in self.fonts:
            raise MachineError("font %s embedded twice" % name)
        self.fonts[name] = f
        self.fontdir[name] = self.fontdict(name, f.getvector(), f.matrix, f)

    @staticmethod
    def fontdict(name, vector, matrix, font):
        return {"FontName": Lit(name), "FID": object(), "Encoding": [Lit(v or ".notdef") for v in vector],
                "FontMatrix": list(matrix), "FontType": 1, ".font": font}

    def findfont(self, name):
        if name not in self.fontdir:
            if name not in self.builtin:
                raise MachineError("font %s is not defined" % name)
            enc, widths = self.builtin[name]
            self.fontdir[name] = self.fontdict(name, enc, (0.001, 0, 0, 0.001, 0, 0), (name, widths))
        return self.fontdir[name]

    def show(self, text):
        if self.gs.font is None:
            raise MachineError("show without font")
        if self.path.cur is None:
            raise MachineError("show without current point")
        d, m = self.gs.font
        x, y = g.app(g.inv(self.gs.ctm), self.path.cur)
        glyphs = []
        for c in text:
            n = str(d["Encoding"][c])
            mm = g.mul(g.mul(self.gs.ctm, g.translate(x, y)), m)
            f = d[".font"]
            glyphs.append((f, n, mm))
            w = (f[1][n], 0) if isinstance(f, tuple) else t1.Outline(f, n).width
            wx, wy = g.app(m, w)
            x, y = x+wx-m[4], y+wy-m[5]
        self.marks.append(Mark("text", self.gs, (), glyphs=glyphs))
        self.path = Path()
        self.path.moveto(self.T(x, y))

    def string(self):
        d, i, depth, out = self.data, self.pos+1, 1, bytearray()
        while True:
            c = d[i:i+1]
            if c == b"":
                raise MachineError("unterminated string")
            if c == b"\\":
                n = d[i+1:i+2]
                m = re.compile(rb"[0-7]{1,3}").match(d, i+1)
                if m:
                    out.append(int(m.group(), 8) & 255); i = m.end(); continue
                if n == b"\n":
                    pass
                else:
                    out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}.get(n, n)
                i += 2; continue
            if c == b"(":
                depth += 1
            if c == b")":
                depth -= 1
                if not depth:
                    break
            out += c
            i += 1
        self.pos = i+1
        return bytes(out)

    def classify(self, t):
        if t[:1] == b"<" and t[:2] not in (b"<<", b"<~"):
            h = re.sub(rb"\s", b"", t[1:-1])
            return bytes.fromhex((h + (b"0" if len(h) % 2 else b"")).decode())
        if t[:2] == b"<~":
            return ascii85(t[2:-2])
        s = t.decode("latin1")
        if re.fullmatch(r"[+-]?\d+", s):
            return int(s)
        if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
            return float(s)
        if re.fullmatch(r"\d+#[0-9a-zA-Z]+", s):
            b, v = s.split("#")
            return int(v, int(b))
        if s.startswith("//"):
            return self.lookup(s[2:])
        if s.startswith("/"):
            return Lit(s[1:])
        return Name(s)

    def proc(self):
        out = Proc()
        while True:
            t = self.token()
            if t is None:
                raise MachineError("unterminated procedure")
            if isinstance(t, Name) and t == "}":
                return out
            if isinstance(t, Name) and t == "{":
                t = self.proc()
            out.append(t)

    def run(self):
        while True:
            t = self.token()
            if t is None:
                break
            if isinstance(t, Name) and t == "{":
                self.stack.append(self.proc())
            else:
                self.exec1(t)
        return self

    def lookup(self, n):
        for d in reversed(self.dicts):
            if n in d:
                return d[n]
        raise MachineError("undefined " + n)

    def call(self, p):
        for t in p:
            if isinstance(t, Proc):
                self.stack.append(t)
            else:
                self.exec1(t)

    def exec1(self, t):
        if not isinstance(t, Name):
            self.stack.append(t)
            return
        for d in reversed(self.dicts):
            if t in d:
                v = d[t]
                if isinstance(v, Proc):
                    self.call(v)
                else:
                    self.stack.append(v)
                return
        f = self.OPS.get(t)
        if f is None:
            raise MachineError("undefined operator %s" % t)
        f(self)

    def pop(self, n=None):
        if n is None:
            if not self.stack:
                raise MachineError("stackunderflow")
            return self.stack.pop()
        if len(self.stack) < n:
            raise MachineError("stackunderflow")
        if n == 0:
            return []
        r = self.stack[-n:]
        del self.stack[-n:]
        return r

    def nums(self, n):
        r = self.pop(n)
        for v in r:
            if not isinstance(v, (int, float)) or isinstance(v, bool):
                raise MachineError("typecheck %r" % (r,))
        return r

    def T(self, x, y):
        return g.app(self.gs.ctm, (x, y))

    def D(self, x, y):
        a, b, c, d, _, _ = self.gs.ctm
        if self.path.cur is None:
            raise MachineError("nocurrentpoint")
        return (self.path.cur[0]+a*x+c*y, self.path.cur[1]+b*x+d*y)


def ascii85(d):
    """strict decoder"""
    out = bytearray()
    grp = []
    for c in d:
        if c in b"\0\t\n\f\r ":
            continue
        if c == 0x7a:
            if grp:
                raise MachineError("z inside of an ASCII85 group")
            out += b"\0\0\0\0"
            continue
        if not 33 <= c <= 117:
            raise MachineError("byte %d in ASCII85 data" % c)
        grp.append(c-33)
        if len(grp) == 5:
            v = 0
            for x in grp:
                v = v*85+x
            if v >= 2**32:
                raise MachineError("ASCII85 group out of range")
            out += v.to_bytes(4, "big")
            grp = []
    if len(grp) == 1:
        raise MachineError("ASCII85 data end with a single byte")
    if grp:
        n = len(grp)
        v = 0
        for x in grp + [84]*(5-n):
            v = v*85+x
        if v >= 2**32:
            raise MachineError("ASCII85 group out of range")
        out += v.to_bytes(4, "big")[:n-1]
    return bytes(out)


def asciihex(d):
    h = re.sub(rb"\s", b"", d)
    if not re.fullmatch(rb"[0-9a-fA-F]*", h):
        raise MachineError("invalid hexadecimal data")
    return bytes.fromhex((h + (b"0" if len(h) % 2 else b"")).decode())


def inflate(d):
    z = zlib.decompressobj()
    r = z.decompress(d) + z.flush()
    if not z.eof:
        raise MachineError("truncated deflated data")
    if z.unused_data:
        raise MachineError("%d bytes after the deflated data" % len(z.unused_data))
    return r


def undct(d):
    """(data, width, height, components, progressive) of JPEG data"""
    import io
    from PIL import Image
    im = Image.open(io.BytesIO(d))
    im.load()
    data = im.tobytes()
    if im.mode == "CMYK":       # the library always inverts, DCTDecode does not
        data = bytes(255-x for x in data)
    return data, im.size, im.mode, bool(im.info.get("progressive"))


class CurrentFile:
    pass


class Filter:
    def __init__(self, src, name):
        self.src = src
        self.name = name

    def read(self, ps):
        """all data up to the end of data"""
        src = self.src
        if isinstance(src, CurrentFile):
            eod = {"ASCII85Decode": b"~>", "ASCIIHexDecode": b">"}.get(self.name)
            if eod is None:
                raise MachineError("%s of binary data" % self.name)
            e = ps.data.find(eod, ps.pos)
            if e < 0:
                raise MachineError("no end of %s data" % self.name)
            raw = ps.data[ps.pos:e]
            ps.pos = e+len(eod)
        elif isinstance(src, Filter):
            raw = src.read(ps)
        elif isinstance(src, Proc):
            parts = []
            while True:
                n = len(ps.stack)
                try:
                    ps.call(src)
                except IndexError:      # array of strings exhausted
                    del ps.stack[n:]
                    break
                parts.append(ps.pop())
                if len(ps.stack) != n:
                    raise MachineError("data source leaves operands")
                if parts[-1] == b"":
                    break
            ps.lastparts = parts
            raw = b"".join(parts)
        elif isinstance(src, bytes):
            raw = src
        else:
            raise MachineError("filter source %r" % (src,))
        return {"ASCII85Decode": ascii85, "ASCIIHexDecode": asciihex, "FlateDecode": inflate, "DCTDecode": lambda d: undct(d)[0]}[self.name](raw)


def readsource(ps, src):
    if isinstance(src, Filter):
        return src.read(ps)
    if isinstance(src, bytes):
        return src
    if isinstance(src, Proc):
        parts = []
        while True:
            n = len(ps.stack)
            try:
                ps.call(src)
            except IndexError:
                del ps.stack[n:]
                break
            parts.append(ps.pop())
            if parts[-1] == b"":
                break
        ps.lastparts = parts
        return b"".join(parts)
    raise MachineError("data source %r" % (src,))


def _ps_ops():
    O = {}

    def op(name):
        def deco(f):
            O[name] = f
            return f
        return deco

    @op("gsave")
    def _(s): s.gstack.append((s.gs.copy(), s.path.copy(), len(s.saves)))

    @op("grestore")
    def _(s):
        if not s.gstack:
            raise MachineError("grestore without gsave")
        s.gs, s.path, _ = s.gstack.pop()

    @op("save")
    def _(s):
        s.saves.append((s.gs.copy(), s.path.copy(), list(s.gstack), [dict(d) for d in s.dicts]))
        s.stack.append(PSMark())

    @op("restore")
    def _(s):
        if not isinstance(s.pop(), PSMark) or not s.saves:
            raise MachineError("invalidrestore")
        gs, p, gst, dd = s.saves.pop()
        if len(s.dicts) != len(dd):
            raise MachineError("dict stack differs at restore")
        s.gs, s.path, s.gstack = gs, p, gst
        for d, o in zip(s.dicts, dd):
            d.clear(); d.update(o)

    @op("newpath")
    def _(s): s.path = Path()

    @op("moveto")
    def _(s): s.path.moveto(s.T(*s.nums(2)))

    @op("lineto")
    def _(s): s.path.lineto(s.T(*s.nums(2)))

    @op("rmoveto")
    def _(s): s.path.moveto(s.D(*s.nums(2)))

    @op("rlineto")
    def _(s): s.path.lineto(s.D(*s.nums(2)))

    @op("curveto")
    def _(s):
        v = s.nums(6); s.path.curveto(s.T(*v[:2]), s.T(*v[2:4]), s.T(*v[4:]))

    @op("rcurveto")
    def _(s):
        v = s.nums(6); s.path.curveto(s.D(*v[:2]), s.D(*v[2:4]), s.D(*v[4:]))

    @op("arc")
    def _(s): psarc(s.path, s.gs.ctm, *s.nums(5), True)

    @op("arcn")
    def _(s): psarc(s.path, s.gs.ctm, *s.nums(5), False)

    @op("arct")
    def _(s): psarct(s.path, s.gs.ctm, *s.nums(5))

    @op("closepath")
    def _(s): s.path.close()

    @op("stroke")
    def _(s):
        s.marks.append(Mark("stroke", s.gs, s.path.done())); s.path = Path()

    @op("fill")
    def _(s):
        s.marks.append(Mark("fill", s.gs, s.path.done())); s.path = Path()

    @op("eofill")
    def _(s):
        s.marks.append(Mark("fill", s.gs, s.path.done(), eo=True)); s.path = Path()

    @op("clip")
    def _(s): s.gs.clips = s.gs.clips + ((s.path.done(), False),)

    @op("eoclip")
    def _(s): s.gs.clips = s.gs.clips + ((s.path.done(), True),)

    @op("concat")
    def _(s):
        m = s.pop()
        if not isinstance(m, list) or len(m) != 6:
            raise MachineError("concat %r" % (m,))
        s.gs.ctm = g.mul(s.gs.ctm, tuple(m))

    @op("translate")
    def _(s): s.gs.ctm = g.mul(s.gs.ctm, g.translate(*s.nums(2)))

    @op("scale")
    def _(s): s.gs.ctm = g.mul(s.gs.ctm, g.scale(*s.nums(2)))

    @op("rotate")
    def _(s): s.gs.ctm = g.mul(s.gs.ctm, g.rotate(*s.nums(1)))

    @op("setlinewidth")
    def _(s): s.gs.width = s.nums(1)[0]

    @op("setlinecap")
    def _(s): s.gs.cap = s.nums(1)[0]

    @op("setlinejoin")
    def _(s): s.gs.join = s.nums(1)[0]

    @op("setmiterlimit")
    def _(s): s.gs.miter = s.nums(1)[0]

    @op("setdash")
    def _(s):
        a, o = s.pop(2)
        if not isinstance(a, list):
            raise MachineError("setdash %r" % (a,))
        s.gs.dash = (tuple(a), o)

    def col(kind, n):
        def f(s):
            v = tuple(s.nums(n))
            s.gs.stroke = s.gs.fill = (kind, v)
        return f
    O["setgray"] = col("gray", 1); O["setrgbcolor"] = col("rgb", 3)
    O["sethsbcolor"] = col("hsb", 3); O["setcmykcolor"] = col("cmyk", 4)

    @op(".setshapealpha")
    def _(s): s.gs.sa = s.gs.fa = s.nums(1)[0]

    @op("showpage")
    def _(s):
        s.pages.append(s.marks); s.marks = []
        s.gs = State(); s.path = Path()

    @op("[")
    def _(s): s.stack.append(s.OPEN)

    @op("]")
    def _(s):
        i = len(s.stack)-1
        while i >= 0 and s.stack[i] is not s.OPEN:
            i -= 1
        if i < 0:
            raise MachineError("unmatched ]")
        a = s.stack[i+1:]
        del s.stack[i:]
        s.stack.append(list(a))

    @op("<<")
    def _(s): s.stack.append(s.OPEN)

    @op(">>")
    def _(s):
        O["]"](s)
        a = s.pop()
        s.stack.append({str(k): v for k, v in zip(a[::2], a[1::2])})

    @op("exch")
    def _(s): a, b = s.pop(2); s.stack += [b, a]

    @op("dup")
    def _(s): a = s.pop(); s.stack += [a, a]

    @op("pop")
    def _(s): s.pop()

    @op("def")
    def _(s):
        k, v = s.pop(2); s.dicts[-1][str(k)] = v

    @op("begin")
    def _(s): s.dicts.append(s.pop())

    @op("end")
    def _(s):
        if len(s.dicts) < 2:
            raise MachineError("dictstackunderflow")
        s.dicts.pop()

    @op("dict")
    def _(s): s.pop(); s.stack.append({})

    @op("bind")
    def _(s): pass

    @op("findfont")
    def _(s): s.stack.append(s.findfont(str(s.pop())))

    @op("definefont")
    def _(s):
        k, d = s.pop(2)
        for n in ("FontMatrix", "Encoding", "FontType", ".font"):
            if n not in d:
                raise MachineError("font %s without %s" % (k, n))
        if "FID" in d:
            raise MachineError("font %s defined with FID" % k)
        if len(d["Encoding"]) != 256 and not all(isinstance(v, Lit) for v in d["Encoding"]):
            raise MachineError("encoding of font %s" % k)
        d = dict(d); d["FID"] = object()
        s.fontdir[str(k)] = d
        s.stack.append(d)

    @op("selectfont")
    def _(s):
        k, z = s.pop(2)
        d = s.findfont(str(k))
        m = z if isinstance(z, list) else (z, 0, 0, z, 0, 0)
        s.gs.font = (d, g.mul(tuple(m), tuple(d["FontMatrix"])))

    @op("show")
    def _(s): s.show(s.pop())

    @op("maxlength")
    def _(s): s.stack.append(len(s.pop())+1)

    @op("forall")
    def _(s):
        d, p = s.pop(2)
        if isinstance(d, dict):
            for k, v in list(d.items()):
                s.stack += [Lit(k), v]
                s.call(p)
        else:
            for v in list(d):
                s.stack.append(v)
                s.call(p)

    @op("put")
    def _(s):
        d, k, v = s.pop(3)
        if isinstance(d, dict):
            d[str(k)] = v
        else:
            d[k] = v

    @op("get")
    def _(s):
        d, k = s.pop(2)
        s.stack.append(d[str(k)] if isinstance(d, dict) else d[k])

    @op("ne")
    def _(s): a, b = s.pop(2); s.stack.append(a != b)

    @op("eq")
    def _(s): a, b = s.pop(2); s.stack.append(a == b)

    @op("and")
    def _(s): a, b = s.pop(2); s.stack.append(a and b)

    @op("if")
    def _(s):
        b, p = s.pop(2)
        if b is True:
            s.call(p)

    @op("ifelse")
    def _(s):
        b, p, q = s.pop(3)
        s.call(p if b else q)

    @op("roll")
    def _(s):
        n, j = s.nums(2)
        v = s.pop(n)
        j %= n
        s.stack += v[n-j:]+v[:n-j]

    @op("index")
    def _(s): s.stack.append(s.stack[-1-s.nums(1)[0]])

    @op("copy")
    def _(s):
        n = s.nums(1)[0]
        s.stack += s.stack[len(s.stack)-n:]

    @op("currentfile")
    def _(s): s.stack.append(CurrentFile())

    @op("filter")
    def _(s):
        src, n = s.pop(2)
        if isinstance(src, dict):
            raise MachineError("filter parameters")
        s.stack.append(Filter(src, str(n)))

    @op("setcolorspace")
    def _(s):
        cs = s.pop()
        if isinstance(cs, list):
            if str(cs[0]) != "Indexed" or len(cs) != 4:
                raise MachineError("colour space %r" % (cs,))
            n = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[str(cs[1])]
            if len(cs[3]) != n*(cs[2]+1):
                raise MachineError("colour table of %d bytes for %d entries" % (len(cs[3]), cs[2]+1))
            cs = ("Indexed", str(cs[1]), cs[2], cs[3])
        else:
            cs = str(cs)
            if cs not in ("DeviceGray", "DeviceRGB", "DeviceCMYK"):
                raise MachineError("colour space %r" % (cs,))
        s.gs.cs = cs

    @op("image")
    def _(s):
        d = s.pop()
        if not isinstance(d, dict):
            raise MachineError("image %r" % (d,))
        mask = None
        if d["ImageType"] == 3:
            if set(d) != {"ImageType", "DataDict", "MaskDict", "InterleaveType"} or d["InterleaveType"] != 1:
                raise MachineError("masked image %r" % (d,))
            mask = d["MaskDict"]
            d = d["DataDict"]
        cs = getattr(s.gs, "cs", "DeviceGray")
        n = 1 if isinstance(cs, tuple) else {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[cs]
        if d["ImageType"] != 1 or len(d["Decode"]) != 2*n or d["BitsPerComponent"] != 8:
            raise MachineError("image dictionary %r" % (d,))
        if mask is not None:
            if mask["ImageType"] != 1 or mask["Width"] != d["Width"] or mask["Height"] != d["Height"] or mask["BitsPerComponent"] != 8 or mask["ImageMatrix"] != d["ImageMatrix"]:
                raise MachineError("mask dictionary %r" % (mask,))
        s.lastparts = None
        data = readsource(s, d["DataSource"])
        if len(data) != d["Width"]*d["Height"]*(n+(mask is not None)):
            raise MachineError("%d bytes of image data for %d x %d pixels" % (len(data), d["Width"], d["Height"]))
        alpha = None
        if mask is not None:
            if [float(x) for x in mask["Decode"]] != [1, 0]:
                raise MachineError("mask decode %r" % (mask["Decode"],))
            alpha = data[::n+1]
            data = b"".join(data[i+1:i+n+1] for i in range(0, len(data), n+1))
        s.marks.append(Mark("image", s.gs, (), width=d["Width"], height=d["Height"], cs=cs, decode=[float(x) for x in d["Decode"]], data=data, smask=alpha,
                            place=g.mul(s.gs.ctm, g.inv(tuple(d["ImageMatrix"]))), parts=s.lastparts))

    @op("shfill")
    def _(s):
        d = s.pop()
        data = readsource(s, d["DataSource"])
        s.marks.append(Mark("shade", s.gs, (), shading=d, data=data))

    @op("load")
    def _(s): s.stack.append(s.lookup(str(s.pop())))

    @op("store")
    def _(s):
        k, v = s.pop(2)
        for d in reversed(s.dicts):
            if str(k) in d:
                d[str(k)] = v
                return
        s.dicts[-1][str(k)] = v

    @op("add")
    def _(s): a, b = s.nums(2); s.stack.append(a+b)

    @op("matrix")
    def _(s): s.stack.append([1.0, 0.0, 0.0, 1.0, 0.0, 0.0])

    @op("makepattern")
    def _(s):
        d, m = s.pop(2)
        if d["PatternType"] != 1:
            raise MachineError("pattern %r" % (d,))
        s.stack.append({".pattern": d, ".matrix": tuple(m), ".ctm": s.gs.ctm, ".dicts": list(s.dicts)})

    @op("setpattern")
    def _(s):
        d = s.pop()
        if ".pattern" not in d:
            raise MachineError("setpattern %r" % (d,))
        if d[".pattern"]["PaintType"] == 2:
            if s.gs.fill[0] == "pattern":
                raise MachineError("uncoloured pattern without an underlying colour")
            n = {"gray": 1, "rgb": 3, "cmyk": 4, "hsb": 3}[s.gs.fill[0]]
            v = s.pop(n) if n > 1 else [s.pop()]
            d = dict(d)
            d[".under"] = (s.gs.fill[0], tuple(v))
        s.gs.stroke = s.gs.fill = ("pattern", d)

    @op("countdictstack")
    def _(s): s.stack.append(len(s.dicts))

    @op("count")
    def _(s): s.stack.append(len(s.stack))

    @op("sub")
    def _(s): a, b = s.nums(2); s.stack.append(a-b)

    @op("userdict")
    def _(s): s.stack.append(s.dicts[0])

    @op("repeat")
    def _(s):
        n, p = s.pop(2)
        if n < 0:
            raise MachineError("repeat %r" % n)
        for i in range(n):
            s.call(p)

    @op("where")
    def _(s):
        k = str(s.pop())
        for d in reversed(s.dicts):
            if k in d:
                s.stack += [d, True]
                return
        if k in s.OPS:
            s.stack += [{}, True]
        else:
            s.stack.append(False)

    @op("languagelevel")
    def _(s): s.stack.append(3)

    @op("setstrokeadjust")
    def _(s): s.pop()

    @op("setoverprint")
    def _(s): s.pop()

    @op("rectclip")
    def _(s):
        x, y, w, h = s.nums(4)
        p = Path()
        p.moveto(s.T(x, y)); p.lineto(s.T(x+w, y)); p.lineto(s.T(x+w, y+h)); p.lineto(s.T(x, y+h)); p.close()
        s.gs.clips = s.gs.clips + ((p.done(), False),)
        s.path = Path()

    O["readonly"] = lambda s: None

    O["true"] = lambda s: s.stack.append(True)
    O["false"] = lambda s: s.stack.append(False)
    O["null"] = lambda s: s.stack.append(None)
    return O


PS.OPEN = object()
PS.OPS = _ps_ops()


def psmarks(data, builtin=None):
    """marks of a one page EPS/PS program"""
    p = PS(data, builtin=builtin).run()
    if p.stack:
        raise MachineError("operand stack not empty at the end: %r" % (p.stack,))
    if p.gstack:
        raise MachineError("%d gsave without grestore" % len(p.gstack))
    if len(p.pages) != 1:
        raise MachineError("%d pages" % len(p.pages))
    if p.marks:
        raise MachineError("marks after showpage")
    return p.pages[0]


# ---------------------------------------------------------------- PDF
class Ref(tuple):
    pass


class Stream:
    def __init__(self, d, raw):
        self.dict = d
        self.raw = raw

    def data(self):
        f = self.dict.get("Filter", [])
        f = [f] if isinstance(f, str) else f
        d = self.raw
        for x in f:
            if x == "FlateDecode":
                d = inflate(d)
            elif x == "DCTDecode":
                d = undct(d)[0]
            else:
                raise MachineError("filter %s" % x)
        return d


PDFWS = b"\0\t\n\f\r "
PDFTOK = re.compile(rb"[\0\t\n\f\r ]+|%[^\r\n]*|<<|>>|[\[\]{}]|<[0-9A-Fa-f\s]*>|/[^\0\t\n\f\r ()<>\[\]{}/%]*|\(|[^\0\t\n\f\r ()<>\[\]{}/%]+")


class Op(str):
    pass


class Lexer:
    def __init__(self, data, pos=0):
        self.d = data
        self.pos = pos

    def tok(self):
        while True:
            if self.pos >= len(self.d):
                return None
            m = PDFTOK.match(self.d, self.pos)
            if not m:
                raise MachineError("cannot scan PDF at %d: %r" % (self.pos, self.d[self.pos:self.pos+20]))
            t = m.group()
            if t == b"(":
                ps = PS(self.d)
                ps.pos = self.pos
                s = ps.string()
                self.pos = ps.pos
                return s
            self.pos = m.end()
            if t[:1] in (b"%",) or t[:1] in (b"\0", b"\t", b"\n", b"\f", b"\r", b" "):
                continue
            if t[:1] == b"/":
                return Lit(re.sub(r"#([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), t[1:].decode("latin1")))
            if t[:1] == b"<" and t != b"<<":
                h = re.sub(rb"\s", b"", t[1:-1])
                return bytes.fromhex((h + (b"0" if len(h) % 2 else b"")).decode())
            s = t.decode("latin1")
            if re.fullmatch(r"[+-]?\d+", s):
                return int(s)
            if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)", s):
                return float(s)
            return Op(s)

    def obj(self):
        t = self.tok()
        return self.rest(t)

    def rest(self, t):
        if isinstance(t, Op):
            if t == "<<":
                d = {}
                while True:
                    k = self.tok()
                    if isinstance(k, Op) and k == ">>":
                        return d
                    if not isinstance(k, Lit):
                        raise MachineError("dictionary key %r" % (k,))
                    if str(k) in d:
                        raise MachineError("duplicate dictionary key %s" % k)
                    d[str(k)] = self.obj()
            if t == "[":
                a = []
                while True:
                    k = self.tok()
                    if k is None:
                        raise MachineError("unterminated array")
                    if isinstance(k, Op) and k == "]":
                        return a
                    a.append(self.rest(k))
            return {"true": True, "false": False, "null": None}.get(t, t)
        if isinstance(t, int):
            save = self.pos
            t2 = self.tok()
            if isinstance(t2, int):
                t3 = self.tok()
                if isinstance(t3, Op) and t3 == "R":
                    return Ref((t, t2))
            self.pos = save
        return t


class PDF:
    """Strict reader: exact cross reference table, exact stream lengths, all references resolve."""

    def __init__(self, data):
        self.data = data
        if not re.match(rb"%PDF-1\.[0-7]\n", data):
            raise MachineError("header %r" % data[:20])
        m = re.search(rb"startxref\n(\d+)\n%%EOF\n?\Z", data)
        if not m:
            raise MachineError("no startxref at the end")
        x = int(m.group(1))
        m = re.compile(rb"xref\n0 (\d+)\n").match(data, x)
        if not m:
            raise MachineError("startxref does not point at xref")
        n = int(m.group(1))
        p = m.end()
        self.offsets = {}
        for i in range(n):
            e = data[p+20*i:p+20*i+20]
            if not re.fullmatch(rb"\d{10} \d{5} [nf][ \r][\r\n]", e):
                raise MachineError("xref entry %d is %r" % (i, e))
            if i == 0:
                if e[:18] != b"0000000000 65535 f":
                    raise MachineError("first xref entry %r" % e)
            else:
                if e[17:18] != b"n" or e[11:16] != b"00000":
                    raise MachineError("xref entry %d %r" % (i, e))
                self.offsets[i] = int(e[:10])
        lx = Lexer(data, p+20*n)
        if lx.tok() != "trailer":
            raise MachineError("no trailer after xref")
        self.trailer = lx.obj()
        if self.trailer.get("Size") != n:
            raise MachineError("Size %r of %d objects" % (self.trailer.get("Size"), n-1))
        self.objs = {}
        ends = []
        for i, o in self.offsets.items():
            m = re.compile(rb"%d 0 obj[\r\n ]" % i).match(data, o)
            if not m:
                raise MachineError("object %d is not at its offset" % i)
            lx = Lexer(data, m.end())
            v = lx.obj()
            save = lx.pos
            t = lx.tok()
            if isinstance(t, Op) and t == "stream":
                if data[lx.pos:lx.pos+2] == b"\r\n":
                    q = lx.pos+2
                elif data[lx.pos:lx.pos+1] == b"\n":
                    q = lx.pos+1
                else:
                    raise MachineError("stream keyword of object %d not followed by a line end" % i)
                L = v.get("Length")
                if isinstance(L, Ref):
                    L = self.peek(L)
                if not isinstance(L, int):
                    raise MachineError("stream length %r" % (L,))
                raw = data[q:q+L]
                lx.pos = q+L
                if lx.tok() != "endstream" or len(raw) != L or not re.compile(rb"[\r\n]{0,2}endstream").match(data, q+L):
                    raise MachineError("stream of object %d does not have its declared length" % i)
                v = Stream(v, raw)
                t = lx.tok()
            if not (isinstance(t, Op) and t == "endobj"):
                raise MachineError("object %d not ended by endobj but %r" % (i, t))
            self.objs[i] = v
            ends.append((o, lx.pos, i))
        ends.sort()
        for (a, b, i), (c, d, j) in zip(ends, ends[1:]):
            if b > c:
                raise MachineError("objects %d and %d overlap" % (i, j))
        self.check(self.trailer, "trailer")
        for i, v in self.objs.items():
            self.check(v.dict if isinstance(v, Stream) else v, "object %d" % i)
            if isinstance(v, Stream):
                f = v.dict.get("Filter")
                if f in (None, "FlateDecode"):
                    v.data()

    def peek(self, ref):
        m = re.compile(rb"%d 0 obj\s+(\d+)\s+endobj" % ref[0]).match(self.data, self.offsets[ref[0]])
        return int(m.group(1))

    def check(self, v, where):
        if isinstance(v, Ref):
            if v[0] not in self.objs and v[0] not in self.offsets or v[1] != 0:
                raise MachineError("dangling reference %d in %s" % (v[0], where))
        elif isinstance(v, dict):
            for k, w in v.items():
                self.check(w, where + "/" + k)
        elif isinstance(v, list):
            for w in v:
                self.check(w, where)
        elif isinstance(v, Op):
            raise MachineError("stray keyword %r in %s" % (str(v), where))

    def get(self, v):
        while isinstance(v, Ref):
            v = self.objs[v[0]]
        return v

    def reachable(self):
        seen = set()
        todo = [self.trailer]
        while todo:
            v = todo.pop()
            if isinstance(v, Ref):
                if v[0] not in seen:
                    seen.add(v[0])
                    todo.append(self.objs[v[0]])
            elif isinstance(v, Stream):
                todo.append(v.dict)
            elif isinstance(v, dict):
                todo.extend(v.values())
            elif isinstance(v, list):
                todo.extend(v)
        return seen

    def pages(self):
        cat = self.get(self.trailer["Root"])
        if cat.get("Type") != "Catalog":
            raise MachineError("Root is %r" % (cat,))
        node = self.get(cat["Pages"])
        if node.get("Type") != "Pages":
            raise MachineError("Pages node %r" % (node,))
        out = []
        for k in node["Kids"]:
            pg = self.get(k)
            if pg.get("Type") != "Page":
                raise MachineError("kid %r" % (pg,))
            if self.get(pg.get("Parent")) is not node:
                raise MachineError("Parent of a page is not the page tree")
            out.append(pg)
        if node["Count"] != len(out):
            raise MachineError("Count %r for %d pages" % (node["Count"], len(out)))
        return out

    def marks(self, page):
        c = Content(self, self.get(page["Resources"]))
        return c.run(self.get(page["Contents"]).data())


class Content:
    """PDF content stream machine"""

    def __init__(self, pdf, resources, gs=None):
        self.pdf = pdf
        self.res = resources
        self.gs = gs or State()
        self.gstack = []
        self.path = Path()
        self.marks = []
        self.intext = False
        self.pendingclip = None
        self.used = set()

    def resource(self, kind, name):
        d = self.pdf.get(self.res.get(kind, {}))
        if name not in d:
            raise MachineError("resource %s/%s is not defined for the page" % (kind, name))
        self.used.add((kind, str(name)))
        return self.pdf.get(d[name])

    def run(self, data):
        lx = Lexer(data)
        st = []
        while True:
            t = lx.tok()
            if t is None:
                break
            if isinstance(t, Op) and t in ("<<", "["):
                t = lx.rest(t)
            if isinstance(t, Op) and t not in ("true", "false", "null"):
                f = self.OPS.get(t)
                if f is None:
                    raise MachineError("unknown PDF operator %s" % t)
                n, fn, intext, inpath = f
                if n is not None and len(st) != n:
                    raise MachineError("operator %s with operands %r" % (t, st))
                if self.intext and not intext:
                    raise MachineError("operator %s inside of a text object" % t)
                if self.path.subs and not inpath:
                    raise MachineError("operator %s while a path is under construction" % t)
                if n is not None and n and t not in ("Tj", "TJ", "gs", "Do", "sh", "cs", "CS", "Tf", "d", "ri"):
                    for v in st:
                        if not isinstance(v, (int, float)):
                            raise MachineError("operator %s with operands %r" % (t, st))
                fn(self, *st)
                st = []
            else:
                st.append(t)
        if st:
            raise MachineError("operands without operator: %r" % (st,))
        if self.gstack:
            raise MachineError("%d q without Q" % len(self.gstack))
        if self.intext:
            raise MachineError("BT without ET")
        if self.path.subs:
            raise MachineError("path never painted")
        return self.marks

    def T(self, x, y):
        return g.app(self.gs.ctm, (x, y))

    def paint(self, fill=None, stroke=False, close=False):
        if close:
            self.path.close()
        p = self.path.done()
        if fill:
            self.marks.append(Mark("fill", self.gs, p, eo=(fill == 2)))
        if stroke:
            self.marks.append(Mark("stroke", self.gs, p))
        if self.pendingclip is not None:
            self.gs.clips = self.gs.clips + ((p, self.pendingclip),)
            self.pendingclip = None
        self.path = Path()


def _pdf_ops():
    O = {}

    def op(name, n, text=False, path=False):
        def deco(f):
            O[name] = (n, f, text, path)
            return f
        return deco

    @op("q", 0)
    def _(s): s.gstack.append(s.gs.copy())

    @op("Q", 0)
    def _(s):
        if not s.gstack:
            raise MachineError("Q without q")
        s.gs = s.gstack.pop()

    @op("cm", 6)
    def _(s, *m): s.gs.ctm = g.mul(s.gs.ctm, m)

    @op("m", 2, path=True)
    def _(s, x, y): s.path.moveto(s.T(x, y))

    @op("l", 2, path=True)
    def _(s, x, y): s.path.lineto(s.T(x, y))

    @op("c", 6, path=True)
    def _(s, *v): s.path.curveto(s.T(*v[:2]), s.T(*v[2:4]), s.T(*v[4:]))

    @op("h", 0, path=True)
    def _(s):
        if s.path.cur is None:
            raise MachineError("h without a path")
        s.path.close()

    @op("re", 4, path=True)
    def _(s, x, y, w, h):
        s.path.moveto(s.T(x, y)); s.path.lineto(s.T(x+w, y)); s.path.lineto(s.T(x+w, y+h)); s.path.lineto(s.T(x, y+h)); s.path.close()

    O["S"] = (0, lambda s: s.paint(stroke=True), False, True)
    O["s"] = (0, lambda s: s.paint(stroke=True, close=True), False, True)
    O["f"] = (0, lambda s: s.paint(fill=1), False, True)
    O["f*"] = (0, lambda s: s.paint(fill=2), False, True)
    O["B"] = (0, lambda s: s.paint(fill=1, stroke=True), False, True)
    O["B*"] = (0, lambda s: s.paint(fill=2, stroke=True), False, True)
    O["b"] = (0, lambda s: s.paint(fill=1, stroke=True, close=True), False, True)
    O["n"] = (0, lambda s: s.paint(), False, True)

    @op("W", 0, path=True)
    def _(s): s.pendingclip = False

    @op("W*", 0, path=True)
    def _(s): s.pendingclip = True

    def setter(name, attr, n=1):
        def f(s, *v):
            setattr(s.gs, attr, v[0])
        O[name] = (n, f, True, False)
    setter("w", "width"); setter("J", "cap"); setter("j", "join"); setter("M", "miter")

    @op("d", 2, text=True)
    def _(s, a, o): s.gs.dash = (tuple(a), o)

    def col(name, attr, kind, n):
        def f(s, *v):
            if any(x < 0 or x > 1 for x in v):
                raise MachineError("colour component out of range: %r" % (v,))
            setattr(s.gs, attr, (kind, v))
            setattr(s.gs, attr+"cs", kind)
        O[name] = (n, f, True, False)
    for k, n, a, b in (("gray", 1, "G", "g"), ("rgb", 3, "RG", "rg"), ("cmyk", 4, "K", "k")):
        col(a, "stroke", k, n); col(b, "fill", k, n)

    @op("gs", 1, text=True)
    def _(s, n):
        d = s.resource("ExtGState", n)
        if "CA" in d:
            s.gs.sa = d["CA"]
        if "ca" in d:
            s.gs.fa = d["ca"]

    @op("sh", 1)
    def _(s, n):
        s.marks.append(Mark("shade", s.gs, (), shading=s.resource("Shading", n)))

    @op("Do", 1)
    def _(s, n):
        x = s.resource("XObject", n)
        s.marks.append(Mark(x.dict["Subtype"].lower(), s.gs, (), xobject=x))

    @op("cs", 1, text=True)
    def _(s, n):
        if n not in ("DeviceGray", "DeviceRGB", "DeviceCMYK", "Pattern"):
            s.resource("ColorSpace", n)
        s.gs.fillcs = str(n)

    @op("CS", 1, text=True)
    def _(s, n):
        if n not in ("DeviceGray", "DeviceRGB", "DeviceCMYK", "Pattern"):
            s.resource("ColorSpace", n)
        s.gs.strokecs = str(n)

    @op("scn", None, text=True)
    def _(s, *v):
        if s.gs.fillcs != "Pattern":
            raise MachineError("pattern colour %r in colour space %s" % (v, s.gs.fillcs))
        s.gs.fill = ("pattern", str(v[-1])); s.resource("Pattern", v[-1])

    @op("SCN", None, text=True)
    def _(s, *v):
        if s.gs.strokecs != "Pattern":
            raise MachineError("pattern colour %r in colour space %s" % (v, s.gs.strokecs))
        s.gs.stroke = ("pattern", str(v[-1])); s.resource("Pattern", v[-1])

    @op("BT", 0)
    def _(s):
        s.intext = True; s.tm = s.tlm = g.IDENT

    @op("ET", 0, text=True)
    def _(s):
        if not s.intext:
            raise MachineError("ET without BT")
        s.intext = False

    @op("Tf", 2, text=True)
    def _(s, n, size): s.gs.font = (str(n), size, s.resource("Font", n))

    @op("Tm", 6, text=True)
    def _(s, *m):
        if not s.intext:
            raise MachineError("Tm outside of a text object")
        s.tm = s.tlm = m

    @op("Td", 2, text=True)
    def _(s, x, y):
        if not s.intext:
            raise MachineError("Td outside of a text object")
        s.tm = s.tlm = g.mul(s.tlm, g.translate(x, y))

    def show(s, a):
        if not s.intext:
            raise MachineError("text shown outside of a text object")
        if s.gs.font is None:
            raise MachineError("text shown without font")
        s.marks.append(Mark("text", s.gs, (), text=a, font=s.gs.font, tm=g.mul(s.gs.ctm, s.tm)))
    O["Tj"] = (1, show, True, False)
    O["TJ"] = (1, show, True, False)
    O["Tr"] = (1, lambda s, v: None, True, False)
    O["Tz"] = (1, lambda s, v: None, True, False)
    O["Tc"] = (1, lambda s, v: None, True, False)
    O["Tw"] = (1, lambda s, v: None, True, False)
    O["Ts"] = (1, lambda s, v: None, True, False)
    return O


Content.OPS = _pdf_ops()


def pdffont(pdf, fd):
    """(font, encoding vector, widths) of a font dictionary"""
    get = pdf.get
    desc = get(fd.get("FontDescriptor", {}))
    font = None
    if "FontFile" in desc:
        st = get(desc["FontFile"])
        data = st.data()
        l1, l2, l3 = (get(st.dict["Length%d" % i]) for i in (1, 2, 3))
        if l1+l2+l3 != len(data):
            raise MachineError("lengths of font file %d+%d+%d for %d bytes" % (l1, l2, l3, len(data)))
        font = t1.Font(data[:l1], t1.decrypt(data[l1:l1+l2], 55665, 4))
        if str(fd["BaseFont"]) != font.name or str(desc["FontName"]) != font.name:
            raise MachineError("BaseFont %s, FontName %s for font %s" % (fd["BaseFont"], desc["FontName"], font.name))
    vector = font.getvector() if font is not None else list(t1.standardvector())
    if "Encoding" in fd:
        e = get(fd["Encoding"])
        i = 0
        for x in e["Differences"]:
            if isinstance(x, Lit):
                vector[i] = str(x)
                i += 1
            else:
                i = x
    widths = {}
    if "Widths" in fd:
        fc, lc = get(fd["FirstChar"]), get(fd["LastChar"])
        w = get(fd["Widths"])
        if lc-fc+1 != len(w):
            raise MachineError("%d widths for characters %d to %d" % (len(w), fc, lc))
        widths = {fc+i: x for i, x in enumerate(w)}
    return font, vector, widths


def pdfglyphs(pdf, mark):
    """[(font or name, glyph, matrix)] of a text mark"""
    name, size, fd = mark.font
    font, vector, widths = pdffont(pdf, fd)
    out = []
    x = 0
    for t in (mark.text if isinstance(mark.text, list) else [mark.text]):
        if isinstance(t, (int, float)):
            x -= t/1000*size
            continue
        for c in t:
            m = font.matrix if font is not None else (0.001, 0, 0, 0.001, 0, 0)
            mm = g.mul(g.mul(g.mul(mark.tm, g.translate(x, 0)), g.scale(size)), tuple(m))
            if c not in widths and font is not None:
                raise MachineError("no width for character %d" % c)
            out.append((font if font is not None else str(fd["BaseFont"]), vector[c], mm))
            x += widths.get(c, 0)/1000*size
    return out


def pdfmarks(data):
    p = PDF(data)
    pages = p.pages()
    if len(pages) != 1:
        raise MachineError("%d pages" % len(pages))
    return p.marks(pages[0])


# ---------------------------------------------------------------- SVG
SVGNS = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
NUM = re.compile(r"[\s,]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)")


def svgarc(p0, rx, ry, phi, large, sweep, p1):
    """SVG endpoint arc -> cubics (implementation notes of the SVG standard)"""
    if p0 == p1:
        return []
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0:
        return [(p0, p1)]
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    dx, dy = (p0[0]-p1[0])/2, (p0[1]-p1[1])/2
    x, y = c*dx+s*dy, -s*dx+c*dy
    lam = x*x/rx/rx + y*y/ry/ry
    if lam > 1:
        rx *= math.sqrt(lam); ry *= math.sqrt(lam)
        f = 0
    else:
        f = math.sqrt(max(0, (rx*rx*ry*ry - rx*rx*y*y - ry*ry*x*x)/(rx*rx*y*y + ry*ry*x*x)))
    if large == sweep:
        f = -f
    cx, cy = f*rx*y/ry, -f*ry*x/rx
    a1 = math.degrees(math.atan2((y-cy)/ry, (x-cx)/rx))
    a2 = math.degrees(math.atan2((-y-cy)/ry, (-x-cx)/rx))
    if sweep:
        while a2 <= a1: a2 += 360
        while a2 > a1 + 360: a2 -= 360
    else:
        while a2 >= a1: a2 -= 360
        while a2 < a1 - 360: a2 += 360
    mx, my = c*cx-s*cy+(p0[0]+p1[0])/2, s*cx+c*cy+(p0[1]+p1[1])/2
    m = (rx*c, rx*s, -ry*s, ry*c, mx, my)
    out = [tuple(g.app(m, p) for p in seg) for seg in arcsegs(0, 0, 1, a1, a2)]
    out[0] = (p0,) + out[0][1:]
    out[-1] = out[-1][:3] + (p1,)
    return out


def svgpath(d, m=g.IDENT):
    """path data -> Path (device coordinates by m)"""
    P = Path()
    U = lambda p: g.app(m, p)
    pos = 0
    cur = start = (0.0, 0.0)
    cmd = None
    lastc = lastq = None
    first = True

    def num():
        nonlocal pos
        mm = NUM.match(d, pos)
        if not mm:
            raise MachineError("number expected in path data at %d of %r" % (pos, d))
        pos = mm.end()
        return float(mm.group(1))

    def flag():
        nonlocal pos
        mm = re.compile(r"[\s,]*([01])").match(d, pos)
        if not mm:
            raise MachineError("flag expected in %r" % d)
        pos = mm.end()
        return mm.group(1) == "1"
    while True:
        mm = re.compile(r"[\s,]*([A-Za-z])").match(d, pos)
        if mm:
            cmd = mm.group(1)
            pos = mm.end()
            fresh = True
        else:
            if not d[pos:].strip(" \t\r\n,"):
                break
            if cmd is None or cmd in "zZ":
                raise MachineError("bad path data %r" % d)
            fresh = False
        if first and cmd not in "mM":
            raise MachineError("path data must begin with a moveto: %r" % d)
        first = False
        rel = cmd.islower()
        k = cmd.upper()
        ox, oy = cur if rel else (0.0, 0.0)
        pt = lambda: (num()+ox, num()+oy)
        nc = nq = None
        if k == "M":
            p = pt()
            if fresh:
                P.moveto(U(p)); start = p
            else:
                P.lineto(U(p))
            cur = p
        elif k == "L":
            cur = pt(); P.lineto(U(cur))
        elif k == "H":
            cur = (num()+ox, cur[1]); P.lineto(U(cur))
        elif k == "V":
            cur = (cur[0], num()+oy); P.lineto(U(cur))
        elif k == "C":
            a, b, c = pt(), pt(), pt()
            P.curveto(U(a), U(b), U(c)); cur = c; nc = b
        elif k == "S":
            a = cur if lastc is None else (2*cur[0]-lastc[0], 2*cur[1]-lastc[1])
            b, c = pt(), pt()
            P.curveto(U(a), U(b), U(c)); cur = c; nc = b
        elif k in "QT":
            if k == "Q":
                q = pt()
            else:
                q = cur if lastq is None else (2*cur[0]-lastq[0], 2*cur[1]-lastq[1])
            c = pt()
            a = tuple(x+2/3*(y-x) for x, y in zip(cur, q)); b = tuple(x+2/3*(y-x) for x, y in zip(c, q))
            P.curveto(U(a), U(b), U(c)); cur = c; nq = q
        elif k == "A":
            rx, ry, phi = num(), num(), num()
            la, sw = flag(), flag()
            p = pt()
            for s in svgarc(cur, rx, ry, phi, la, sw, p):
                if len(s) == 2:
                    P.lineto(U(s[1]))
                else:
                    P.curveto(*[U(x) for x in s[1:]])
            cur = p
        elif k == "Z":
            P.close(); cur = start
        else:
            raise MachineError("path command %s" % cmd)
        lastc, lastq = nc, nq
    return P


def svgtransform(s):
    m = g.IDENT
    pos = 0
    for mm in re.finditer(r"\s*,?\s*(matrix|translate|scale|rotate|skewX|skewY)\s*\(([^)]*)\)|(.)", s):
        if mm.group(3):
            if mm.group(3).isspace():
                continue
            raise MachineError("transform %r" % s)
        v = [float(x) for x in re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?", mm.group(2))]
        k = mm.group(1)
        if k == "matrix":
            t = tuple(v)
        elif k == "translate":
            t = g.translate(v[0], v[1] if len(v) > 1 else 0)
        elif k == "scale":
            t = g.scale(v[0], v[1] if len(v) > 1 else v[0])
        elif k == "rotate":
            t = g.rotate(v[0])
            if len(v) == 3:
                t = g.about(t, v[1], v[2])
        elif k == "skewX":
            t = (1, 0, math.tan(math.radians(v[0])), 1, 0, 0)
        else:
            t = (1, math.tan(math.radians(v[0])), 0, 1, 0, 0)
        m = g.mul(m, t)
    return m


def svgcolor(v):
    if v in ("none",):
        return None
    if v == "black":
        return ("rgb", (0.0, 0.0, 0.0))
    m = re.fullmatch(r"url\(#(.*)\)", v)
    if m:
        return ("pattern", m.group(1))
    m = re.fullmatch(r"#([0-9a-f]{6}|[0-9a-f]{3})", v)
    if m:
        h = m.group(1)
        if len(h) == 3:
            h = "".join(c+c for c in h)
        return ("rgb", tuple(int(h[i:i+2], 16)/255 for i in (0, 2, 4)))
    raise MachineError("colour %r" % v)


SVGINH = {"stroke": "none", "fill": "black", "stroke-width": "1", "stroke-linecap": "butt", "stroke-linejoin": "miter",
          "stroke-miterlimit": "4", "stroke-dasharray": "none", "stroke-dashoffset": "0", "fill-rule": "nonzero",
          "fill-opacity": "1", "stroke-opacity": "1"}


class SVG:
    def __init__(self, data):
        self.root = ET.fromstring(data)
        if self.root.tag != SVGNS + "svg":
            raise MachineError("root element %s" % self.root.tag)
        self.ids = {}
        for e in self.root.iter():
            if "id" in e.attrib:
                if e.attrib["id"] in self.ids:
                    raise MachineError("duplicate id %s" % e.attrib["id"])
                self.ids[e.attrib["id"]] = e
        self.marks = []
        self.fonts = {}
        for e in self.root.iter(SVGNS + "font"):
            fam = e.find(SVGNS + "font-face").attrib["font-family"]
            if fam in self.fonts:
                raise MachineError("font %s embedded twice" % fam)
            self.fonts[fam] = {}
            for gl in e.iter(SVGNS + "glyph"):
                u = gl.attrib["unicode"]
                if self.fonts[fam].get(u, (float(gl.attrib["horiz-adv-x"]), gl.attrib["d"])) != (float(gl.attrib["horiz-adv-x"]), gl.attrib["d"]):
                    raise MachineError("glyph for %r defined twice" % u)
                self.fonts[fam][u] = (float(gl.attrib["horiz-adv-x"]), gl.attrib["d"])
        self.viewbox = None
        if "viewBox" in self.root.attrib:
            self.viewbox = tuple(float(x) for x in self.root.attrib["viewBox"].split())
        flip = (1, 0, 0, -1, 0, 0)
        self.node(self.root, flip, dict(SVGINH), 1.0, ())

    def node(self, e, m, inh, opacity, clips):
        a = e.attrib
        inh = dict(inh)
        for k in SVGINH:
            if k in a:
                inh[k] = a[k]
        if "opacity" in a:
            opacity = opacity*float(a["opacity"])
        if "transform" in a:
            m = g.mul(m, svgtransform(a["transform"]))
        if "clip-path" in a:
            mm = re.fullmatch(r"url\(#(.*)\)", a["clip-path"])
            c = self.ids.get(mm.group(1))
            if c is None or c.tag != SVGNS + "clipPath":
                raise MachineError("clip path %s is not defined" % a["clip-path"])
            subs = []
            eo = False
            for pe in c:
                subs += svgpath(pe.attrib["d"], m).done()
                eo = eo or pe.attrib.get("clip-rule") == "evenodd"
            clips = clips + ((subs, eo),)
        tag = e.tag.replace(SVGNS, "")
        if tag in ("svg", "g"):
            for k in e:
                self.node(k, m, inh, opacity, clips)
        elif tag == "defs":
            pass
        elif tag == "path":
            p = svgpath(a.get("d", ""), m).done()
            st = State()
            st.ctm = m
            st.clips = clips
            f, s = svgcolor(inh["fill"]), svgcolor(inh["stroke"])
            if f is not None:
                st.fill = f
                st.fa = opacity*float(inh["fill-opacity"])
                self.marks.append(Mark("fill", st, p, eo=inh["fill-rule"] == "evenodd"))
            if s is not None:
                st.stroke = s
                st.sa = opacity*float(inh["stroke-opacity"])
                st.width = float(inh["stroke-width"])
                st.cap = {"butt": 0, "round": 1, "square": 2}[inh["stroke-linecap"]]
                st.join = {"miter": 0, "round": 1, "bevel": 2}[inh["stroke-linejoin"]]
                st.miter = float(inh["stroke-miterlimit"])
                da = inh["stroke-dasharray"]
                st.dash = ((), 0.0) if da == "none" else (tuple(float(x) for x in re.split(r"[\s,]+", da.strip())), float(inh["stroke-dashoffset"]))
                # the opacity of a path both filled and stroked applies to the
                # combination, which is what the B operator of PDF does as well
                self.marks.append(Mark("stroke", st, p))
        elif tag == "image":
            st = State()
            st.ctm = m
            st.clips = clips
            st.fa = opacity
            self.marks.append(Mark("image", st, (), href=a.get(XLINK + "href", a.get("href")), attrib=dict(a)))
        elif tag == "text":
            st = State()
            st.ctm = m; st.clips = clips
            st.fa = opacity
            f = svgcolor(inh["fill"])
            if f is not None:
                st.fill = f
            self.marks.append(Mark("text", st, (), element=e, attrib=dict(a), chars=self.text(e, m)))
        elif tag == "font":
            pass
        else:
            raise MachineError("element %s" % tag)


    def text(self, e, m):
        """[(family, character, size, x, y, path or None)], with the path in device coordinates"""
        a = e.attrib
        size, fam = float(a["font-size"]), a["font-family"]
        x, y = float(a.get("x", 0)), float(a.get("y", 0))
        font = self.fonts.get(fam)
        out = []

        def chars(t):
            nonlocal x
            for c in t or "":
                adv, path = 0, None
                if font is not None:
                    if c not in font:
                        raise MachineError("font %s has no glyph for %r" % (fam, c))
                    adv, d = font[c]
                    path = svgpath(d, g.mul(m, (size/1000, 0, 0, -size/1000, x, y))).done()
                out.append((fam, c, size, x, y, path))
                x += adv*size/1000
        chars(e.text)
        for k in e:
            if k.tag != SVGNS + "tspan":
                raise MachineError("element %s in text" % k.tag)
            x += float(k.attrib.get("dx", 0))
            y += float(k.attrib.get("dy", 0))
            chars(k.text)
            chars(k.tail)
        return out


def svgmarks(data):
    return SVG(data).marks


# ---------------------------------------------------------------- comparison
_BERN = {}


def _bern(n):
    if n not in _BERN:
        _BERN[n] = [((1-t)**3, 3*t*(1-t)**2, 3*t*t*(1-t), t**3) for t in (i/n for i in range(1, n+1))]
    return _BERN[n]


def polyline(segs, n=12):
    pts = [segs[0][0]]
    for s in segs:
        if len(s) == 2:
            pts.append(s[1])
        else:
            (x0, y0), (x1, y1), (x2, y2), (x3, y3) = s
            poly = math.hypot(x1-x0, y1-y0) + math.hypot(x2-x1, y2-y1) + math.hypot(x3-x2, y3-y2)
            k = n if poly < 1.3*math.hypot(x3-x0, y3-y0) else 5*n
            pts.extend([(a*x0+b*x1+c*x2+d*x3, a*y0+b*y1+c*y2+d*y3) for a, b, c, d in _bern(k)])
    return pts


_TRACES = {}


def cachedtrace(segs):
    """the trace of a list of segments which stays as it is (the reference side)"""
    k = id(segs)
    e = _TRACES.get(k)
    if e is None or e[0] is not segs or e[2] != len(segs):
        if len(_TRACES) > 16:
            _TRACES.clear()
        e = _TRACES[k] = (segs, trace(segs), len(segs))
    return e[1]


def trace(segs, k=24):
    """points at equal arc length fractions, and the length"""
    pts = polyline(segs)
    cum = [0.0]
    for p, q in zip(pts, pts[1:]):
        cum.append(cum[-1] + math.dist(p, q))
    L = cum[-1]
    out = []
    j = 0
    for i in range(k+1):
        t = L*i/k
        while j < len(cum)-2 and cum[j+1] < t:
            j += 1
        d = cum[j+1]-cum[j] if len(cum) > 1 else 0
        f = (t-cum[j])/d if d > 0 else 0
        p, q = pts[j], pts[min(j+1, len(pts)-1)]
        out.append((p[0]+f*(q[0]-p[0]), p[1]+f*(q[1]-p[1])))
    return L, out


def samepath(a, b, tol=2e-3):
    """None if the two lists of subpaths trace the same curves, else a message"""
    def size(l):
        return max([math.dist(l[0][0], p) for s in l for p in s])
    a = [x for x in a if size(x[1]) > 1e-4]
    b = [x for x in b if size(x[1]) > 1e-4]
    if len(a) != len(b):
        return "%d subpaths instead of %d" % (len(a), len(b))
    for i, ((ca, sa), (cb, sb)) in enumerate(zip(a, b)):
        if bool(ca) != bool(cb):
            return "subpath %d is %s" % (i, "closed" if ca else "open")
        La, ta = trace(sa)
        Lb, tb = cachedtrace(sb)
        sc = max(1.0, max(abs(v) for p in tb for v in p))
        if abs(La-Lb) > tol*max(sc, Lb):
            return "subpath %d has length %g instead of %g" % (i, La, Lb)
        for j, (p, q) in enumerate(zip(ta, tb)):
            if abs(p[0]-q[0]) > tol*sc or abs(p[1]-q[1]) > tol*sc:
                return "subpath %d passes (%g, %g) instead of (%g, %g) at %d/24 of its length" % (i, p[0], p[1], q[0], q[1], j)
    return None


def samemark(a, b, ceps=1e-5, exactspace=True):
    if a.op != b.op:
        return "%s instead of %s" % (a.op, b.op)
    r = samepath(a.path, b.path)
    if r:
        return r
    if len(a.clips) != len(b.clips):
        return "%d clips instead of %d" % (len(a.clips), len(b.clips))
    for (p, e), (q, f) in zip(a.clips, b.clips):
        r = samepath(p, q)
        if r:
            return "clip path: " + r
        if e != f:
            return "clip rule differs"
    if a.op == "fill" and a.eo != b.eo:
        return "fill rule %s instead of %s" % (a.eo, b.eo)
    if exactspace and a.color[0] != b.color[0]:
        return "colour %r instead of %r" % (a.color, b.color)
    ca, cb = torgb(a.color), torgb(b.color)
    if any(abs(x-y) > ceps for x, y in zip(ca, cb)):
        return "colour %r instead of %r" % (a.color, b.color)
    if abs(a.alpha-b.alpha) > 1e-4:
        return "opacity %r instead of %r" % (a.alpha, b.alpha)
    if a.op == "stroke":
        if any(abs(x-y) > 1e-4*max(1, abs(y)) for x, y in zip(a.ctm[:4], b.ctm[:4])) and \
           any(abs(x-y) > 1e-4*max(1, abs(y)) for x, y in zip(gram(a.ctm), gram(b.ctm))):
            return "line width matrix %r instead of %r" % (a.ctm, b.ctm)
        for n in ("width", "cap", "join", "miter"):
            if abs(getattr(a, n)-getattr(b, n)) > 1e-5*max(1, abs(getattr(b, n))):
                return "%s %r instead of %r" % (n, getattr(a, n), getattr(b, n))
        if len(a.dash[0]) != len(b.dash[0]) or any(abs(x-y) > 1e-5*max(1, abs(y)) for x, y in zip(a.dash[0], b.dash[0])) or \
           a.dash[0] and abs(a.dash[1]-b.dash[1]) > 1e-5:
            return "dash %r instead of %r" % (a.dash, b.dash)
    return None


def gram(m):
    """what a circular pen becomes under the matrix"""
    a, b, c, d = m[:4]
    return (a*a+c*c, a*b+c*d, b*b+d*d)


def samemarks(a, b, **kw):
    if len(a) != len(b):
        return "%d marks instead of %d (%s instead of %s)" % (len(a), len(b), [m.op for m in a], [m.op for m in b])
    for i, (x, y) in enumerate(zip(a, b)):
        r = samemark(x, y, **kw)
        if r:
            return "mark %d: %s" % (i, r)
    return None
