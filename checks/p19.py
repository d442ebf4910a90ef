"""P19: DVI programs, virtual fonts and font metrics mean what TeX says."""
import io, itertools, logging, math, os, struct, tempfile
from mc import core, machines
from mc.core import Space, require, close
from pyx import baseclasses, bbox as bboxmodule, canvas, color, config, unit
from pyx.dvi import dvifile, tfmfile

logging.getLogger("pyx").setLevel(logging.CRITICAL)

PROPERTY = "P19"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of all DVI programs over an opcode alphabet up to a depth on an independent DVI machine, every model trace encoded to bytes and replayed on the implementation, page marks compared after rendering"
LEVEL_NOTE = "All opcode sequences up to the stated depth, nesting of virtual fonts up to two levels, all operand sizes with boundary values, all truncations of sample files; font metrics are synthetic."
RULE = "A case is one DVI, VF or TFM byte string; non-trivial if it sets a glyph or rule; outcomes are the marks on the page."
ASSUMPTIONS = ["Type 1 outlines are replaced by polygons encoding font, glyph, size and position."]

FW = 1 << 20


# ------------------------------------------------------------ building TFM, VF and DVI bytes
def tfm(chars, designsize, checksum=0, lh=2, extra=b"", bc=None, nolig=True):
    """chars maps code -> (width, height, depth, italic) as fix_words"""
    if bc is None:
        bc = min(chars) if chars else 1
    ec = max(chars) if chars else 0
    tables = []
    for i in range(4):
        t = [0]
        for c in sorted(chars):
            v = chars[c][i]
            if v not in t or (i == 0 and t.index(v) == 0):
                t.append(v)
        tables.append(t)
    info = b""
    for c in range(bc, ec+1):
        if c in chars:
            w, h, d, it = chars[c]
            wi = tables[0].index(w, 1)
            info += bytes([wi, tables[1].index(h) << 4 | tables[2].index(d), tables[3].index(it) << 2, 0])
        else:
            info += bytes(4)
    header = struct.pack(">ll", checksum, designsize)
    if lh > 2:
        header += bytes([8]) + b"ENCODING" + bytes(31)
    if lh > 12:
        header += bytes([6]) + b"FAMILY" + bytes(13)
    if lh > 17:
        header += bytes([128, 0, 0, 5])
    if lh > 18:
        header += b"\xff\x01ab"*(lh-18)
    assert len(header) == 4*lh, (len(header), lh)
    lig, kern, ext, par = (0, 0, 0, 0) if nolig else (2, 3, 1, 7)
    body = header + info + b"".join(struct.pack(">l", v) for t in tables for v in t)
    body += b"\x80\x01\x02\x03"*lig + struct.pack(">l", -5)*kern + b"\1\2\3\4"*ext + struct.pack(">l", 77777)*par
    lf = 6 + len(body)//4
    return struct.pack(">12h", lf, lh, bc, ec, *[len(t) for t in tables], lig, kern, ext, par) + body


def ub(v, n):
    return v.to_bytes(n, "big", signed=False)


def sb(v, n):
    return v.to_bytes(n, "big", signed=True)


def fntdef(op, n, num, checksum, s, d, name, area=""):
    k = sb(num, n) if n == 4 else ub(num, n)
    return bytes([op+n-1]) + k + struct.pack(">lll", checksum, s, d) + bytes([len(area), len(name)]) + (area+name).encode()


def encode(ops):
    """op tuples to bytes"""
    out = b""
    for op in ops:
        k = op[0]
        if k == "char":
            out += bytes([op[1]])
        elif k in ("set", "put"):
            out += bytes([{"set": 128, "put": 133}[k]+op[1]-1]) + ub(op[2], op[1])
        elif k in ("setrule", "putrule"):
            out += bytes([{"setrule": 132, "putrule": 137}[k]]) + sb(op[1], 4) + sb(op[2], 4)
        elif k == "nop":
            out += b"\x8a"
        elif k in ("push", "pop"):
            out += {"push": b"\x8d", "pop": b"\x8e"}[k]
        elif k in ("right", "w", "x", "down", "y", "z"):
            base = {"right": 143, "w": 148, "x": 153, "down": 157, "y": 162, "z": 167}[k]
            out += bytes([base+op[1]-1]) + sb(op[2], op[1])
        elif k in ("w0", "x0", "y0", "z0"):
            out += bytes([{"w0": 147, "x0": 152, "y0": 161, "z0": 166}[k]])
        elif k == "fntnum":
            out += bytes([171+op[1]])
        elif k == "fnt":
            out += bytes([235+op[1]-1]) + (sb(op[2], 4) if op[1] == 4 else ub(op[2], op[1]))
        elif k == "special":
            out += bytes([239+op[1]-1]) + ub(len(op[2]), op[1]) + op[2].encode()
        elif k == "fntdef":
            out += fntdef(243, *op[1:])
        else:
            raise AssertionError(op)
    return out


def vf(fonts, chars, designsize, long=False):
    """fonts: [(num, name, s, d)], chars: code -> (tfmwidth, ops)"""
    out = bytes([247, 202, 3]) + b"abc" + struct.pack(">ll", 0, designsize)
    for num, name, s, d in fonts:
        n = 1 if 0 <= num < 256 else 2 if 0 <= num < 65536 else 3 if 0 <= num < 1 << 24 else 4
        out += fntdef(243, n, num, 0, s, d, name)
    for c, (w, ops) in sorted(chars.items()):
        dvi = encode(ops)
        if long or len(dvi) > 241:
            out += b"\xf2" + ub(len(dvi), 4) + ub(c, 4) + ub(w % (1 << 24), 3) + dvi
        else:
            out += bytes([len(dvi), c]) + ub(w % (1 << 24), 3) + dvi
    return out + b"\xf8"*(4 - len(out) % 4)


NUM, DEN = 25400000, 473628672


def dvi(pages, fontdefs, num=NUM, den=DEN, mag=1000, between=b"", counts=None):
    out = bytes([247, 2]) + struct.pack(">LLL", num, den, mag) + bytes([4]) + b" TeX"
    last = -1
    for i, p in enumerate(pages):
        out += between
        here = len(out)
        out += b"\x8b" + struct.pack(">10l", *((counts[i] if counts else [i+1]+[0]*9))) + struct.pack(">l", last)
        last = here
        body = p if isinstance(p, bytes) else encode(p)
        out += (fontdefs if i == 0 else b"") + body + b"\x8c"
    post = len(out)
    out += between + b"\xf8" + struct.pack(">lLLL", last, num, den, mag) + struct.pack(">llHH", 0, 0, 9, len(pages)) + fontdefs
    out += b"\xf9" + struct.pack(">l", post) + b"\2" + b"\xdf"*4
    return out


# ------------------------------------------------------------ the independent machine
def texscale(value, z):
    """Knuth's fix_word times scaled, byte by byte (TeX: The Program, section 571)"""
    alpha = 16
    while z >= 0o40000000:
        z //= 2
        alpha += alpha
    beta = 256//alpha
    alpha *= z
    a, b, c, d = struct.pack(">l", value)
    sw = ((((d*z)//256) + (c*z))//256 + (b*z))//beta
    if a == 255:
        sw -= alpha
    else:
        assert a == 0
    return sw


class Font:
    def __init__(self, idx, name, design, chars, fonts=None, prog=None):
        self.idx, self.name, self.design, self.chars, self.fonts, self.prog = idx, name, design, chars, fonts, prog


class Ref:
    def __init__(self, fonts, num=NUM, den=DEN, mag=1000):
        self.fonts = fonts              # name -> Font
        self.unit = num/254000*mag/1000*72/den        # dvi units to points
        self.marks = []
        self.boxes = []
        self.markers = {}
        self.colors = [("gray", (0,))]
        self.trafos = [(1, 0, 0, 1, 0, 0)]
        self.open = []

    def pt(self, x, y):
        a, b, c, d, e, f = self.trafos[-1]
        return (a*x+c*y+e, b*x+d*y+f)

    def run(self, ops, fnts, cur=None, scale=1, h=0, v=0, level=0):
        w = x = y = z = 0
        stack = []
        fnts = dict(fnts)
        u = self.unit
        for op in ops:
            k = op[0]
            if k in ("char", "set", "put"):
                c = op[1] if k == "char" else op[2]
                font, q = fnts[cur]
                adv = texscale(font.chars[c][0], round(q))
                if font.prog is None:
                    self.glyph(font, c, h*u, -v*u, q*u)
                else:
                    sub = dict((n, (self.fonts[name], q*s/FW)) for n, name, s, d in font.fonts)
                    self.run(font.prog[c], sub, font.fonts[0][0] if font.fonts else None, q/FW, h, v, level+1)
                if k != "put":
                    h += adv
            elif k in ("setrule", "putrule"):
                a, b = op[1]*scale, op[2]*scale
                if a > 0 and b > 0:
                    self.rule(h*u, -v*u, b*u, a*u)
                if k == "setrule":
                    h += b
            elif k == "push":
                stack.append((h, v, w, x, y, z))
            elif k == "pop":
                h, v, w, x, y, z = stack.pop()
            elif k == "right":
                h += op[2]*scale
            elif k == "w":
                w = op[2]*scale; h += w
            elif k == "x":
                x = op[2]*scale; h += x
            elif k == "w0":
                h += w
            elif k == "x0":
                h += x
            elif k == "down":
                v += op[2]*scale
            elif k == "y":
                y = op[2]*scale; v += y
            elif k == "z":
                z = op[2]*scale; v += z
            elif k == "y0":
                v += y
            elif k == "z0":
                v += z
            elif k == "fntnum":
                cur = op[1]
            elif k == "fnt":
                cur = op[2]
            elif k == "fntdef":
                fnts[op[2]] = (self.fonts[op[6]], op[4])
            elif k == "special":
                self.special(op[2], h*u, -v*u)
            core.TRACE.step((level, round(h), round(v), round(w), round(x), round(y), round(z), len(stack), cur, tuple(self.open)))
        return stack

    def box(self, x0, y0, x1, y1):
        self.boxes.append([self.pt(*p) for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))])

    def glyph(self, font, c, x, y, size):
        self.marks.append((self.colors[-1], [self.pt(*p) for p in polygon(font.idx, c, x, y, size)]))
        w, h, d, i = [t/FW*size for t in font.chars[c]]
        self.box(x, y-d, x+w, y+h)

    def rule(self, x, y, w, h):
        self.marks.append((self.colors[-1], [self.pt(*p) for p in ((x, y), (x+w, y), (x+w, y+h), (x, y+h))]))
        self.box(x, y, x+w, y+h)

    def special(self, s, x, y):
        if not s.startswith("PyX:"):
            return
        cmd, *args = s[4:].split()
        if cmd == "color_begin":
            self.colors.append((args[0], tuple(float(a) for a in args[1:])))
            self.open.append("c")
        elif cmd == "color_end":
            self.colors.pop()
            self.open.pop()
        elif cmd in ("rotate_begin", "scale_begin"):
            if cmd == "rotate_begin":
                t = math.radians(float(args[0]))
                m = (math.cos(t), math.sin(t), -math.sin(t), math.cos(t))
            else:
                m = (float(args[0]), 0, 0, float(args[1]))
            a, b, c, d = m
            e, f = x-a*x-c*y, y-b*x-d*y
            A, B, C, D, E, F = self.trafos[-1]
            self.trafos.append((A*a+C*b, B*a+D*b, A*c+C*d, B*c+D*d, A*e+C*f+E, B*e+D*f+F))
            self.open.append("t")
        elif cmd in ("rotate_end", "scale_end"):
            self.trafos.pop()
            self.open.pop()
        elif cmd == "marker":
            self.markers[args[0]] = self.pt(x, y)


def polygon(fidx, c, x, y, size):
    return [(x, y), (x+size*(2+0.25*fidx), y), (x, y+size*(1+c/64)), (x-size, y-size)]


# ------------------------------------------------------------ stand-ins for font files and outlines
class glyphs(baseclasses.canvasitem):
    def __init__(self, font, x, y, codes, size):
        self.args = font, x, y, codes, size

    def bbox(self):
        return bboxmodule.empty()

    def processPS(self, file, writer, context, registry, bbox):
        font, x, y, codes, size = self.args
        for c in codes:
            pts = polygon(font.idx, c, x, y, size)
            file.write("newpath %.9g %.9g moveto\n" % pts[0])
            for p in pts[1:]:
                file.write("%.9g %.9g lineto\n" % p)
            file.write("closepath fill\n")
            x += font.chars[c][0]/FW*size


class mapline:
    slant = None

    def __init__(self, font):
        self.font = font

    def getfont(self):
        return self

    def getencoding(self):
        return None

    def text_pt(self, x_pt, y_pt, charcodes, size_pt, **kwargs):
        return glyphs(self.font, x_pt, y_pt, charcodes, size_pt)


class fontmap:
    def __init__(self, fonts):
        self.fonts = fonts

    def __contains__(self, name):
        return name in self.fonts

    def __getitem__(self, name):
        return mapline(self.fonts[name])


def install(files):
    """config.open delivering the given files only"""
    def open(filename, formats, ascii=False):
        for f in formats:
            for e in list(f.extensions) or [""]:
                if filename+e in files:
                    return io.BytesIO(files[filename+e])
        raise OSError("no file %r" % filename)
    config.open = open


def metrics(k):
    """distinct metrics per font and glyph"""
    r = {}
    for j, c in enumerate((0, 1, 2, 5, 127, 128, 200, 255)):
        r[c] = (FW*(7+3*k+j)//16 + j*j*1009 + 13*k, FW*(5+j)//16+77*j, FW*(2+k)//16+j*501, FW*j//32)
    return r


FA = Font(0, "fa", 10*FW, metrics(0))
FB = Font(1, "fb", 7*FW, metrics(1))
STDPROG = {
    0: [("char", 1)],
    1: [("right", 3, FW//8), ("char", 2), ("setrule", FW//4, FW//3), ("char", 1)],
    2: [("push",), ("fntnum", 3), ("char", 5), ("pop",), ("down", 3, -FW//7), ("w", 3, FW//6), ("w0",), ("char", 0)],
    5: [("putrule", FW//5, FW//9), ("y", 3, FW//10), ("y0",), ("fntnum", 7), ("set", 1, 200)],
    127: [],
    128: [("z", 3, FW//3), ("z0",), ("x", 3, FW//11), ("x0",), ("put", 1, 2), ("char", 0)],
    200: [("w0",), ("x0",), ("y0",), ("z0",), ("char", 127)],
    255: [("special", 1, "PyX:marker vf"), ("char", 5)],
}
VA = Font(2, "va", 12*FW, metrics(2), fonts=[(7, "fa", int(0.75*FW), 10*FW), (3, "fb", int(1.25*FW), 7*FW)], prog=STDPROG)
VB = Font(3, "vb", 9*FW, metrics(3), fonts=[(300, "va", int(0.8*FW), 12*FW), (0, "fa", int(0.5*FW), 10*FW)],
          prog=dict((c, [("push",), ("set", 1, c), ("pop",), ("down", 3, FW//2), ("fnt", 1, 0), ("set", 1, c)]) for c in STDPROG if c != 255) | {255: [("char", 0)]})
FONTS = {f.name: f for f in (FA, FB, VA, VB)}


def fontfiles(fonts, lh=2):
    files = {}
    for f in fonts.values():
        files[f.name+".tfm"] = tfm(f.chars, f.design, lh=lh)
        if f.prog is not None:
            files[f.name+".vf"] = vf(f.fonts, {c: (f.chars[c][0], p) for c, p in f.prog.items()}, f.design)
    return files


PT = 65536
# DVI fonts: number -> (name, size in sp)
DVIFONTS = {0: ("fa", 10*PT), 1: ("fb", 14*PT+12345), 2: ("va", 6*PT), 3: ("vb", 20*PT)}


def defs(dvifonts=DVIFONTS, fonts=None, conv=1/16):
    fonts = fonts or FONTS
    out = b""
    for n, (name, q) in dvifonts.items():
        out += fntdef(243, 1 if 0 <= n < 256 else 4, n, 0, q, round(fonts[name].design*conv), name)
    return out


def opendvi(data):
    fd, fn = tempfile.mkstemp(prefix="mc-p19-", suffix=".dvi", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        os.write(fd, data)
        os.close(fd)
        return dvifile.DVIfile(fn)
    finally:
        os.unlink(fn)


def render(page):
    """marks of a page canvas"""
    c = canvas.canvas()
    c.insert(page)
    f = io.BytesIO()
    c.writeEPSfile(f)
    r = []
    for m in machines.psmarks(f.getvalue()):
        require(m.op == "fill", "unexpected %s on the page", m.op)
        require(len(m.path) == 1 and m.path[0][0], "unexpected path on the page: %r", m.path)
        r.append((m.color, [s[0] for s in m.path[0][1]]))
    return r


def samecolor(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(abs(x-y) < 1e-5 for x, y in zip(a[1], b[1]))


def samepoints(a, b):
    return len(a) == len(b) and all(abs(p[0]-q[0]) < 2e-3+2e-5*abs(q[0]) and abs(p[1]-q[1]) < 2e-3+2e-5*abs(q[1]) for p, q in zip(a, b))


def comparepage(page, ref, what=""):
    empty = not ref.marks
    got = render(page) if not empty or list(page.items) else []
    require(len(got) == len(ref.marks), "%s%d marks on the page instead of %d", what, len(got), len(ref.marks))
    for g, e in zip(got, ref.marks):
        require(samecolor(g[0], e[0]), "%scolour %r instead of %r", what, g[0], e[0])
        require(samepoints(g[1], e[1]), "%smark at %r instead of %r", what, g[1], e[1])
    require(set(page.markers) == set(ref.markers), "%smarkers %r instead of %r", what, sorted(page.markers), sorted(ref.markers))
    for k, p in ref.markers.items():
        q = [unit.topt(t) for t in page.markers[k]]
        require(samepoints([q], [p]), "%smarker %s at %r instead of %r", what, k, q, p)
    b = page.bbox()
    if ref.boxes:
        pts = list(itertools.chain(*ref.boxes))
        lo = [min(p[i] for p in pts) for i in (0, 1)]
        hi = [max(p[i] for p in pts) for i in (0, 1)]
        g = (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
        t = 2e-3
        require(g[0] <= lo[0]+t and g[1] <= lo[1]+t and g[2] >= hi[0]-t and g[3] >= hi[1]-t, "%sbox %r does not enclose %r", what, g, lo+hi)
        if not ref.rotated:
            require(g[0] >= lo[0]-t and g[1] >= lo[1]-t and g[2] <= hi[0]+t and g[3] <= hi[1]+t, "%sbox %r larger than %r", what, g, lo+hi)


def reference(ops, dvifonts=DVIFONTS, fonts=None, **kw):
    ref = Ref(fonts or FONTS, **kw)
    left = ref.run(ops, {n: ((fonts or FONTS)[name], q) for n, (name, q) in dvifonts.items()})
    ref.rotated = any(op[0] == "special" and "rotate" in op[2] for op in ops)
    return ref


def signature(ref):
    return [(c, [(round(x, 2), round(y, 2)) for x, y in p]) for c, p in ref.marks]


# ------------------------------------------------------------ spaces
def setup():
    install(fontfiles(FONTS))


S = lambda s: ("special", 1, "PyX:"+s)
ALPHA = [
    ("char", 1), ("char", 5), ("set", 1, 200), ("put", 1, 2),
    ("setrule", 3*PT, 5*PT+777), ("putrule", 7*PT, 2*PT), ("setrule", 0, 4*PT),
    ("right", 3, -3*PT-11), ("w", 3, 7*PT+5), ("w0",), ("x", 4, -2*PT-3), ("x0",),
    ("down", 4, 9*PT+7), ("y", 3, -4*PT-9), ("y0",), ("z", 3, 6*PT+2), ("z0",),
    ("push",), ("pop",), ("nop",),
    ("fntnum", 0), ("fntnum", 1), ("fntnum", 2), ("fnt", 1, 3),
    S("color_begin rgb 0.25 0.5 0.75"), S("color_begin gray 0.75"), S("color_end"),
    S("rotate_begin 30"), S("rotate_end"), S("scale_begin 2 -0.5"), S("scale_end"), S("marker M1"),
]


def valid(seq):
    depth = 0
    opened = []
    marks = 0
    for op in seq:
        if op[0] == "push":
            depth += 1
        elif op[0] == "pop":
            depth -= 1
            if depth < 0:
                return False
        elif op[0] == "special":
            cmd = op[2][4:].split()[0]
            if cmd.endswith("_begin"):
                opened.append(cmd[:-6])
            elif cmd.endswith("_end"):
                if not opened or opened.pop() != cmd[:-4]:
                    return False
            elif cmd == "marker":
                marks += 1
                if marks > 1:
                    return False
    return True


def closing(seq):
    """ops balancing the open groups"""
    opened = []
    depth = 0
    for op in seq:
        if op[0] == "special":
            cmd = op[2][4:].split()[0]
            if cmd.endswith("_begin"):
                opened.append(cmd[:-6])
            elif cmd.endswith("_end"):
                opened.pop()
        elif op[0] == "push":
            depth += 1
        elif op[0] == "pop":
            depth -= 1
    return [S(o+"_end") for o in reversed(opened)] + [("pop",)]*depth


def gen_programs(alpha, depth, pre, post):
    def gen():
        for seq in itertools.product(range(len(alpha)), repeat=depth):
            if valid([alpha[i] for i in seq]):
                yield seq
    return gen


def run_programs(alpha, pre, post, single=False):
    def run(case):
        seq = [alpha[i] for i in case]
        ops = pre + seq + post
        ops += closing(ops)
        ref = reference(ops)
        d = opendvi(dvi([ops], defs()))
        for scm in ((False, True) if single else (False,)):
            if scm:
                d = opendvi(dvi([ops], defs()))
            page = d.readpage(fontmap=fontmap(FONTS), singlecharmode=scm)
            comparepage(page, ref, "single characters: " if scm else "")
            require(d.readpage() is None, "page after the last one")
        return signature(ref)
    return run


MOVES = [("w", 1, 100), ("w0",), ("x", 2, -30000), ("x0",), ("y", 3, 300000), ("y0",), ("z", 4, -200000), ("z0",), ("push",), ("pop",), ("char", 1)]
GROUPS = [S("color_begin rgb 0.25 0.5 0.75"), S("color_end"), S("rotate_begin 30"), S("rotate_end"), S("scale_begin 2 -0.5"), S("scale_end"),
          ("push",), ("pop",), ("right", 3, 5*PT), ("char", 2), S("marker M1")]
TEXTS = [("char", 1), ("char", 2), ("put", 1, 5), ("setrule", 3*PT, 5*PT), ("fntnum", 0), ("fntnum", 1), ("fntnum", 2), ("fntnum", 3), ("push",), ("pop",), ("right", 3, 40000)]


def gen_operands():
    for n in (1, 2, 3, 4):
        top = 1 << (8*n-1)
        # keep the positions within the precision of the output
        vals = sorted({0, 1, -1, top-1, -top, top//2+1, -top//2-1} if n < 4 else {0, 1, -1, 70000, -70000, (1 << 24)+5, -(1 << 24)-5, (1 << 23), -(1 << 23)})
        for k in ("right", "w", "x", "down", "y", "z"):
            for v in vals:
                yield ("move", k, n, v)
        for k in ("set", "put"):
            for c in (0, 1, 127, 128, 200, 255):
                yield ("char", k, n, c)
        for num in {1: (0, 63, 64, 127, 128, 255), 2: (0, 64, 255, 256, 32767, 32768, 65535), 3: (5, 65536, (1 << 23)-1, 1 << 23, (1 << 24)-1),
                    4: (0, 1 << 24, -1, -128, (1 << 31)-1, -(1 << 31))}[n]:
            for fn in (1, 2, 3, 4):
                yield ("font", n, num, fn)
        for l in {1: (13, 255), 2: (13, 300), 3: (13, 66000), 4: (13, 300)}[n]:
            yield ("special", n, l)
    for v in (-(1 << 24), -70000, -1, 0, 1, 70000, 1 << 24):
        for u in (-(1 << 24), -70000, -1, 0, 1, 70000, 1 << 24):
            yield ("rule", v, u)
    for c in (0, 1, 2, 5, 127):
        yield ("char", "char", 0, c)
    for n in range(64):
        yield ("fontnum", n)
    for i in range(12):
        yield ("epsdef", i)


def run_operands(case):
    kind = case[0]
    fonts = dict(DVIFONTS)
    pre = [("fntnum", 0), ("char", 1)]
    extra = b""
    if kind == "move":
        _, k, n, v = case
        ops = pre + [(k, n, v), ("char", 2)] + ([(k+"0",), ("char", 5)] if k not in ("right", "down") else [])
    elif kind == "char":
        _, k, n, c = case
        ops = pre + [(k, n, c) if n else (k, c), ("char", 2)]
    elif kind == "rule":
        ops = pre + [("setrule", case[1], case[2]), ("char", 2), ("putrule", case[1], case[2]), ("char", 1)]
    elif kind == "fontnum":
        n = case[1]
        fonts = {n: ("fb", 11*PT), (n+1) % 64: ("fa", 10*PT)}
        ops = [("fntnum", n), ("char", 1), ("fntnum", (n+1) % 64), ("char", 2), ("fnt", 1, n), ("char", 5)]
    elif kind == "font":
        _, n, num, fn = case
        def fits(k):
            return -(1 << 31) <= num < 1 << 31 if k == 4 else 0 <= num < 1 << 8*k
        if not fits(n) or not fits(fn):
            return None
        ops = [("fntdef", fn, num, 0, 11*PT, 7*PT, "fb"), ("fnt", n, num), ("char", 1), ("fntnum", 0), ("char", 2), ("fnt", n, num), ("char", 5)]
    elif kind == "special":
        _, n, l = case
        s = "other "+"x"*(l-6)
        ops = pre + [("special", n, s), ("char", 2), ("special", n, "PyX:color_begin gray 0.5"), ("char", 1), ("special", n, "PyX:color_end")]
    elif kind == "epsdef":
        # font definitions within the page, also with an area and redefining a number
        i = case[1]
        ops = [("fntdef", 1+i % 4, 9, 0, (5+i)*PT, 10*PT, "fa"), ("fnt", 1, 9), ("char", 1)]
        if i % 2:
            ops += [("fntdef", 1+i % 3, 9, 0, (6+i)*PT, 7*PT, "fb"), ("fnt", 1, 9), ("char", 2)]
    ref = reference(ops, fonts)
    d = opendvi(dvi([ops], defs(fonts)))
    comparepage(d.readpage(fontmap=fontmap(FONTS)), ref)
    require(d.readpage() is None, "page after the last one")
    return signature(ref)


# colour specials in all spellings
def gen_colors():
    vals = ("0", "1", ".25", "0.5", "1.0", "0.75")
    for a in vals:
        yield ("gray %s" % a, ("gray", (float(a),)))
        for b, c in itertools.product(vals[1:4], repeat=2):
            t = (float(a), float(b), float(c))
            s = "%s %s %s" % (a, b, c)
            yield ("rgb "+s, ("rgb", t))
            yield ("hsb "+s, ("hsb", t))
            yield ("cmyk "+s+" 0.125", ("cmyk", t+(0.125,)))
            yield ("pyxcolor rgb(%s, %s, %s)" % (a, b, c), ("rgb", t))
            yield ("pyxcolor color.hsb(%s,%s,%s)" % (a, b, c), ("hsb", t))
            yield ("pyxcolor pyx.color.cmyk(%s,%s,%s,0.125)" % (a, b, c), ("cmyk", t+(0.125,)))
        yield ("pyxcolor gray(%s)" % a, ("gray", (float(a),)))
        yield ("pyxcolor pyx.color.grey(%s)" % a, ("gray", (float(a),)))
    for r, gg, b in itertools.product((0, 51, 102, 255), repeat=3):
        yield ("RGB %d %d %d" % (r, gg, b), ("rgb", (r/255, gg/255, b/255)))
    for n, v in (("PineGreen", (0.92, 0, 0.59, 0.25)), ("Red", (0, 1, 1, 0)), ("Black", (0, 0, 0, 1)), ("Melon", (0, 0.46, 0.50, 0))):
        yield ("texnamed "+n, ("cmyk", v))
        yield ("pyxcolor cmyk."+n, ("cmyk", v))
        yield ("pyxcolor pyx.color.cmyk."+n, ("cmyk", v))
    yield ("pyxcolor rgb.red", ("rgb", (1, 0, 0)))
    yield ("pyxcolor gray.white", ("gray", (1,)))
    for bad in ("texnamed NoSuchColor", "pyxcolor rgb.nosuch", "lab 1 2 3", "pyxcolor foo(1)"):
        yield (bad, None)


def run_colors(case):
    spec, want = case
    ops = [("fntnum", 0), ("char", 1), S("color_begin "+spec), ("char", 2), S("color_end"), ("char", 5)]
    d = opendvi(dvi([ops], defs()))
    if want is None:
        try:
            page = d.readpage(fontmap=fontmap(FONTS))
        except Exception as e:
            return type(e).__name__
        core.require(False, "bad colour %r accepted", spec)
    got = render(d.readpage(fontmap=fontmap(FONTS)))
    want = (want[0], tuple(want[1]))
    require(len(got) == 3, "%d marks", len(got))
    require(samecolor(got[1][0], want), "colour %r instead of %r", got[1][0], want)
    for i in (0, 2):
        require(samecolor(got[i][0], ("gray", (0,))), "colour of the text around is %r", got[i][0])
    return want


# virtual fonts
VALPHA = [
    ("char", 1), ("set", 1, 200), ("put", 1, 2),
    ("setrule", FW//3, FW//5), ("putrule", FW//7, FW//2),
    ("right", 3, -FW//9), ("w", 3, FW//4+3), ("w0",), ("x", 3, FW//13), ("x0",),
    ("down", 3, FW//6), ("y", 3, -FW//8), ("y0",), ("z", 3, FW//17), ("z0",),
    ("push",), ("pop",), ("fntnum", 3), ("fntnum", 7), ("fnt", 2, 300), ("nop",),
]


def gen_virtual(depth):
    def gen():
        for seq in itertools.product(range(len(VALPHA)), repeat=depth):
            if valid([VALPHA[i] for i in seq]):
                yield seq
    return gen


def run_virtual(case):
    seq = [VALPHA[i] for i in case]
    prog = seq + [("char", 1)]
    prog += closing(prog)
    v = Font(4, "vt", 12*FW, metrics(2), fonts=[(7, "fa", int(0.75*FW), 10*FW), (3, "fb", int(1.25*FW), 7*FW), (300, "va", int(0.5*FW), 12*FW)], prog={1: prog, 2: [("char", 2)]})
    fonts = dict(FONTS, vt=v)
    install(fontfiles(fonts))
    dfonts = {0: ("fa", 10*PT), 5: ("vt", 17*PT+321)}
    ops = [("right", 3, 5*PT), ("down", 3, 11*PT), ("w", 3, 3*PT), ("x", 3, 2*PT), ("y", 3, 4*PT), ("z", 3, 5*PT), ("push",),
           ("fntnum", 5), ("char", 1), ("char", 1), ("put", 1, 1), ("w0",), ("y0",), ("char", 2), ("fntnum", 0), ("char", 5), ("pop",), ("x0",), ("z0",), ("char", 1)]
    ref = reference(ops, dfonts, fonts)
    d = opendvi(dvi([ops], defs(dfonts, fonts)))
    comparepage(d.readpage(fontmap=fontmap(fonts)), ref)
    return signature(ref)


# units, magnification, font sizes
def gen_units():
    for num, den in ((25400000, 473628672), (25400000, 473628672*2), (25400000*3, 473628672*4), (254000, 72000000), (254, 72270)):
        for mag in (1000, 500, 1200, 2488):
            for q in (0.25, 5, 10, 24.88):
                for d in (10, 7):
                    for f in ("fa", "va", "vb"):
                        yield (num, den, mag, q, f, d)


def run_units(case):
    num, den, mag, q, name, design = case
    conv = (25400000/num)*(den/473628672)/16      # fix_word of points to dvi units
    fonts = dict(FONTS)
    if name == "fa":
        fonts["fa2"] = Font(0, "fa2", design*FW, metrics(0))
        name = "fa2"
    install(fontfiles(fonts))
    qd = round(q*FW*conv)
    pt = conv*FW
    if qd < 200:      # too coarse
        return None
    dfonts = {4: (name, qd), 0: ("fb", round(9*pt))}
    R = lambda x: round(x*pt)
    ops = [("fntnum", 4), ("char", 1), ("right", 4, R(7)), ("char", 2), ("setrule", R(5), R(3)), ("down", 4, R(2)), ("char", 5), ("fntnum", 0), ("char", 1)]
    ref = reference(ops, dfonts, fonts, num=num, den=den, mag=mag)
    d = opendvi(dvi([ops], defs(dfonts, fonts, conv), num=num, den=den, mag=mag))
    comparepage(d.readpage(fontmap=fontmap(fonts)), ref)
    return signature(ref)


# pages
CONTENT = [
    [("fntnum", 0), ("char", 1)],
    [("fntnum", 1), ("w", 3, PT), ("push",), ("char", 2), ("pop",), ("right", 3, PT), ("char", 5)],
    [("setrule", PT, PT), S("marker AB"), ("w0",), ("z0",), ("setrule", PT, PT)],
    [],
    [("push",), ("right", 3, 7*PT), ("fntnum", 2), ("char", 2), ("w", 3, 9*PT), ("z", 3, 9*PT)],      # left on the stack
]


def gen_pages():
    for n in range(0, 4):
        for seq in itertools.product(range(len(CONTENT)), repeat=n):
            for b in range(4):
                yield (seq, b)


def run_pages(case):
    seq, b = case
    between = [b"", b"\x8a", fntdef(243, 1, 77, 0, 8*PT, 10*PT, "fa"), b"\x8a\x8a"+fntdef(243, 2, 78, 0, 8*PT, 7*PT, "fb")+b"\x8a"][b]
    pages = [list(CONTENT[i]) for i in seq]
    fonts = dict(DVIFONTS)
    if b in (2, 3) and pages:
        pages[-1] += [("fnt", 1, 77 if b == 2 else 78), ("char", 1)]
        fonts[77] = ("fa", 8*PT)
        fonts[78] = ("fb", 8*PT)
    counts = [[3*i+1, 0, i] + [7]*7 for i in range(len(pages))]
    data = dvi(pages, defs(), between=between, counts=counts)
    d = opendvi(data)
    sig = []
    for i, p in enumerate(pages):
        ref = reference(p, fonts)
        page = d.readpage(pageid=counts[i] if i % 2 else None, fontmap=fontmap(FONTS))
        require(page is not None, "page %d missing", i)
        comparepage(page, ref, "page %d: " % i)
        sig.append(signature(ref))
    require(d.readpage() is None, "more pages than written")
    # a wrong page number is an error
    if pages:
        d = opendvi(data)
        try:
            d.readpage(pageid=[99]+[0]*9, fontmap=fontmap(FONTS))
        except dvifile.DVIError:
            pass
        else:
            core.require(False, "page with a wrong number accepted")
    return sig if pages else None


# ill-formed programs
BADS = [
    [("pop",)], [("push",), ("pop",), ("pop",)], [("fntnum", 0), ("char", 1), ("pop",)], [("fntnum", 50), ("char", 1)], [("fnt", 4, -7)],
    [("fntnum", 0), ("char", 3)], [("fntnum", 0), ("set", 2, 256)], [("fntnum", 2), ("char", 3)], [("fntnum", 2), ("set", 1, 254)],
    [S("marker A B")], [S("marker A!")], [S("marker AA"), S("marker AA")], [S("nosuch")],
    [("fntdef", 1, 8, 0, PT, 10*PT, "nofont")], [("fntdef", 1, 8, 0, PT, 9*PT, "fa")],
]


def gen_bad():
    for i in range(len(BADS)):
        for pre in range(3):
            yield ("bad", i, pre)
    for op in list(range(250, 256))+[247, 248, 249, 139]:
        yield ("opcode", op)
    for op in range(256):
        if op not in (138, 139, 247, 248) and not 243 <= op <= 246:
            yield ("between", op)
    data = sample()
    for n in range(len(data)):
        yield ("cut", n)
    for v in (0, 1, 3, 255):
        yield ("version", v)


def sample():
    return dvi([CONTENT[1]+[("fntnum", 2), ("char", 1)], CONTENT[2]], defs())


def raises(f):
    try:
        f()
    except core.CaseTimeout:
        raise
    except Exception as e:
        return type(e).__name__
    return None


def run_bad(case):
    kind = case[0]
    if kind == "bad":
        ops = [[], [("fntnum", 0), ("char", 1)], [("fntnum", 2), ("char", 2)]][case[2]]
        ops = ops + BADS[case[1]]
        d = opendvi(dvi([ops], defs()))
        r = raises(lambda: d.readpage(fontmap=fontmap(FONTS)))
        require(r, "ill-formed program %r accepted", ops)
        return r
    if kind == "opcode":
        d = opendvi(dvi([bytes([171, 1, case[1]])], defs()))
        r = raises(lambda: d.readpage(fontmap=fontmap(FONTS)))
        require(r, "opcode %d accepted within a page", case[1])
        return r
    if kind == "between":
        d = opendvi(dvi([[("fntnum", 0), ("char", 1)]]*2, defs(), between=bytes([case[1]])))
        r = raises(lambda: d.readpage(fontmap=fontmap(FONTS)))
        require(r, "opcode %d accepted between pages", case[1])
        return r
    if kind == "version":
        data = bytearray(sample())
        data[1] = case[1]
        r = raises(lambda: opendvi(bytes(data)))
        require(r, "version %d accepted", case[1])
        return r
    # a file cut at any byte gives its complete pages and then an error, but never a partial page
    data = sample()
    n = case[1]
    post = data.index(b"\xf8", data.rindex(b"\x8c"))
    if n > post:
        return None
    e1 = data.index(b"\x8c\x8b")
    full = [p for p in (CONTENT[1]+[("fntnum", 2), ("char", 1)], CONTENT[2])]
    ends = [e1+1, post]
    try:
        d = opendvi(data[:n])
    except core.CaseTimeout:
        raise
    except Exception as e:
        require(n < 15+4, "preamble not read")
        return type(e).__name__
    for i, p in enumerate(full):
        if n >= ends[i]:
            comparepage(d.readpage(fontmap=fontmap(FONTS)), reference(p), "page %d of the cut file: " % i)
        else:
            r = raises(lambda: d.readpage(fontmap=fontmap(FONTS)))
            require(r, "page %d of a file cut at %d accepted", i, n)
            return i, r
    r = raises(lambda: d.readpage(fontmap=fontmap(FONTS)))
    require(r, "end of a file cut at %d accepted", n)
    return "post", r


# font metrics
TV = (0, 1, -1, FW-1, FW, 5*FW//3, -FW//3, (1 << 24)-1, -(1 << 24), 12345, -98765)
ZS = (1, 3, 65536, 655360, 10*PT+7, (1 << 23)-1, 1 << 23, (1 << 23)+1, (1 << 24)+12345, 3 << 24, (1 << 26)+99, (1 << 27)-1)


def gen_metrics():
    for z in ZS:
        for lh in (2, 12, 17, 18, 19, 25):
            for bc, codes in ((0, (0, 1, 255)), (None, (65, 66, 70, 90)), (64, (65,)), (None, ())):
                for nolig in (True, False):
                    yield (z, lh, bc, codes, nolig)


def run_metrics(case):
    z, lh, bc, codes, nolig = case
    sig = []
    for o in range(0, len(TV)):
        chars = {}
        for j, c in enumerate(codes):
            vals = [TV[(o+j*k+k) % len(TV)] for k in (1, 2, 3, 5)]
            chars[c] = tuple(vals)
        install({"tt.tfm": tfm(chars, 10*FW, lh=lh, bc=bc if codes else 1, nolig=nolig, checksum=4711)})
        err = io.StringIO()
        import sys, contextlib
        with contextlib.redirect_stdout(err):
            f = dvifile.texfont.TeXfont("tt", 4711, z*16, 10*FW, 1/16, 0.001)
        require(not err.getvalue(), "reading a font metric file prints %r", err.getvalue())
        for c in chars:
            for i, name in enumerate(("width", "height", "depth", "italic")):
                want = texscale(chars[c][i], z)
                got = getattr(f, "get%s_dvi" % name)(c)
                require(got == want, "%s of %d is %r instead of %r at size %d", name, c, got, want, z)
                exact = chars[c][i]*z/FW*0.001
                gotpt = getattr(f, "get%s_pt" % name)(c)
                require(abs(gotpt-exact) <= 1e-3*0.001+1e-9*abs(exact), "%s of %d in points is %r instead of %r at size %d", name, c, gotpt, exact, z)
                sig.append(want)
        for c in set(range(256))-set(codes):
            require(raises(lambda: f.getwidth_dvi(c)), "width of the missing character %d", c)
        for cs, ok in ((4711, True), (0, True), (4712, False)):
            r = raises(lambda: dvifile.texfont.TeXfont("tt", cs, z*16, 10*FW, 1/16, 0.001))
            require((r is None) == ok, "check sum %d: %s", cs, r)
        require(raises(lambda: dvifile.texfont.TeXfont("tt", 0, z*16, 10*FW+500, 1/16, 0.001)), "wrong design size accepted")
    return sig if codes else None


def run_badtfm(case):
    # inconsistent sizes in the first words are errors
    i, delta = case
    chars = {65: TV[3:7], 66: TV[4:8]}
    data = bytearray(tfm(chars, 10*FW))
    v = struct.unpack(">12h", data[:24])
    w = list(v)
    w[i] += delta
    data[:24] = struct.pack(">12h", *w)
    install({"tt.tfm": bytes(data)})
    r = raises(lambda: dvifile.texfont.TeXfont("tt", 0, 160, 10*FW, 1/16, 0.001))
    require(r, "metric file with word %d off by %d accepted", i, delta)
    return r


def gen_badtfm():
    for i in range(12):
        for delta in (-1, 1, 2, 100):
            yield (i, delta)


# character packets of virtual fonts in long and short form
def gen_packets():
    for n in (0, 1, 2, 100, 240, 241, 242, 300, 1000):
        for long in (False, True):
            for num in (0, 7, 255, 256, 70000, 1 << 24, -5):
                yield (n, long, num)


def run_packets(case):
    n, long, num = case
    prog = [("nop",)]*n + [("char", 1)]
    v = Font(4, "vt", 12*FW, metrics(2), fonts=[(num, "fb", FW//2, 7*FW), (13, "fa", FW, 10*FW)], prog={1: prog, 255: [("char", 5)]})
    fonts = dict(FONTS, vt=v)
    files = fontfiles(fonts)
    files["vt.vf"] = vf(v.fonts, {c: (v.chars[c][0], p) for c, p in v.prog.items()}, v.design, long=long)
    install(files)
    dfonts = {5: ("vt", 17*PT+321)}
    ops = [("fntnum", 5), ("char", 1), ("set", 1, 255), ("char", 1)]
    ref = reference(ops, dfonts, fonts)
    d = opendvi(dvi([ops], defs(dfonts, fonts)))
    comparepage(d.readpage(fontmap=fontmap(fonts)), ref)
    return signature(ref)


def spaces(tier):
    deep = tier == "thorough"
    pre, post = [("fntnum", 0), ("w", 3, 2*PT), ("z", 3, 3*PT)], [("char", 1)]
    out = []
    def add(name, alpha, depth, single=False, pre=pre, post=post):
        out.append(Space(name, gen_programs(alpha, depth, pre, post), run_programs(alpha, pre, post, single),
                         bounds="all valid sequences of %d out of %d opcodes, followed by a character" % (depth, len(alpha)), setup=setup))
    add("programs2", ALPHA, 2, True)
    add("programs3", ALPHA, 3)
    add("moves", MOVES, 6 if deep else 5)
    add("groups", GROUPS, 6 if deep else 5)
    add("texts", TEXTS, 6 if deep else 4)
    if deep:
        add("programs4", ALPHA, 4)
    out.append(Space("operands", gen_operands, run_operands, bounds="every opcode with operands of every size and their boundary values, all font numbers", setup=setup))
    out.append(Space("colors", gen_colors, run_colors, bounds="all colour models and spellings with 6 values", setup=setup))
    out.append(Space("virtual2", gen_virtual(2), run_virtual, bounds="all valid characters of two out of %d opcodes in a virtual font" % len(VALPHA)))
    out.append(Space("virtual3", gen_virtual(4 if deep else 3), run_virtual, bounds="all valid characters of %d out of %d opcodes in a virtual font" % (4 if deep else 3, len(VALPHA))))
    out.append(Space("packets", gen_packets, run_packets, bounds="character packets of nine lengths in both forms, font numbers of all sizes"))
    out.append(Space("units", gen_units, run_units, bounds="five unit systems, four magnifications, four font sizes, plain and virtual fonts"))
    out.append(Space("pages", gen_pages, run_pages, bounds="all files of up to three pages out of five, four fillings between them", setup=setup))
    out.append(Space("illformed", gen_bad, run_bad, bounds="15 ill-formed programs in three contexts, all opcodes between pages, a file cut at every byte", setup=setup))
    out.append(Space("metrics", gen_metrics, run_metrics, bounds="metric files with all header lengths and boundary values at 12 sizes"))
    out.append(Space("badmetrics", gen_badtfm, run_badtfm, bounds="every size word of a metric file off by some amounts"))
    return out
