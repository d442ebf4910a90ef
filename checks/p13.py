"""P13: every PostScript file written is conforming and self-contained."""
import io, itertools, math, os, re, subprocess
from mc import core, machines, t1
from mc import geom as g
from mc.core import Space, require
from checks import p12
from pyx import bitmap, canvas, color, document, epsfile, mesh, path, pattern, style, trafo, unit

PROPERTY = "P13"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of documents over an alphabet of page items needing resources with all writer options, scanned for document structure and executed by a PostScript interpreter model as a whole, page by page and within a host program, with Ghostscript as a second opinion on a part"
LEVEL_NOTE = "All one-page documents of up to 3 items and all two- and three-page documents of a small number of items; every page is executed on its own with the prolog only, in reverse order and within a host program with occupied stacks."
RULE = "A case is one document with its options; outcomes are the number of bytes, resources and marks."
ASSUMPTIONS = ["The interpreter model of the PostScript language stands for an interpreter; Ghostscript agrees on the executed subset.",
               "Every item is drawn at its own fixed place, so that a page shall draw the marks of its items in sequence."]

# an EPS file using names of its own, leaving rubbish behind (BeginEPSF is meant to cope with)
HOST = b"""%!PS-Adobe-3.0 EPSF-3.0
%%BoundingBox: 0 0 30 20
%%EndComments
/x 12 def /f { x 5 lineto } def
newpath 1 2 moveto f stroke
1 0 0 setrgbcolor
5 dict begin /y 3 def
17 (rest)
showpage
%%EOF
"""


def scratch(name, data):
    fn = os.path.join(os.environ["MC_SCRATCH"], "%s-%d.eps" % (name, os.getpid()))
    with open(fn, "wb") as f:
        f.write(data)
    return fn


class Items(p12.Items):

    def x(self, c): c.insert(bitmap.bitmap_pt(5, 160, self.im, width_pt=30, height_pt=20, PSstoreimage=1))
    def y(self, c): c.insert(bitmap.bitmap_pt(45, 160, self.alpha, width_pt=20, height_pt=30, PSstoreimage=1, PSmaxstrlen=5))
    def z(self, c): c.insert(bitmap.bitmap_pt(85, 160, p12.img("P", 3, 3, 1, palette=bitmap.palette("RGB", bytes(range(9)))), width_pt=20, compressmode=None, PSbinexpand=2))
    def e(self, c): c.insert(epsfile.epsfile(120*unit.t_pt, 20*unit.t_pt, scratch("host", HOST), width=40*unit.t_pt))

    def f(self, c):
        inner = canvas.canvas()
        for n in "px":
            getattr(self, n)(inner)
        b = io.BytesIO()
        inner.writeEPSfile(b)
        c.insert(epsfile.epsfile(120*unit.t_pt, 60*unit.t_pt, scratch("inner", b.getvalue()), align="cc"), [trafo.rotate(20)])

    def h(self, c): c.insert(self.t1.text_pt(3, 130, [65, 66], 10, decoding=None, slant=0.25))
    def o(self, c): c.insert(self.t1.text_pt(33, 130, ["C", "A", "D"], 10, decoding={0: "x"} and None) if False else self.t1.text_pt(33, 130, [67, 65], 10, decoding=None, slant=-0.5), [color.gray(0.5)])
    def r(self, c): c.insert(self.t1.text_pt(63, 130, ["D", "A", "D"], 9), [color.hsb(0.5, 1, 0.5)])
    def w(self, c): c.stroke(path.path(path.moveto_pt(0, 0), path.arc_pt(50, 50, 20, 10, 200), path.arcn_pt(20, 20, 5, 80, 10), path.arct_pt(100, 100, 0, 100, 3), path.curveto_pt(1, 2, 3, 4, 5, 6), path.closepath()), [style.dash([1, 2, 3], offset=1), color.cmyk.Red])


NAMES = "vpqmnijklabdgxyzefhorw"
OPTS = [dict(), dict(stripfonts=False), dict(textaspath=True), dict(meshasbitmap=True, meshasbitmapresolution=50)]


def build(pages, opts, kind="PS", **kw):
    it = Items()
    doc = document.document()
    for pg in pages:
        c = canvas.canvas()
        for n in pg:
            getattr(it, n)(c)
        doc.append(document.page(c))
    f = io.BytesIO()
    getattr(doc, "write%sfile" % kind)(f, **opts, **kw)
    return f.getvalue()


# ------------------------------------------------------------ fingerprints
def rnd(v):
    if v is None or isinstance(v, (bool, bytes, str)):
        return v
    if isinstance(v, (int, float)):
        return round(float(v), 3)+0.0
    if isinstance(v, (machines.Filter, machines.CurrentFile)):
        return type(v).__name__
    if isinstance(v, dict):
        return tuple((str(k), rnd(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0])))
    return tuple(rnd(x) for x in v)


def fingerprint(m):
    col = m.color
    if col[0] == "pattern":
        d = dict(col[1])
        p = dict(d.pop(".pattern"))
        proc = p.pop("PaintProc")
        # run with the definitions in force at the end of the program and the pattern dictionary on the stack
        sub = machines.PS(b"")
        sub.dicts = [dict(x) for x in d.pop(".dicts")]
        sub.stack.append(dict(p))
        sub.call(proc)
        require(not sub.stack, "PaintProc leaves operands %r", sub.stack)
        col = ("pattern", rnd(p), rnd(d), tuple(fingerprint(x) for x in sub.marks))
    base = (m.op, m.eo, rnd([[cl, sg] for cl, sg in m.path]), rnd([[p, e] for p, e in m.clips]), rnd(col))
    if m.op == "stroke":
        return base + (rnd((m.width, m.cap, m.join, m.miter, m.dash)), rnd(m.ctm[:4]))
    if m.op == "text":
        out = []
        for font, n, mm in m.glyphs:
            if isinstance(font, tuple):
                out.append((font[0], n, rnd(mm)))
            else:
                require(n in font.glyphs, "glyph %r is not in the embedded font", n)
                out.append((font.name, n, tuple(map(str, t1.Outline(font, n).ops)), rnd(mm)))
        return base + tuple(out)
    if m.op == "image":
        return base + (m.width, m.height, rnd(m.cs), rnd(m.decode), m.data, m.smask, rnd(m.place))
    if m.op == "shade":
        return base + (rnd({k: v for k, v in m.shading.items() if k != "DataSource"}), m.data, rnd(m.ctm))
    return base


SINGLE = {}


def optkey(opts):
    return (opts.get("textaspath", False), opts.get("meshasbitmap", False))


def single(n, opts):
    k = (n,)+optkey(opts)
    if k not in SINGLE:
        o = {a: b for a, b in opts.items() if a not in ("title", "writebbox", "stripfonts")}
        pages = machines.PS(build([n], o, "EPS")).run().pages
        require(len(pages) == 1 and pages[0], "item %s draws nothing", n)
        SINGLE[k] = [fingerprint(m) for m in pages[0]]
    return SINGLE[k]


def compare(what, pages, names, opts):
    require(len(pages) == len(names), "%s: %d pages instead of %d", what, len(pages), len(names))
    for i, (ms, ns) in enumerate(zip(pages, names)):
        want = sum([single(n, opts) for n in ns], [])
        require(len(ms) == len(want), "%s: page %d has %d marks instead of %d", what, i+1, len(ms), len(want))
        for j, (m, y) in enumerate(zip(ms, want)):
            x = fingerprint(m)
            require(x == y, "%s: page %d mark %d is %.500r instead of %.500r", what, i+1, j, x, y)


def execute(what, data, host=False):
    m = machines.PS(data)
    if host:
        m.stack = [7, machines.Lit("host"), (1, 2)]
        m.dicts = m.dicts + [{"pgsave": 1, "x": 2, "imagedataid": 3}]
        m.gstack = []
    before = list(m.stack)
    m.run()
    require(m.stack == before, "%s: operand stack %r", what, m.stack)
    require(len(m.dicts) == 1+bool(host), "%s: dictionary stack of %d", what, len(m.dicts))
    require(not m.gstack, "%s: %d gsave without grestore", what, len(m.gstack))
    require(not m.saves, "%s: %d save without restore", what, len(m.saves))
    require(not m.marks, "%s: marks after the last page", what)
    return m


# ------------------------------------------------------------ document structure
NEST = {"BeginProlog": "EndProlog", "BeginResource": "EndResource", "BeginFont": "EndFont", "BeginData": "EndData", "BeginPageSetup": "EndPageSetup", "BeginDocument": "EndDocument"}


def comments(data):
    """structure comments outside of included documents, with nesting verified; [(position, keyword, argument)]"""
    out, stack = [], []
    pos = 0
    depth = 0
    for l in data.split(b"\n"):
        if l.startswith(b"%%") or l.startswith(b"%!"):
            m = re.match(rb"%([%!])([^\s:]*)(:?)\s?(.*)", l)
            k = (m.group(1)+m.group(2)).decode("latin1").lstrip("%")
            a = m.group(4).decode("latin1")
            if k == "BeginDocument":
                depth += 1
                stack.append(k)
                if depth == 1:
                    out.append((pos, k, a))
            elif k == "EndDocument":
                require(depth and stack.pop() == "BeginDocument", "EndDocument without BeginDocument")
                depth -= 1
            elif not depth:
                out.append((pos, k, a))
                if k in NEST:
                    stack.append(k)
                elif k in NEST.values():
                    require(stack and NEST[stack[-1]] == k, "%s within %r", k, stack)
                    stack.pop()
        pos += len(l)+1
    require(not stack, "%r at the end of the file", stack)
    return out


def once(cs, k):
    r = [c for c in cs if c[1] == k]
    require(len(r) == 1, "%d times %s", len(r), k)
    return r[0]


def unresource(a):
    return a.split()


def structure(data, eps, npages, title=None):
    cs = comments(data)
    require(data.startswith(b"%!PS-Adobe-3.0 EPSF-3.0\n" if eps else b"%!PS-Adobe-3.0\n"), "first line %r", data[:30])
    require(data.endswith(b"%%EOF\n"), "end of the file %r", data[-20:])
    order = ["EndComments", "BeginProlog", "EndProlog"]+[]+["Trailer", "EOF"]
    ps = [once(cs, k)[0] for k in order]
    require(ps == sorted(ps), "order of the sections %r", [(c[1], c[0]) for c in cs if c[1] in order])
    head = [c for c in cs if c[0] < ps[0]]
    hk = [c[1] for c in head if c[1] != "+"]
    require(len(set(hk)) == len(hk), "header comments %r", hk)
    for l in data[:ps[0]].split(b"\n")[1:]:
        require(l == b"" or re.match(rb"%[^\s]", l), "line %r in the header", l)
        require(len(l) < 256, "header line of %d characters", len(l))
    if title is not None:
        t = once(cs, "Title")[2]
        require(untext(t) == title, "title %r instead of %r", t, title)
    else:
        require("Title" not in hk, "title")
    res = [c[2] for c in cs if c[1] in ("BeginResource", "BeginFont")]
    require(len(set(res)) == len(res), "resources are written twice: %r", [r for r in res if res.count(r) > 1])
    for c in cs:
        if c[1] in ("BeginResource", "BeginFont"):
            require(ps[1] < c[0] < ps[2], "resource %s outside of the prolog", c[2])
    pages = [c for c in cs if c[1] == "Page"]
    if eps:
        require(not pages and "Pages" not in hk, "page comments in an EPS file")
    else:
        require(once(cs, "Pages")[2] == str(npages), "Pages %r", once(cs, "Pages")[2])
        require([p[2].rsplit(None, 1)[1] for p in pages] == [str(i+1) for i in range(npages)], "page numbers %r", [p[2] for p in pages])
        require(all(ps[2] < p[0] < ps[3] for p in pages), "pages at %r", pages)
        for k in ("BeginPageSetup", "EndPageSetup", "PageTrailer"):
            require(len([c for c in cs if c[1] == k]) == npages, "%s for %d pages", k, npages)
    return cs, ps, pages, res


def untext(t):
    """textline or text argument"""
    if t.startswith("("):
        out, i, d = bytearray(), 1, 1
        while True:
            require(i < len(t), "unterminated string %r", t)
            c = t[i]
            if c == "\\":
                m = re.match(r"[0-7]{1,3}", t[i+1:])
                if m:
                    out.append(int(m.group(), 8) & 255); i += 1+m.end()
                else:
                    out += {"n": b"\n", "r": b"\r", "t": b"\t", "b": b"\b", "f": b"\f"}.get(t[i+1], t[i+1].encode("latin1")); i += 2
                continue
            d += {"(": 1, ")": -1}.get(c, 0)
            if d == 0:
                break
            out += c.encode("latin1")
            i += 1
        require(t[i+1:].strip() == "", "rest %r", t[i+1:])
        t = bytes(out)
        if t.startswith(b"\xfe\xff"):
            return t[2:].decode("utf-16-be")
        return t.decode("latin1")
    return t


# ------------------------------------------------------------ media
def space_papers(tier):
    """all sequences of pages on paper of the predefined and of own formats, in both orientations"""
    PF = document.paperformat
    FORMATS = {"-": None, "A5": PF.A5, "A4": PF.A4, "A3": PF.A3, "Letter": PF.Letter, "Own": PF(100*unit.t_pt, 250*unit.t_pt, "Own"), "Wide": PF(300*unit.t_pt, 120*unit.t_pt, "Wide")}
    SIZE = {"A5": (421, 595), "A4": (595, 842), "A3": (842, 1191), "Letter": (612, 792), "Own": (100, 250), "Wide": (300, 120)}

    def gen():
        for n in range(1, 4 if tier == "quick" else 5):
            for fs in itertools.product(FORMATS, repeat=n):
                for r in range(2):
                    for wb in range(2):
                        yield fs, r, wb

    def run(case):
        fs, r, wb = case
        ps = []
        for i, f in enumerate(fs):
            c = canvas.canvas()
            c.fill(path.rect_pt(10*i, 20, 30, 40))
            ps.append(document.page(c, paperformat=FORMATS[f], rotated=(r+i) % 2))
        b = io.BytesIO()
        document.document(ps).writePSfile(b, writebbox=bool(wb))
        data = b.getvalue()
        structure(data, False, len(fs))
        lines = data.split(b"%%EndComments")[0].decode("latin1").split("\n")
        media, last = [], None
        for l in lines:
            mm = re.match(r"%%(\+|[A-Za-z]+:)\s*(.*)$", l)
            if not mm:
                last = None
                continue
            k = last if mm.group(1) == "+" else mm.group(1)[:-1]
            require(k is not None, "continuation line %r continues nothing", l)
            last = k
            if k == "DocumentMedia":
                v = mm.group(2).split()
                require(len(v) == 6, "medium %r", l)
                media.append(v)
        want = {f for f in fs if f != "-"}
        require(sorted(v[0] for v in media) == sorted(want), "media %r instead of %r", media, want)
        for v in media:
            require(all(abs(float(x)-y) <= 1 for x, y in zip(v[1:3], SIZE[v[0]])), "medium %r", v)
        pages = re.split(r"^%%Page: ", data.decode("latin1"), flags=re.M)[1:]
        for i, (f, p) in enumerate(zip(fs, pages)):
            h = dict(re.findall(r"^%%(\w+): (.*)$", p.split("%%BeginPageSetup")[0], re.M))
            require(h.get("PageMedia") == (None if f == "-" else f), "page %d on %r instead of %s", i+1, h.get("PageMedia"), f)
            require(h["PageOrientation"] == ("Landscape" if (r+i) % 2 else "Portrait"), "orientation of page %d: %s", i+1, h["PageOrientation"])
            require(("PageBoundingBox" in h) == bool(wb), "page bounding box %r", h.get("PageBoundingBox"))
        return (fs, r, wb)
    return Space("papers", gen, run, "all sequences of up to %d pages over %d paper formats, rotations and page bounding boxes" % (3 if tier == "quick" else 4, len(FORMATS)))


# ------------------------------------------------------------ documents
def gen_docs(tier):
    for i, o in enumerate(OPTS):
        yield ([""], o)
        for a in NAMES:
            yield ([a], o)
            for b in NAMES:
                if i < 2 or tier != "quick" or (NAMES.index(a)+NAMES.index(b)) % 2:
                    yield ([a+b], o)
                    yield ([a, b], o)
                if i == 0:
                    yield (["", a+b], o)
    for a, b, c in itertools.product(NAMES, repeat=3):
        h = NAMES.index(a)*7+NAMES.index(b)*3+NAMES.index(c)
        for kind in range(4):
            if (h+kind) % (24 if tier == "quick" else 2):
                continue
            yield ([[a+b+c], [a+b, c], [a, b+c], [a, b, c]][kind], {})
    for a, b in itertools.combinations(NAMES, 2):
        if tier != "quick" or (NAMES.index(a)+NAMES.index(b)) % 3 == 0:
            yield ([NAMES, a+b, NAMES[::-1], b], {})


def marksbox(ms):
    pts = [p for m in ms if m.op in ("fill", "stroke") for cl, sg in m.path for s in sg for p in (s[0], s[-1])]
    for m in ms:
        if m.op == "image":
            pts += [g.app(m.place, p) for p in ((0, 0), (m.width, 0), (0, m.height), (m.width, m.height))]
    return pts


def run_docs(case):
    pages, opts = case
    data = build(pages, opts, writebbox=True)
    cs, ps, pcs, res = structure(data, False, len(pages))
    m = execute("document", data)
    compare("document", m.pages, pages, opts)
    # every page needs nothing but the prolog
    bounds = [p[0] for p in pcs]+[ps[3]]
    prolog = data[:bounds[0]]
    if len(pages) > 1:
        for i in range(len(pages)):
            one = execute("page %d" % (i+1), prolog+data[bounds[i]:bounds[i+1]]+data[ps[3]:])
            compare("page %d alone" % (i+1), one.pages, [pages[i]], opts)
        rev = execute("reversed pages", prolog+b"".join(data[bounds[i]:bounds[i+1]] for i in reversed(range(len(pages))))+data[ps[3]:])
        compare("reversed pages", rev.pages, pages[::-1], opts)
    # boxes
    for ms, c, e in zip(m.pages, pcs, bounds[1:]):
        pts = marksbox(ms)
        mm = re.search(rb"^%%PageBoundingBox: (.*)$", data[c[0]:e], re.M)
        if pts:
            box = [int(x) for x in mm.group(1).split()]
            require(all(box[0] <= x+1e-3 and x-1e-3 <= box[2] and box[1] <= y+1e-3 and y-1e-3 <= box[3] or clipped(ms) for x, y in pts), "page box %r", box)
    if len(pages) == 1:
        eps = build(pages, opts, "EPS")
        structure(eps, True, 1)
        m = execute("EPS file", eps, host=True)
        compare("EPS file", m.pages, pages, opts)
        h = dict((k, a) for p, k, a in comments(eps)[:6])
        pts = marksbox(m.pages[0])
        if pts:
            lo = h["BoundingBox"].split()
            hi = [float(x) for x in h["HiResBoundingBox"].split()]
            require(all(re.fullmatch(r"-?\d+", x) for x in lo), "bounding box %r", lo)
            lo = [int(x) for x in lo]
            for a, b, f in zip(lo, hi, (math.floor, math.floor, math.ceil, math.ceil)):
                require(a in (f(b-1e-3), f(b), f(b+1e-3)), "bounding boxes %r %r", lo, hi)
            if not clipped(m.pages[0]):
                require(all(hi[0] <= x+2e-3 and x-2e-3 <= hi[2] and hi[1] <= y+2e-3 and y-2e-3 <= hi[3] for x, y in pts), "bounding box %r of points %r", hi, pts[:10])
    return (len(data), len(res), pages)


def clipped(ms):
    return any(m.clips for m in ms)


# ------------------------------------------------------------ titles and page names
CH = ["a", " ", "(", ")", "\\", "%", "<", "/", "\n", "\r", "\t", "7", "é", "€", "\x7f", "\x01", ":", "þ"]


def space_names(tier):
    def gen():
        for a in CH:
            yield a
            for b in CH:
                yield a+b
                if tier == "thorough":
                    for c in CH:
                        yield a+b+c
        for s in ("", "(atend)", "%%EOF", "x\nshowpage", "a\r\nb", "þÿab", "a"*200, "\n1 0 div", "%%Page: 1 1", "中文", "\U0001f600"):
            yield s

    def run(s):
        c = canvas.canvas()
        c.stroke(path.line_pt(0, 0, 10, 10))
        d = document.document([document.page(c, pagename=s), document.page(c, pagename=s+"x"), document.page(c)])
        f = io.BytesIO()
        d.writePSfile(f, title=s)
        data = f.getvalue()
        cs, ps, pcs, res = structure(data, False, 3, title=s)
        m = execute("document", data)
        require(len(m.pages) == 3 and all(len(p) == 1 for p in m.pages), "pages %r", m.pages)
        for p, w in zip(pcs, (s, s+"x", "3")):
            label = p[2].rsplit(None, 1)[0]
            require(label.startswith("(") or re.fullmatch(r"[!-~]+", label), "page label %r", label)
            require(untext(label) == w, "page label %r instead of %r", label, w)
        f = io.BytesIO()
        document.document([document.page(c, pagename=s)]).writeEPSfile(f, title=s)
        structure(f.getvalue(), True, 1, title=s)
        require(len(execute("EPS", f.getvalue(), host=True).pages) == 1, "pages of the EPS file")
        return s
    return Space("names", gen, run, dict(characters=len(CH), length=2))


# ------------------------------------------------------------ Ghostscript
def space_gs(tier):
    """the files of larger documents are executed by Ghostscript without errors, with the right number of pages"""
    def gen():
        for i in range(len(OPTS)):
            for n in NAMES:
                if i == 0 or n in "abhrmnef":
                    yield (i, [n], "EPS")
            for k in range(len(NAMES)):
                yield (i, [NAMES[k:]+NAMES[:k], NAMES[k], ""], "PS")
            if tier == "thorough":
                for a, b in itertools.product(NAMES, repeat=2):
                    yield (i, [a+b, b], "PS")

    def run(case):
        i, pages, kind = case
        data = build(pages, OPTS[i], kind)
        tail = b"\n(OPSTACK ) print count = (DICTS ) print countdictstack =\n"
        r = subprocess.run(["gs", "-q", "-dSAFER", "-dNOPAUSE", "-dBATCH", "-sDEVICE=nullpage", "-"], input=b"/dcount countdictstack def (DICTS0 ) print dcount =\n"+data+tail, capture_output=True, timeout=60,
                           cwd=os.environ["MC_SCRATCH"])
        out = r.stdout.decode("latin1")
        require(r.returncode == 0 and "Error" not in out and not r.stderr, "Ghostscript: %s %s", out[:300], r.stderr[:200])
        require("OPSTACK 0" in out, "Ghostscript: %s", out)
        a, b = re.search(r"DICTS0 (\d+)", out), re.search(r"DICTS (\d+)", out)
        require(a.group(1) == b.group(1), "Ghostscript: %s", out)
        return (i, pages, len(data))
    return Space("ghostscript", gen, run, dict(items=len(NAMES)), cpu=120)


def spaces(tier):
    return [Space("documents", lambda: gen_docs(tier), run_docs, dict(items=len(NAMES), pages=3)), space_names(tier), space_papers(tier), space_gs(tier)]
