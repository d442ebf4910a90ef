"""P12: every PDF file is a well-formed object graph."""
import io, itertools, os, re, struct, time, zlib
from mc import core, machines, t1
from mc import geom as g
from mc.core import Space, require
from pyx import bitmap, canvas, color, document, mesh, path, pattern, pdfextra, style, trafo, unit
from pyx import font as pyxfont
from pyx.font import t1file

PROPERTY = "P12"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of documents over an alphabet of page items (paths, patterns, shadings, images, text, form fields, nested canvases) with all writer options, of information strings and of time zones, read back by a strict PDF reader and content stream machine"
LEVEL_NOTE = "All one-page documents of up to 3 items, all two- and three-page documents of a small number of items, all 1- and 2-character information strings over an alphabet, all form field kinds with all flags, pages and transformations."
RULE = "A case is one document with its options; outcomes are the fingerprints of its pages."
ASSUMPTIONS = ["A strict reader of PDF 1.4 syntax stands for the PDF standard.",
               "Every item is drawn at its own fixed place, so that a page shall draw the marks of its items in sequence."]


# ------------------------------------------------------------ fingerprints
def rnd(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (int, float)):
        return round(float(v), 3)+0.0
    return tuple(rnd(x) for x in v)


def deep(pdf, v, skip=("Length", "Filter", "Name", "Parent")):
    v = pdf.get(v)
    if isinstance(v, machines.Stream):
        return ("stream", deep(pdf, v.dict), v.data())
    if isinstance(v, dict):
        return tuple((k, deep(pdf, x)) for k, x in sorted(v.items()) if k not in skip)
    if isinstance(v, list):
        return tuple(deep(pdf, x) for x in v)
    return rnd(v)


def content(pdf, stream, resources):
    c = machines.Content(pdf, pdf.get(resources))
    marks = c.run(stream.data())
    return [fingerprint(pdf, m, c) for m in marks], c


def paint(pdf, col, c):
    if col[0] == "pattern":
        s = pdf.get(pdf.get(c.res["Pattern"])[col[1]])
        require(s.dict.get("Type", "Pattern") == "Pattern" and s.dict["PatternType"] == 1, "pattern %r", s.dict)
        b = s.dict["BBox"]
        require(b[0] <= b[2] and b[1] <= b[3], "pattern box %r", b)
        return ("pattern", deep(pdf, {k: v for k, v in s.dict.items() if k != "Resources"}), tuple(content(pdf, s, s.dict["Resources"])[0]))
    return col


def fingerprint(pdf, m, c):
    base = (m.op, m.eo, rnd([[cl, sg] for cl, sg in m.path]), rnd([[p, e] for p, e in m.clips]), paint(pdf, m.color, c), rnd(m.alpha))
    if m.op == "stroke":
        return base + (rnd((m.width, m.cap, m.join, m.miter, m.dash)), rnd(m.ctm[:4]))
    if m.op == "text":
        out = []
        for font, glyph, mm in machines.pdfglyphs(pdf, m):
            if isinstance(font, str):
                out.append((font, glyph, rnd(mm)))
            else:
                require(glyph in font.glyphs, "glyph %r is not in the embedded font", glyph)
                out.append((font.name, glyph, tuple(map(str, t1.Outline(font, glyph).ops)), rnd(mm)))
        return base + tuple(out)
    if m.op == "image":
        return base + (deep(pdf, m.xobject), rnd(m.ctm))
    if m.op == "shade":
        return base + (deep(pdf, m.shading), rnd(m.ctm))
    return base


# ------------------------------------------------------------ items
FONTSRC = {}


def font():
    if not FONTSRC:
        glyphs = {".notdef": [0, 250, "hsbw", "endchar"]}
        for i, n in enumerate(("A", "B", "C", "D")):
            glyphs[n] = [20+i, 500+10*i, "hsbw", 30+3*i, 50, "rmoveto", 100+i, "hlineto", 77-i, "vlineto", "closepath", "endchar"]
        data = t1.build("Own", glyphs, [["return"]], encoding=[(65, "A"), (66, "B"), (67, "C"), (68, "D")])
        FONTSRC["own"] = pyxfont.T1font(t1file.T1File.from_PF_bytes(data), None)
        glyphs = dict(glyphs)
        glyphs["A"] = [1, 300, "hsbw", 10, 20, "rmoveto", 30, "hlineto", 40, "vlineto", "closepath", "endchar"]
        data = t1.build("Other", glyphs, [["return"]], encoding=[(65, "A"), (66, "B"), (67, "C"), (68, "D")])
        FONTSRC["other"] = pyxfont.T1font(t1file.T1File.from_PF_bytes(data), None)
    return FONTSRC


def img(mode, w, h, k=0, palette=None):
    n = w*h*len(mode)
    return bitmap.image(w, h, mode, bytes((37*i+k) % 256 if mode != "P" else (i+k) % 3 for i in range(n)), palette=palette)


def makemesh(cols, dx):
    n = [mesh.node_pt((dx+x, y), c) for (x, y), c in zip([(0, 0), (13, 2), (5, 17), (21, 11)], cols)]
    return mesh.mesh([mesh.element((n[0], n[1], n[2])), mesh.element((n[1], n[2], n[3]))])


class Items:
    """the page items; created anew for every document (shared by its pages)"""

    def __init__(self):
        hatch = pattern.hatched45.large
        self.hatch = hatch
        own = pattern.pattern()
        own.fill(path.rect_pt(0, 0, 6, 5), [color.transparency(0.4), color.cmyk(0.1, 0.2, 0.3, 0.4)])
        own.insert(bitmap.bitmap_pt(1, 1, img("L", 2, 2, 5), width_pt=3, height_pt=2))
        self.own = own
        second = pattern.pattern(painttype=1, tilingtype=2, xstep=9*unit.t_pt, ystep=11*unit.t_pt)
        second.stroke(path.line_pt(0, 0, 4, 5), [hatch.strokestyles[0], color.rgb(0, 0.25, 1)])
        self.second = second
        self.im = img("RGB", 3, 2)
        self.m1 = makemesh([color.rgb(0, 0.5, 1), color.rgb(1, 0, 0), color.rgb(0, 1, 0), color.rgb(0.5, 0.5, 0)], 50)
        self.m2 = makemesh([color.gray(0), color.gray(1), color.gray(0.5), color.gray(0.25)], 80)
        self.alpha = img("RGBA", 2, 3, 9)
        f = font()
        self.t1 = f["own"]
        self.other = f["other"]

    def v(self, c): c.stroke(path.line_pt(1, 2, 30, 40), [color.rgb(0.25, 0.5, 0.75), style.linewidth(1.7*unit.w_pt), style.linestyle.dashed])
    def t(self, c): c.fill(path.rect_pt(10, 3, 7, 8), [color.transparency(0.5), color.gray(0.25)])
    def u(self, c): c.fill(path.rect_pt(10, 13, 7, 8), [color.transparency(0.25)])
    def p(self, c): c.fill(path.circle_pt(20, 20, 9), [self.hatch])
    def q(self, c): c.fill(path.rect_pt(22, 3, 17, 18), [self.own])
    def s(self, c): c.fill(path.rect_pt(42, 3, 17, 18), [self.second, color.transparency(0.75)])
    def m(self, c): c.insert(self.m1)
    def n(self, c): c.insert(self.m2)
    def i(self, c): c.insert(bitmap.bitmap_pt(5, 60, self.im, width_pt=30, height_pt=20))
    def j(self, c): c.insert(bitmap.bitmap_pt(45, 60, self.alpha, width_pt=20, height_pt=30, compressmode=None))
    def k(self, c): c.insert(bitmap.bitmap_pt(75, 60, img("RGB", 2, 3), width_pt=20, compressmode=None))        # bytes as item l
    def l(self, c): c.insert(bitmap.bitmap_pt(75, 90, img("RGB", 3, 2), width_pt=20, compressmode=None))
    def a(self, c): c.insert(self.t1.text_pt(3, 100, [65, 66], 10, decoding=None))
    def b(self, c): c.insert(self.t1.text_pt(33, 100, [68, 65], 17, decoding=None), [color.rgb(1, 0.5, 0)])
    def d(self, c): c.insert(self.other.text_pt(63, 100, [65, 67], 12, decoding=None))

    def g(self, c):
        cc = canvas.canvas([trafo.rotate(30), canvas.clip(path.rect_pt(0, 120, 40, 30)), color.cmyk(0.5, 0, 0.25, 0)])
        cc.insert(bitmap.bitmap_pt(90, 100, self.im, width_pt=10, height_pt=25))
        cc.insert(self.t1.text_pt(80, 100, [67], 21, decoding=None))
        cc.fill(path.rect_pt(70, 80, 20, 30), [self.own])
        c.insert(cc)


NAMES = "vtupqsmnijklabdg"
SINGLE = {}


def options(o):
    kw = dict(o)
    kw.pop("name", None)
    return kw


def build(pages, opts):
    it = Items()
    doc = document.document()
    for pg in pages:
        c = canvas.canvas()
        for n in pg:
            getattr(it, n)(c)
        doc.append(document.page(c))
    f = io.BytesIO()
    doc.writePDFfile(f, **opts)
    return f.getvalue(), it


def single(n, aspath=False):
    """fingerprint of an item in a document of its own"""
    if (n, aspath) not in SINGLE:
        pdf = machines.PDF(build([n], dict(textaspath=aspath))[0])
        pg = pdf.pages()[0]
        fp, c = content(pdf, pdf.get(pg["Contents"]), pg["Resources"])
        require(len(fp) >= 1, "item %s draws nothing", n)
        SINGLE[n, aspath] = fp
    return SINGLE[n, aspath]


def checkdoc(data, pages, opts):
    pdf = machines.PDF(data)
    pgs = pdf.pages()
    require(len(pgs) == len(pages), "%d pages instead of %d", len(pgs), len(pages))
    for i, (pg, names) in enumerate(zip(pgs, pages)):
        fp, c = content(pdf, pdf.get(pg["Contents"]), pg["Resources"])
        want = sum([single(n, opts.get("textaspath", False)) for n in names], [])
        require(len(fp) == len(want), "page %d has %d marks instead of %d", i+1, len(fp), len(want))
        for j, (x, y) in enumerate(zip(fp, want)):
            require(x == y, "page %d mark %d is %.600r instead of %.600r", i+1, j, x, y)
        require(("CropBox" in pg) == bool(opts.get("writebbox") and names), "CropBox of page %d", i+1)
        require(len(pg["MediaBox"]) == 4 and "Annots" not in pg, "page %d is %r", i+1, pg)
    cat = pdf.get(pdf.trailer["Root"])
    require(cat.get("PageMode") == ("FullScreen" if opts.get("fullscreen") else None), "page mode %r", cat.get("PageMode"))
    # shared resources once
    seen = {}
    reach = pdf.reachable()
    for no, o in pdf.objs.items():
        if no not in reach:
            continue
        d = o.dict if isinstance(o, machines.Stream) else o
        if isinstance(d, dict) and (d.get("Type") in ("XObject", "Font", "FontDescriptor", "Encoding", "Pattern") or "Length1" in d or "ShadingType" in d):
            k = deep(pdf, machines.Ref((no, 0))), rnd(d.get("Filter"))
            require(k not in seen, "objects %d and %d are the same %s", no, seen.get(k), d.get("Type"))
            seen[k] = no
        if isinstance(o, machines.Stream) and opts.get("compress", True) is False:
            require("Filter" not in o.dict or d.get("Subtype") == "Image" or "Length1" in d, "compressed stream %r", d)
        if isinstance(o, machines.Stream) and "Length1" in d and opts.get("stripfonts") is False:
            l1, l2 = d["Length1"], d["Length2"]
            fnt = t1.Font(o.data()[:l1], t1.decrypt(o.data()[l1:l1+l2], 55665, 4))
            require(set(fnt.glyphs) == {".notdef", "A", "B", "C", "D"}, "full font has glyphs %r", sorted(fnt.glyphs))
    return len(data), len(pdf.objs)


OPTS = [dict(), dict(compress=False), dict(stripfonts=False), dict(textaspath=True), dict(writebbox=True, fullscreen=True), dict(compress=True, compresslevel=1)]


def gen_docs(tier):
    for i, o in enumerate(OPTS):
        yield ([""], o)
        for a in NAMES:
            yield ([a], o)
            for b in NAMES:
                yield ([a+b], o)
                if i == 0 or tier != "quick":
                    yield (["", a+b], o)
                yield ([a, b], o)
    for a, b, c in itertools.product(NAMES, repeat=3):
        h = NAMES.index(a)*7+NAMES.index(b)*3+NAMES.index(c)
        for kind in range(4):
            if tier == "quick" and (h+kind) % 4:
                continue
            pages = [[a+b+c], [a+b, c], [a, b+c], [a, b, c]][kind]
            yield (pages, {})
            if tier != "quick":
                yield (pages, dict(compress=False))
    for a, b in itertools.combinations(NAMES, 2):
        yield ([NAMES, a+b, NAMES[::-1], b], {})


def run_docs(case):
    pages, opts = case
    data, it = build(pages, opts)
    a = checkdoc(data, pages, opts)
    # the same objects written once more
    doc = document.document()
    return (pages, sorted(opts)) + a


# ------------------------------------------------------------ information strings
CH = ["a", " ", "(", ")", "\\", "<", ">", "[", "]", "%", "/", "\n", "\r", "\t", "7", "é", "ÿ", "~", "\x7f", "\x80", "\x9f", "\xa0", "\xad", "€", "ł", "中", "\U0001f600", "\x01", "\x18", "þ", "#", "{"]


def gen_info(tier):
    for a in CH:
        yield a
        for b in CH:
            yield a+b
    yield "\\101"
    yield "(()"
    yield "þÿab"
    yield "x"*3000
    if tier != "quick":
        for t in itertools.product(CH, repeat=3):
            yield "".join(t)


def decodetext(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    if b[:2] == b"\xfe\xff":
        return b[2:].decode("utf-16-be")
    # PDFDocEncoding in the part agreeing to Latin 1
    for x in b:
        require(x in (9, 10, 13) or 0x20 <= x <= 0x7e or 0xa1 <= x <= 0xff and x != 0xad, "byte %d has another meaning in PDFDocEncoding", x)
    return b.decode("latin1")


def run_info(s):
    c = canvas.canvas()
    c.stroke(path.line_pt(0, 0, 10, 10))
    d = document.document([document.page(c)])
    f = io.BytesIO()
    want = dict(Title=s, Author=s[::-1], Subject=s+s, Keywords="k"+s)
    d.writePDFfile(f, title=want["Title"], author=want["Author"], subject=want["Subject"], keywords=want["Keywords"])
    pdf = machines.PDF(f.getvalue())
    info = pdf.get(pdf.trailer["Info"])
    got = []
    for k, w in want.items():
        require(k in info, "%s is missing", k)
        t = decodetext(info[k])
        require(t == w, "%s reads %r instead of %r", k, t, w)
        got.append(info[k])
    require(set(info) == {"Title", "Author", "Subject", "Keywords", "Creator", "CreationDate"}, "information %r", info)
    return got


# ------------------------------------------------------------ creation date
ZONES = ["UTC0", "EST5", "XXX-5:30", "NST3:30", "AAA-0:30", "BBB0:45", "CCC12", "DDD-14", "AEST-10AEDT,M1.1.0/0,M12.5.6/23", "XXX3YYY,M1.1.0/0,M12.5.6/23", "WET0WEST,M1.1.0/0,M12.5.6/23"]


def gen_date(tier):
    for z in ZONES:
        for e in (None, "", "0", "1", "951782399", "951782400", "1700000000", "4102444800"):
            yield (z, e)


def run_date(case):
    z, e = case
    old = {k: os.environ.get(k) for k in ("TZ", "SOURCE_DATE_EPOCH")}
    try:
        os.environ["TZ"] = z
        time.tzset()
        os.environ.pop("SOURCE_DATE_EPOCH", None)
        if e is not None:
            os.environ["SOURCE_DATE_EPOCH"] = e
        c = canvas.canvas()
        c.stroke(path.line_pt(0, 0, 10, 10))
        f = io.BytesIO()
        t0 = time.time()
        c.writePDFfile(f)
        t1_ = time.time()
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()
    pdf = machines.PDF(f.getvalue())
    d = decodetext(pdf.get(pdf.trailer["Info"])["CreationDate"])
    m = re.fullmatch(r"D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)?(?:(Z)(?:00'00'?)?|([+-])(\d\d)'(\d\d)'?)", d)
    require(m, "date %r", d)
    import calendar
    t = calendar.timegm((int(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), int(m[6] or 0), 0, 0, 0))
    off = 0
    if m[8]:
        require(int(m[10]) < 60 and int(m[9]) < 24, "date %r", d)
        off = (int(m[9])*60+int(m[10]))*60*(1 if m[8] == "+" else -1)
    t -= off
    lo, hi = (t0, t1_) if not e else (int(e), int(e))
    require(lo-60 < t <= hi, "date %r is %d s off", d, t-lo)
    return (z, e, off)


# ------------------------------------------------------------ form fields
ANN = dict(invisible=0, hidden=1, printable=2, nozoom=3, norotate=4, noview=5, readonly=6)
FRM = dict(readonly=0, required=1, noexport=2, notoggletooff=14, radio=15, combo=17, edit=18, sort=19, multiselect=21, multiline=12, password=13, fileselect=20, donotspellcheck=22, donotscroll=23)
COMMON = ["invisible", "hidden", "printable", "nozoom", "norotate", "noview", "readonly", "required", "noexport"]
KINDS = {"text": COMMON + ["multiline", "password", "fileselect", "donotspellcheck", "donotscroll"],
         "choice": COMMON + ["combo", "edit", "sort", "multiselect", "donotspellcheck"],
         "check": COMMON, "radio": COMMON + ["notoggletooff"]}
DEFAULTS = {"text": {"printable", "donotspellcheck"}, "choice": {"printable", "combo", "donotspellcheck"}, "check": {"printable"}, "radio": {"printable"}}
STRS = ["name", "a(b", "c)d\\", "é", "€ł", "two words"]


def field(kind, x, y, name, flags, value):
    """(item, [rectangles], expected value)"""
    if kind == "text":
        return pdfextra.textfield(x*unit.t_pt, y*unit.t_pt, 50*unit.t_pt, 20*unit.t_pt, name, defaultvalue=value, **flags), [(x, y, x+50, y+20)]
    if kind == "choice":
        return pdfextra.choicefield(x*unit.t_pt, y*unit.t_pt, 40*unit.t_pt, 15*unit.t_pt, name, ["one", value, "(", "é"], defaultvalue=value, **flags), [(x, y, x+40, y+15)]
    if kind == "check":
        return pdfextra.checkbox(x*unit.t_pt, y*unit.t_pt, name, defaulton=bool(value), **flags), [(x, y-2, x+10, y+8)]
    pos = [(x, y), (x+30, y+5), (x+7, y+25)]
    return (pdfextra.radiobuttons([(u*unit.t_pt, v*unit.t_pt) for u, v in pos], name, ["first", "second one", "third"], defaultvalue=value or None, **flags),
            [(u, v-2, u+10, v+8) for u, v in pos])


def gen_forms(tier):
    for kind, flags in KINDS.items():
        vals = {"text": ["", "x", "a(b", "l1\nl2", "\n"], "choice": ["val", "p(q", "é"], "check": ["", "on"], "radio": ["", "first", "second one", "third"]}[kind]
        for v in vals:
            for nm in STRS:
                yield ([[(kind, nm, {}, v, None)]], {})
        for k in range(3 if tier == "quick" else 4):
            for fl in itertools.combinations(flags, k):
                for v in (0, 1):
                    if k != 2 or v or tier != "quick":
                        yield ([[(kind, "f", {f: v for f in fl}, vals[-1], None)]], {})
    trs = [("t", 30, 7), ("s", 2, 2), ("ts", 2, 2)]
    for ks in itertools.product(KINDS, repeat=2):
        for t in [None] + trs:
            for t2 in [None] + trs:
                for lay in ((2,), (1, 1), (1, 0, 1), (0, 2), (1, 1, 0)):
                    items = [(ks[0], "f", {}, "x" if ks[0] != "radio" else "first", t), (ks[1], "g", {"hidden": 1}, "y" if ks[1] != "radio" else "third", t2)]
                    pages = []
                    rest = list(items)
                    for n in lay:
                        pages.append([rest.pop(0) for _ in range(n)])
                    for o in ({}, dict(compress=False)):
                        yield (pages, o)
    for n in range(1, 4):
        for col in itertools.product((None, "rgb", "gray"), repeat=n):
            yield ("color", list(col))


def run_colors(cols):
    """the fill style of a text field is the one of its canvas"""
    c = canvas.canvas()
    C = {"rgb": color.rgb(0.5, 0.25, 1), "gray": color.gray(0.25)}
    for i, col in enumerate(cols):
        f = field("text", 10, 30*i, "f%d" % i, {}, "x")[0]
        c.insert(f, [C[col]] if col else [])
    f = io.BytesIO()
    c.writePDFfile(f)
    pdf = machines.PDF(f.getvalue())
    an = [pdf.get(a) for a in pdf.get(pdf.pages()[0]["Annots"])]
    for a, col in zip(an, cols):
        da = a["DA"].decode("latin1") if isinstance(a["DA"], bytes) else a["DA"]
        want = {"rgb": r"0\.50*\s+0\.250*\s+1(\.0*)?\s+rg\s", "gray": r"0\.250*\s+g\s", None: ""}[col]
        require(re.fullmatch(r"\s*%s\s*/Helvetica\s+10(\.0*)?\s+Tf\s+[\d.]+\s+TL\s*" % want, da), "appearance string %r for colour %r", da, col)
    return cols


def appearance(pdf, ref):
    s = pdf.get(ref)
    require(isinstance(s, machines.Stream) and s.dict.get("Subtype") == "Form" and len(s.dict["BBox"]) == 4, "appearance %r", s)
    lx = machines.Lexer(s.data())
    st = []
    shown = []
    fonts = pdf.get(pdf.get(s.dict["Resources"])["Font"])
    q = 0
    while True:
        t = lx.tok()
        if t is None:
            break
        if isinstance(t, machines.Op):
            if t == "Tf":
                require(str(st[-2]) in fonts, "font %s of an appearance is no resource", st[-2])
                require(pdf.get(fonts[str(st[-2])])["BaseFont"] in ("Helvetica", "ZapfDingbats"), "font %r", st[-2])
            elif t in ("Tj", "'"):
                shown.append(st[-1])
            elif t in ("q", "BT", "BMC"):
                q += 1
            elif t in ("Q", "ET", "EMC"):
                q -= 1
            st = []
        else:
            st.append(t)
    require(q == 0, "unbalanced appearance")
    return [x.decode("latin1") if isinstance(x, bytes) else x for x in shown]


def run_forms(case):
    pages, opts = case
    if pages == "color":
        return run_colors(opts)
    doc = document.document()
    want = []
    for pg in pages:
        c = canvas.canvas()
        c.stroke(path.line_pt(0, 0, 200, 200))
        w = []
        for i, (kind, nm, flags, v, t) in enumerate(pg):
            it, rects = field(kind, 10+5*i, 20+60*i, nm, flags, v)
            if t is None:
                tr, s, off = None, 1, (0, 0)
            elif t[0] == "t":
                tr, s, off = [trafo.translate_pt(t[1], t[2])], 1, (t[1], t[2])
            elif t[0] == "s":
                tr, s, off = [trafo.scale(t[1], t[2])], t[1], (0, 0)
            else:
                tr, s, off = [trafo.translate_pt(3, 4).scaled(t[1], t[2])], t[1], (3*t[1], 4*t[1])
            c.insert(it, tr or [])
            w.append((kind, nm, flags, v, [[s*x+off[j % 2] for j, x in enumerate(r)] for r in rects]))
        want.append(w)
        doc.append(document.page(c))
    f = io.BytesIO()
    doc.writePDFfile(f, **opts)
    pdf = machines.PDF(f.getvalue())
    cat = pdf.get(pdf.trailer["Root"])
    form = pdf.get(cat["AcroForm"])
    fields = [pdf.get(x) for x in pdf.get(form["Fields"])]
    allw = [x for w in want for x in w]
    require(len(fields) == len(allw), "%d fields instead of %d", len(fields), len(allw))
    for fd, (kind, nm, flags, v, rects) in zip(fields, allw):
        for k in ("T", "TU", "TM"):
            require(decodetext(fd[k]) == nm, "name %r instead of %r", fd[k], nm)
        require(fd["FT"] == {"text": "Tx", "choice": "Ch"}.get(kind, "Btn"), "field type %r of %s", fd["FT"], kind)
        if kind in ("text", "choice"):
            require(decodetext(fd["V"]) == v, "value %r instead of %r", fd["V"], v)
        if kind == "choice":
            require([decodetext(x) for x in fd["Opt"]] == ["one", v, "(", "é"], "choices %r", fd["Opt"])
    for i, (pg, w) in enumerate(zip(pdf.pages(), want)):
        an = [pdf.get(a) for a in pdf.get(pg["Annots"])] if "Annots" in pg else []
        n = sum(len(x[4]) for x in w)
        require(len(an) == n, "page %d has %d annotations instead of %d", i+1, len(an), n)
        exp = [(kind, nm, flags, v, r, j) for kind, nm, flags, v, rects in w for j, r in enumerate(rects)]
        for a, (kind, nm, flags, v, r, j) in zip(an, exp):
            require(a["Type"] == "Annot" and a["Subtype"] == "Widget", "annotation %r", a)
            require(max(abs(x-y) for x, y in zip(a["Rect"], r)) < 1e-4, "page %d: %s at %r instead of %r", i+1, kind, a["Rect"], r)
            on = {k for k in KINDS[kind] if flags.get(k, k in DEFAULTS[kind])}
            if kind == "radio":
                on.add("radio")
            require(a.get("F", 0) == sum(1 << ANN[k] for k in on if k in ANN), "annotation flags %r for %r", a.get("F"), sorted(on))
            require(a.get("Ff", 0) == sum(1 << FRM[k] for k in on if k in FRM), "field flags %r for %r", a.get("Ff"), sorted(on))
            if kind == "text" and v:
                want_ = [x for x in v.split("\n") if x] or [""]
                require(appearance(pdf, a["AP"]["N"]) == want_, "appearance shows %r instead of %r", appearance(pdf, a["AP"]["N"]), want_)
            if kind in ("check", "radio"):
                ap = pdf.get(a["AP"]["N"])
                states = set(ap) - {"Off"}
                require(len(states) == 1 and "Off" in ap, "states %r", ap)
                st = states.pop()
                ison = bool(v) if kind == "check" else v == ["first", "second one", "third"][j]
                require(a["AS"] == (st if ison else "Off"), "state %r", a["AS"])
                require(len(appearance(pdf, ap[st])) == 2 and len(appearance(pdf, ap["Off"])) == 1, "appearances")
                parent = pdf.get(a["Parent"])
                require(decodetext(parent["T"]) == nm and any(pdf.get(x) is a for x in parent["Kids"]), "parent of the button")
                if ison:
                    require(parent["V"] == st, "value %r instead of %r", parent["V"], st)
                if not v:
                    require(parent.get("V", "Off") == "Off", "value %r", parent.get("V"))
    return [(k, n_, sorted(fl), v, rnd(r)) for k, n_, fl, v, r in allw] + [len(w) for w in want]


# ------------------------------------------------------------ files of any size
def gen_size(tier):
    for n in list(range(1, 130)) + [500, 999, 1000, 1001, 5000]:
        yield ("pages", n) if n < 500 else ("lines", n)
    for n in (1, 9, 10, 11, 99, 100, 101):
        yield ("fonts", n)


def run_size(case):
    kind, n = case
    doc = document.document()
    it = Items()
    if kind == "pages":
        for i in range(n):
            c = canvas.canvas()
            c.stroke(path.line_pt(i, 2*i, 3*i+1, 5))
            doc.append(document.page(c))
        f = io.BytesIO()
        doc.writePDFfile(f)
        pdf = machines.PDF(f.getvalue())
        for i, pg in enumerate(pdf.pages()):
            m = pdf.marks(pg)
            require(len(m) == 1 and rnd(m[0].path[0][1][0]) == rnd([(i, 2*i), (3*i+1, 5)]), "page %d shows %r", i, m)
    elif kind == "lines":
        c = canvas.canvas()
        for i in range(n):
            c.stroke(path.line_pt(i, 2*i, 3*i+1, 5))
        doc.append(document.page(c))
        f = io.BytesIO()
        doc.writePDFfile(f)
        pdf = machines.PDF(f.getvalue())
        require(len(pdf.marks(pdf.pages()[0])) == n, "marks missing")
    else:
        c = canvas.canvas()
        for i in range(n):
            c.insert(bitmap.bitmap_pt(i, i, img("L", 1+i % 7, 1+i // 7, i), width_pt=3, height_pt=5))
        doc.append(document.page(c))
        f = io.BytesIO()
        doc.writePDFfile(f)
        pdf = machines.PDF(f.getvalue())
        m = pdf.marks(pdf.pages()[0])
        require(len(m) == n, "marks missing")
        for i, x in enumerate(m):
            require(x.xobject.dict["Width"] == 1+i % 7 and x.xobject.data() == img("L", 1+i % 7, 1+i // 7, i).data, "image %d is another one", i)
    return (kind, n, len(pdf.objs))


def spaces(tier):
    return [
        Space("documents", lambda: gen_docs(tier), run_docs, "16 items: all pages of 1 and 2 items, two-page documents, with 6 option sets; documents of 3 items on 1 to 3 pages; 4-page documents of all items"),
        Space("information", lambda: gen_info(tier), run_info, "all strings of 1 and 2 of 32 characters (3 in the thorough tier) in four fields"),
        Space("date", lambda: gen_date(tier), run_date, "11 time zones x 8 source dates"),
        Space("forms", lambda: gen_forms(tier), run_forms, "4 kinds of fields: all flag subsets up to 2 (3), values, names; all pairs of kinds and transformations on 1 to 3 pages; fill styles"),
        Space("sizes", lambda: gen_size(tier), run_size, "documents of 1 to 129 pages, up to 5000 paths, up to 101 images"),
    ]
