"""P11: pages place their content by the documented geometry."""
import io, itertools, logging, math, os, re, warnings
from mc import core, machines
from mc import geom as g
from mc.core import Space, require
from pyx import bbox, canvas, deco, document, path, style, trafo, unit

PROPERTY = "P11"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of page options (extent, paper, rotation, centring, fitting, margin, enlargement, explicit box, output format) and of documents of up to three pages, with the placement recovered from the marks in the written PS, EPS, PDF and SVG files by independent interpreters and compared with the documented geometry"
LEVEL_NOTE = "The full product of the page options over an alphabet of content extents and papers in all four output formats, and all documents of up to three pages from a pool of pages."
RULE = "A case is one page configuration in one output format, or one document; outcomes are the placements."
ASSUMPTIONS = ["The pages show filled and stroked triangles whose corners determine the affine map of the content."]

PT = 72/2.54
TOL = 6e-3

# content: corners of a triangle in pt
CONTENT = {"std": ((10, 20), (110, 30), (40, 170)), "wide": ((-300, -5), (900, 0), (20, 35)), "tall": ((5, -600), (25, 700), (0, 30)),
           "far": ((2000, -1500), (2100, -1400), (2010, -1350)), "small": ((0, 0), (0.5, 0.125), (0.25, 0.75)), "neg": ((-70, -90), (-20, -30), (-65, -25)),
           "huge": ((-2000, 100), (3000, 200), (100, 4100))}
PAPERS = {"none": None, "A4": (595.2755905511812, 841.8897637795276), "Letter": (612, 792), "wide": (300, 100), "tall": (100, 300), "square": (144, 144)}
PF = {"none": None, "A4": document.paperformat.A4, "Letter": document.paperformat.Letter, "wide": document.paperformat(300*unit.t_pt, 100*unit.t_pt, "wide"),
      "tall": document.paperformat(100*unit.t_pt, 300*unit.t_pt, "tall"), "square": document.paperformat(2*unit.t_inch, 2*unit.t_inch, "square")}
MARGINS = {"default": None, "0": 0, "30": 30, "60": 60, "49": 49.5}
BBE = {"default": None, "0": 0, "5": 5, "-1": -0.1}
BOXES = {"none": None, "inner": (20, 25, 60, 90), "outer": (-50, -10, 250, 400), "off": (500, 600, 550, 800)}


class Page:
    """one page configuration with its reference geometry"""

    def __init__(self, content, paper, rotated, centered, fit, margin, enlarge, box):
        self.content, self.paper, self.rotated, self.centered, self.fit = content, paper, rotated, centered, fit
        self.margin, self.enlarge, self.box = margin, enlarge, box
        self.pts = CONTENT[content] if content != "empty" else ()
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        e = 1 if BBE[enlarge] is None else BBE[enlarge]
        self.cbox = (min(xs), min(ys), max(xs), max(ys)) if self.pts else None
        if BOXES[box] is not None:
            self.pbox = BOXES[box]
        elif self.cbox is None:
            self.pbox = None
        else:
            self.pbox = (self.cbox[0]-e, self.cbox[1]-e, self.cbox[2]+e, self.cbox[3]+e)
        self.geometry()

    def geometry(self):
        self.error = False
        self.exceeds = False
        size = PAPERS[self.paper]
        m = 72/2.54 if MARGINS[self.margin] is None else MARGINS[self.margin]
        self.map = g.IDENT
        if size is None or self.pbox is None or not (self.rotated or self.centered or self.fit):
            return
        pw, ph = size
        t = (0, 1, -1, 0, 0, 0) if self.rotated else g.IDENT
        b = self.tbox(t, self.pbox)
        w, h = b[2]-b[0], b[3]-b[1]
        if self.centered or self.fit:
            s = 1
            if self.fit:
                if 2*m > pw or 2*m > ph:
                    self.error = True
                    return
                s = min((pw-2*m)/w, (ph-2*m)/h)
            else:
                self.exceeds = w > pw or h > ph
            t = g.mul((s, 0, 0, s, 0, 0), t)
            b = self.tbox(t, self.pbox)
            t = g.mul(g.translate(pw/2-(b[0]+b[2])/2, ph/2-(b[1]+b[3])/2), t)
        else:
            t = g.mul(g.translate(pw, 0), t)
        self.map = t

    @staticmethod
    def tbox(t, b):
        p = [g.app(t, c) for c in ((b[0], b[1]), (b[0], b[3]), (b[2], b[1]), (b[2], b[3]))]
        xs, ys = [q[0] for q in p], [q[1] for q in p]
        return (min(xs), min(ys), max(xs), max(ys))

    def marks(self):
        return [g.app(self.map, p) for p in self.pts]

    def bbox(self):
        """page box in the output: an explicit box as given, otherwise the content is included in any case"""
        if self.pbox is None:
            return None
        b = self.tbox(self.map, self.pbox)
        if BOXES[self.box] is None:
            c = self.tbox(self.map, self.cbox)
            b = (min(b[0], c[0]), min(b[1], c[1]), max(b[2], c[2]), max(b[3], c[3]))
        return b

    def canvas(self):
        c = canvas.canvas()
        if self.pts:
            (x0, y0), (x1, y1), (x2, y2) = self.pts
            c.fill(path.path(path.moveto_pt(x0, y0), path.lineto_pt(x1, y1), path.lineto_pt(x2, y2), path.closepath()))
        return c

    def kwargs(self):
        kw = {}
        if self.paper != "none": kw["paperformat"] = PF[self.paper]
        if self.rotated: kw["rotated"] = 1
        if not self.centered: kw["centered"] = 0
        if self.fit: kw["fittosize"] = 1
        if MARGINS[self.margin] is not None: kw["margin"] = MARGINS[self.margin]*unit.t_pt
        if BBE[self.enlarge] is not None: kw["bboxenlarge"] = BBE[self.enlarge]*unit.t_pt
        if BOXES[self.box] is not None: kw["bbox"] = bbox.bbox_pt(*BOXES[self.box])
        return kw


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


def logged(f):
    h = Log()
    lg = logging.getLogger("pyx")
    lg.addHandler(h)
    old = lg.propagate, lg.level, logging.root.manager.disable
    lg.propagate = False
    lg.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        return f(), h.msgs
    finally:
        lg.removeHandler(h)
        lg.propagate = old[0]
        lg.setLevel(old[1])
        logging.disable(old[2])


def triangle(ms, want):
    if not want:
        require(ms == [], "marks of an empty page: %r", ms)
        return
    require(len(ms) == 1 and ms[0].op == "fill" and len(ms[0].path) == 1, "marks %r", ms)
    got = [s[0] for s in ms[0].path[0][1]]
    require(len(got) == 3, "corners %r", got)
    scale = max(1, max(abs(v) for p in want for v in p)/1000)
    for p, q in zip(got, want):
        require(abs(p[0]-q[0]) <= TOL*scale and abs(p[1]-q[1]) <= TOL*scale, "corner at %r instead of %r", p, q)


def samebox(what, got, want, tol=TOL):
    scale = max(1, max(abs(v) for v in want)/1000)
    require(all(abs(x-y) <= tol*scale for x, y in zip(got, want)), "%s %r instead of %r", what, got, want)


def lowres(what, got, want):
    for i, (x, y) in enumerate(zip(got, want)):
        require(x == int(x), "%s %r", what, got)
        r = math.floor if i < 2 else math.ceil
        require(x in (r(y-TOL), r(y), r(y+TOL)), "%s %r instead of the rounded %r", what, got, want)


def header(data):
    h = {}
    for l in data.decode("latin1").split("\n"):
        m = re.match(r"%%(\w+): ?(.*)", l)
        if m:
            h.setdefault(m.group(1), []).append(m.group(2))
        if l.startswith("%%EndComments"):
            break
    return h


def box(s):
    return tuple(float(x) for x in s.split())


def ckeps(data, p):
    triangle(machines.psmarks(data), p.marks())
    h = header(data)
    b = p.bbox()
    if b is None:
        require("BoundingBox" not in h, "bounding box %r of an empty page", h.get("BoundingBox"))
        return
    require(len(h.get("BoundingBox", ())) == 1 and len(h.get("HiResBoundingBox", ())) == 1, "header %r", h)
    lowres("bounding box", box(h["BoundingBox"][0]), b)
    samebox("bounding box", box(h["HiResBoundingBox"][0]), b, 6e-3)


def ckps(data, ps, writebbox):
    m = machines.PS(data).run()
    require(not m.stack and not m.gstack and not m.marks, "rests at the end: %r", m.stack)
    require(len(m.pages) == len(ps), "%d pages instead of %d", len(m.pages), len(ps))
    for ms, p in zip(m.pages, ps):
        triangle(ms, p.marks())
    h = header(data)
    require(h["Pages"] == [str(len(ps))], "Pages %r", h["Pages"])
    boxes = [p.bbox() for p in ps]
    some = [b for b in boxes if b is not None]
    if writebbox and some:
        d = tuple(f(b[i] for b in some) for i, f in enumerate((min, min, max, max)))
        lowres("bounding box", box(h["BoundingBox"][0]), d)
        samebox("bounding box", box(h["HiResBoundingBox"][0]), d)
    else:
        require("BoundingBox" not in h, "bounding box %r", h.get("BoundingBox"))
    parts = re.split(r"^%%Page: ", data.decode("latin1"), flags=re.M)[1:]
    require(len(parts) == len(ps), "%d page comments", len(parts))
    for part, p, b in zip(parts, ps, boxes):
        c = part[:part.index("%%BeginPageSetup")]
        mm = re.search(r"^%%PageBoundingBox: (.*)$", c, re.M)
        if writebbox and b is not None:
            require(mm is not None, "no page bounding box")
            lowres("page bounding box", box(mm.group(1)), b)
        else:
            require(mm is None, "page bounding box")
        mm = re.search(r"^%%PageMedia: (.*)$", c, re.M)
        require((mm and mm.group(1)) == (None if p.paper == "none" else p.paper), "medium %r of a page on %s", mm and mm.group(1), p.paper)
        mm = re.search(r"^%%PageOrientation: (.*)$", c, re.M)
        require(mm.group(1) == ("Landscape" if p.rotated else "Portrait"), "orientation %r", mm.group(1))
    media = h.get("DocumentMedia", [])
    require(len(media) <= 1, "%d times DocumentMedia", len(media))
    more = re.findall(r"^%%\+ (.*)$", data.decode("latin1").split("%%EndComments")[0], re.M)
    got = {}
    for l in media+more:
        n, w, hh = l.split()[:3]
        require(n not in got, "medium %s is declared twice", n)
        got[n] = (float(w), float(hh))
    want = {p.paper: PAPERS[p.paper] for p in ps if p.paper != "none"}
    require(set(got) == set(want), "media %r instead of %r", got, want)
    for n in want:
        require(all(abs(x-y) < 1 for x, y in zip(got[n], want[n])), "medium %s of size %r instead of %r", n, got[n], want[n])


def ckpdf(data, ps, writebbox):
    pdf = machines.PDF(data)
    pages = pdf.pages()
    require(len(pages) == len(ps), "%d pages instead of %d", len(pages), len(ps))
    for pg, p in zip(pages, ps):
        triangle(pdf.marks(pg), p.marks())
        b = p.bbox()
        mb = pdf.get(pg["MediaBox"])
        if p.paper != "none":
            samebox("media box", mb, (0, 0)+PAPERS[p.paper], 1e-4)
            require(pg.get("Rotate", 0) == (90 if p.rotated else 0), "page rotation %r", pg.get("Rotate"))
        elif b is not None:
            samebox("media box", mb, b, 1e-4)
        if writebbox and b is not None:
            samebox("crop box", pdf.get(pg["CropBox"]), b, 1e-4)
        else:
            require("CropBox" not in pg, "crop box")


def cksvg(data, p):
    s = machines.SVG(data)
    triangle(s.marks, p.marks())
    b = p.bbox()
    if b is None:
        require(s.viewbox is None, "view box %r of an empty page", s.viewbox)
        return
    v = s.viewbox
    samebox("view box", (v[0], -v[1]-v[3], v[0]+v[2], -v[1]), b)
    for k, x in (("width", b[2]-b[0]), ("height", b[3]-b[1])):
        a = s.root.attrib[k]
        require(a.endswith("pt"), "size %r", a)
        samebox(k, [float(a[:-2])], [x])


def out(method, *args, **kw):
    f = io.BytesIO()
    r, msgs = logged(lambda: method(f, *args, **kw))
    return f.getvalue(), msgs


def configs(full):
    for content in (list(CONTENT) + ["empty"]):
        for paper in PAPERS:
            for rotated in (0, 1):
                for centered in (0, 1):
                    for fit in (0, 1):
                        for margin in (MARGINS if fit and paper != "none" else ["default"]):
                            for enlarge in (BBE if content != "empty" else ["default"]):
                                for b in BOXES:
                                    if b != "none" and (enlarge not in ("default", "5") or (not full and margin not in ("default", "30"))):
                                        continue
                                    if not full and content in ("neg", "huge", "tall") and (margin not in ("default", "30") or enlarge not in ("default", "5")):
                                        continue
                                    yield (content, paper, rotated, centered, fit, margin, enlarge, b)


def space_single(tier):
    def gen():
        for c in configs(tier == "thorough"):
            for fmt in ("EPS", "PS", "PSb", "PDF", "PDFb", "SVG"):
                yield c+(fmt,)

    def run(case):
        fmt = case[-1]
        p = Page(*case[:-1])
        c = p.canvas()
        kw = p.kwargs()
        given = kw["bbox"].copy() if "bbox" in kw else None
        pg = document.page(c, **kw)
        d = document.document([pg])
        meth = {"EPS": d.writeEPSfile, "PS": d.writePSfile, "PSb": d.writePSfile, "PDF": d.writePDFfile, "PDFb": d.writePDFfile, "SVG": d.writeSVGfile}[fmt]
        wkw = {"writebbox": True} if fmt.endswith("b") else {}
        try:
            data, msgs = out(meth, **wkw)
        except ValueError as e:
            require(p.error, "%s is raised", e)
            return ("margin", fmt)
        require(not p.error, "margins broader than the paper are accepted")
        if fmt == "EPS": ckeps(data, p)
        if fmt in ("PS", "PSb"): ckps(data, [p], fmt == "PSb")
        if fmt in ("PDF", "PDFb"): ckpdf(data, [p], fmt == "PDFb")
        if fmt == "SVG": cksvg(data, p)
        require(bool(msgs) == p.exceeds, "warnings %r for content %s the paper", msgs, "exceeding" if p.exceeds else "within")
        if given is not None:
            require(kw["bbox"].highrestuple_pt() == given.highrestuple_pt(), "the box given is altered")
        if c.bbox():
            b = c.bbox().highrestuple_pt()
            samebox("canvas box", b, p.cbox, 1e-9)
        return tuple(round(x, 2) for x in p.map)+(fmt, p.paper)
    return Space("single", gen, run, dict(extents=len(CONTENT)+1, papers=len(PAPERS), margins=len(MARGINS), enlargements=len(BBE), boxes=len(BOXES), formats=6))


POOL = [("std", "none", 0, 1, 0, "default", "default", "none"), ("std", "A4", 0, 1, 0, "default", "default", "none"), ("wide", "A4", 1, 1, 0, "default", "0", "none"),
        ("neg", "wide", 0, 0, 1, "30", "5", "none"), ("small", "tall", 1, 0, 1, "0", "default", "none"), ("std", "Letter", 1, 0, 0, "default", "default", "none"),
        ("far", "A4", 0, 1, 1, "default", "default", "none"), ("empty", "A4", 0, 1, 0, "default", "default", "none"), ("std", "square", 0, 0, 0, "default", "default", "inner"),
        ("std", "square", 0, 1, 0, "default", "default", "off"), ("empty", "none", 0, 1, 0, "default", "default", "none"), ("neg", "none", 1, 0, 0, "default", "5", "outer")]


def space_documents(tier):
    n = len(POOL)

    def gen():
        for k in (0, 1, 2, 3):
            for t in itertools.product(range(n), repeat=k):
                if tier == "quick" and k == 3 and sum(t) % 2:
                    continue
                for fmt in ("PS", "PSb", "PDF", "PDFb"):
                    yield (t, fmt, 0)
                if k > 1 and t[0] == t[1]:
                    for fmt in ("PSb", "PDFb"):
                        yield (t, fmt, 1)
                if k != 1:
                    yield (t, "EPS", 0)
                    yield (t, "SVG", 0)

    def run(case):
        t, fmt, shared = case
        ps = [Page(*POOL[i]) for i in t]
        if shared:      # the same canvas and page objects used several times
            objs = {}
            pages = []
            for i, p in zip(t, ps):
                if i not in objs:
                    objs[i] = document.page(p.canvas(), **p.kwargs())
                pages.append(objs[i])
            d = document.document(pages)
        else:
            d = document.document()
            for p in ps:
                d.append(document.page(p.canvas(), **p.kwargs()))
        if fmt in ("EPS", "SVG"):
            try:
                out(getattr(d, "write%sfile" % fmt))
            except ValueError:
                return (fmt, "rejected", len(t))
            require(False, "%s file of %d pages", fmt, len(t))
        meth = d.writePSfile if fmt.startswith("PS") else d.writePDFfile
        data, msgs = out(meth, **({"writebbox": True} if fmt.endswith("b") else {}))
        (ckps if fmt.startswith("PS") else ckpdf)(data, ps, fmt.endswith("b"))
        return (tuple(sorted(t)), fmt, shared)
    return Space("documents", gen, run, dict(pool=n, pages=3))


def space_entry(tier):
    """the ways to write a single canvas: document methods, canvas methods with prefixed arguments, file names and suffixes"""
    def gen():
        for i, c in enumerate(POOL):
            for fmt in ("EPS", "PS", "PDF", "SVG"):
                for way in ("canvas", "implicit", "name", "suffix", "writetofile", "docwritetofile", "string"):
                    yield (i, fmt, way)

    def run(case):
        i, fmt, way = case
        p = Page(*POOL[i])
        c = p.canvas()
        kw = p.kwargs()
        n = 0
        if way == "string":
            if p.paper not in ("A4", "Letter"):
                return None
            kw["paperformat"] = {0: p.paper, 1: p.paper.lower()}[i % 2]
            n = 1
        wkw = {"write_writebbox": True} if fmt in ("PS", "PDF") else {}
        pkw = {("page_"+k if way != "implicit" else k): v for k, v in kw.items()}
        ext = fmt.lower()
        name = os.path.join(os.environ["MC_SCRATCH"], "p11-%d" % os.getpid())
        full = name+"."+ext
        meth = getattr(c, "write%sfile" % fmt)
        if way == "name":
            r, msgs = logged(lambda: meth(full, **pkw, **wkw))
        elif way == "suffix":
            r, msgs = logged(lambda: meth(name, **pkw, **wkw))
        elif way == "writetofile":
            r, msgs = logged(lambda: c.writetofile(full, **pkw, **wkw))
        elif way == "docwritetofile":
            d = document.document([document.page(c, **kw)])
            r, msgs = logged(lambda: d.writetofile(full, **{k[6:]: v for k, v in wkw.items()}))
        else:
            data, msgs = out(meth, **pkw, **wkw)
        if way == "implicit":
            n += len(kw)
        require(len(msgs) == n+p.exceeds, "warnings %r", msgs)
        if way in ("name", "suffix", "writetofile", "docwritetofile"):
            with open(full, "rb") as f:
                data = f.read()
            os.unlink(full)
        if fmt == "EPS": ckeps(data, p)
        if fmt == "PS": ckps(data, [p], True)
        if fmt == "PDF": ckpdf(data, [p], True)
        if fmt == "SVG": cksvg(data, p)
        return (i, fmt, way)
    return Space("entry", gen, run, dict(pages=len(POOL), ways=7))


def space_papers(tier):
    """the predefined papers"""
    MM = 72/25.4
    want = {"A4": (210*MM, 297*MM), "A3": (297*MM, 420*MM), "A2": (420*MM, 594*MM), "A1": (594*MM, 841*MM), "A0": (841*MM, 1189*MM), "A5": (148*MM, 210*MM), "Letter": (612, 792), "Legal": (612, 1008)}

    def gen():
        for n in want:
            for fmt in ("PS", "PDF"):
                for scale in (1, 2):
                    yield (n, fmt, scale)

    def run(case):
        n, fmt, scale = case
        p = Page("std", "none", 0, 1, 0, "default", "default", "none")
        c = p.canvas()
        pf = getattr(document.paperformat, n)
        unit.set(uscale=scale)       # paper sizes do not scale with the user units
        try:
            data, msgs = out(getattr(c, "write%sfile" % fmt), page_paperformat=pf)
        finally:
            unit.set(uscale=1)
        w, h = want[n]
        if fmt == "PDF":
            pdf = machines.PDF(data)
            b = pdf.get(pdf.pages()[0]["MediaBox"])
            ms = pdf.marks(pdf.pages()[0])
        else:
            l = header(data)["DocumentMedia"][0].split()
            require(l[0] == n, "medium %s", l[0])
            b = (0, 0, float(l[1]), float(l[2]))
            ms = machines.PS(data).run().pages[0]
        # the series of PyX is a chain of exact halves, the standard has whole millimetres
        require(b[0] == b[1] == 0 and abs(b[2]-w) <= 1.5*MM and abs(b[3]-h) <= 1.5*MM, "paper %s has the size %r instead of %r", n, b, (w, h))
        pts = [s[0] for s in ms[0].path[0][1]]
        cx = (min(q[0] for q in pts)+max(q[0] for q in pts))/2
        cy = (min(q[1] for q in pts)+max(q[1] for q in pts))/2
        require(abs(cx-b[2]/2) < 0.6 and abs(cy-b[3]/2) < 0.6, "centre at %r", (cx, cy))
        return (n, fmt, scale)
    return Space("papers", gen, run, dict(papers=len(want)))


def space_stroke(tier):
    """stroked content: line width, miter and clipping enter the page box; nested canvases"""
    ITEMS = ["stroke", "thick", "clip", "nested", "text-free", "shift"]

    def gen():
        for k in ITEMS:
            for fmt in ("EPS", "PDFb", "SVG", "PSb"):
                for conf in (0, 1, 2):
                    for e in ("default", "0", "5"):
                        yield (k, fmt, conf, e)

    def run(case):
        k, fmt, conf, e = case
        c = canvas.canvas()
        l = path.line_pt(10, 20, 110, 80)
        if k == "stroke":
            c.stroke(l, [style.linewidth(4*unit.t_pt)])
        elif k == "thick":
            c.stroke(path.rect_pt(0, 0, 50, 30), [style.linewidth(10*unit.t_pt), style.linejoin.miter])
        elif k == "clip":
            cc = canvas.canvas([canvas.clip(path.rect_pt(20, 20, 30, 15))])
            cc.fill(path.rect_pt(0, 0, 100, 100))
            c.insert(cc)
        elif k == "nested":
            cc = canvas.canvas([trafo.rotate(30), trafo.scale(1.5)])
            cc.fill(path.rect_pt(5, 6, 40, 30))
            c.insert(cc, [trafo.translate_pt(7, 9)])
        elif k == "text-free":
            c.fill(path.circle_pt(30, 40, 25))
        else:
            c.fill(path.rect_pt(-40, -30, 20, 10), [trafo.translate_pt(100, 200)])
        b = c.bbox().highrestuple_pt()
        kw = [dict(), dict(paperformat=PF["A4"]), dict(paperformat=PF["wide"], rotated=1, fittosize=1, margin=10*unit.t_pt)][conf]
        p = Page.__new__(Page)
        p.content, p.paper, p.rotated, p.centered, p.fit = k, ["none", "A4", "wide"][conf], int(conf == 2), 1, int(conf == 2)
        p.margin, p.enlarge, p.box = "m", e, "none"
        MARGINS["m"] = 10
        ee = 1 if BBE[e] is None else BBE[e]
        p.cbox = b
        p.pbox = (b[0]-ee, b[1]-ee, b[2]+ee, b[3]+ee)
        p.geometry()
        pk = dict(kw)
        if BBE[e] is not None:
            pk["bboxenlarge"] = BBE[e]*unit.t_pt
        d = document.document([document.page(c, **pk)])
        meth = {"EPS": d.writeEPSfile, "PSb": d.writePSfile, "PDFb": d.writePDFfile, "SVG": d.writeSVGfile}[fmt]
        data, msgs = out(meth, **({"writebbox": True} if fmt.endswith("b") else {}))
        w = p.bbox()
        lw = {"stroke": 4, "thick": 10}.get(k, 0)/2      # the output takes the line width into account
        sb = p.tbox(p.map, (b[0]-lw, b[1]-lw, b[2]+lw, b[3]+lw))
        w = (min(w[0], sb[0]), min(w[1], sb[1]), max(w[2], sb[2]), max(w[3], sb[3]))
        if fmt in ("EPS", "PSb"):
            h = header(data)
            lowres("bounding box", box(h["BoundingBox"][0]), w)
            samebox("bounding box", box(h["HiResBoundingBox"][0]), w)
            ms = machines.PS(data).run().pages[0]
        elif fmt == "PDFb":
            pdf = machines.PDF(data)
            samebox("crop box", pdf.get(pdf.pages()[0]["CropBox"]), w)
            ms = pdf.marks(pdf.pages()[0])
        else:
            s = machines.SVG(data)
            v = s.viewbox
            samebox("view box", (v[0], -v[1]-v[3], v[0]+v[2], -v[1]), w)
            ms = s.marks
        tol = 0.05 if fmt == "SVG" else TOL     # rounded end points of half circles in SVG
        for m in ms:
            for cl, sg in m.path:
                for q in sg:
                    if k != "clip":
                        require(all(w[0]-tol <= x <= w[2]+tol and w[1]-tol <= y <= w[3]+tol for x, y in (q[0], q[-1])), "mark at %r outside of %r", q, w)
        return case
    return Space("stroke", gen, run, dict(items=len(ITEMS)))


def spaces(tier):
    return [space_single(tier), space_documents(tier), space_entry(tier), space_papers(tier), space_stroke(tier)]
