"""P31: output depends on the drawing only."""
import functools, hashlib, io, itertools, json, os, pickle, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from mc import core, t1
from mc.core import Space, TRACE, require

os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
import pyx
from pyx import attr, bbox, bitmap, box, canvas, color, connector, deco, deformer, document, epsfile, graph, mesh, path, pattern, pdfextra, style, svgfile, text, trafo, unit
from pyx.graph import axis, data
from pyx.metapost import path as mp
from checks import p12

PROPERTY = "P31"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all bounded histories of operations on a catalogue of drawings in one process, every written file compared byte by byte with the one a fresh process writes for the drawing alone"
LEVEL_NOTE = "All sequences of up to two (thorough: three) operations (queries, writing in each format and with other options, use within other canvases, drawing something else) on each drawing, all ordered pairs of drawings made of the same objects, and all drawings in several orders under several hash seeds."
RULE = "A case is one history; the states visited are the pairs of drawing and history prefix; outcomes are digests of the files."
ASSUMPTIONS = ["Identifiers derived from object addresses (patterns, clip paths, shadings) are renamed in order of appearance; stream lengths and cross references are not compared where such names occur.",
               "The creation date is fixed by SOURCE_DATE_EPOCH."]

P = lambda *pts: path.path(path.moveto_pt(*pts[0]), *[path.lineto_pt(*p) for p in pts[1:]])

HOST = b"""%!PS-Adobe-3.0 EPSF-3.0
%%BoundingBox: 0 0 30 20
%%EndComments
newpath 1 2 moveto 12 5 lineto stroke
%%EOF
"""
SVG = b"""<?xml version="1.0"?><svg xmlns="http://www.w3.org/2000/svg" width="40pt" height="30pt" viewBox="0 0 40 30">
<rect x="3" y="4" width="11" height="9" fill="red" stroke="blue"/><path d="M1 1C5 9 12 3 30 25z" fill="none" stroke="#080" stroke-width="2"/></svg>"""


def scratch(name, data):
    fn = os.path.join(os.environ["MC_SCRATCH"], name)
    tmp = "%s.%d" % (fn, os.getpid())
    with open(tmp, "wb") as f:
        f.write(data)
    os.rename(tmp, fn)
    return fn


class Kit:
    """objects shared by drawings"""

    def __init__(self):
        self.thick = [style.linewidth.THICK, color.rgb.red]
        self.dashed = [style.linestyle.dashed, color.cmyk.Blue, style.linejoin.round]
        self.filled = [deco.filled([color.gray(0.8)]), deco.stroked([color.rgb.blue]), style.linewidth.Thick]
        self.arrows = [deco.earrow.large([deco.filled([color.rgb.green])]), deco.barrow.small]
        self.line = P((1, 2), (33, 9), (41, 52))
        self.curve = path.curve_pt(0, 0, 31, 4, 17, 45, 61, 38)
        self.closed = path.path(path.moveto_pt(3, 3), path.lineto_pt(37, 5), path.arc_pt(30, 30, 11, 10, 100), path.closepath())
        self.norm = path.circle_pt(20, 20, 13).normpath()
        self.trafo = trafo.rotate(25).scaled(1.3, 0.7)
        self.clip = canvas.clip(path.circle_pt(20, 15, 14))
        self.smooth = deformer.smoothed(7*unit.t_pt)
        self.par = deformer.parallel(4*unit.t_pt)
        self.hatch = pattern.hatched45.large
        self.pat = pattern.pattern()
        self.pat.stroke(P((1, 1), (6, 7)), [color.rgb(0.2, 0.4, 0.6)])
        self.pat.fill(path.rect_pt(3, 0, 2, 2), [color.gray(0.3)])
        self.im = p12.img("RGB", 3, 2)
        self.palim = p12.img("P", 3, 3, palette=bitmap.palette("RGB", bytes(range(20, 29))))
        self.alpha = p12.img("RGBA", 2, 3, 9)
        self.shade = p12.makemesh([color.rgb(0, 0.5, 1), color.rgb(1, 0, 0), color.rgb(0, 1, 0), color.rgb(0.5, 0.5, 0)], 10)
        self.boxes = box.rect(0, 0, 1, 0.7), box.polygon([(3, 2), (4, 2.5), (3.2, 3.3)])
        self.conn = connector.arc(self.boxes[0], self.boxes[1], boxdists=[0.1, 0.2], relangle=30)
        self.eps = scratch("p31.eps", HOST)
        self.svg = scratch("p31.svg", SVG)
        self.points = [(1, 2, 0.3, 0.5), (2, 5, 0.2, 0.1), (3, 3.5, 0.4, 0.9), (4, 9, 0.1, 0.4), (5, 7, 0.6, 0.7)]
        self.data = data.points(self.points, x=1, y=2, dy=3, color=4, title="points")
        self.data2 = data.points([(x, 12-y, d, c) for x, y, d, c in self.points], x=1, y=2, dy=3, color=4, title="others")
        self.func = data.function("y(x)=1+x**2/3", title=None, points=13)
        self.param = data.paramfunction("k", 0.1, 6, "x, y = 3+2*cos(k), 5+3*sin(k)", points=17)
        self.sub = data.function("y(x)=a*x", context=dict(a=1.7), points=7)
        self.xaxis = axis.lin(title="abscissa", divisor=2)
        self.yaxis = axis.lin(min=0, max=11, title="ordinate")
        self.logaxis = axis.log(title="decades")
        self.baraxis = axis.bar(title="bars")
        self.styles = [graph.style.symbol(graph.style.symbol.changesquare, symbolattrs=[deco.filled([color.rgb.green])]), graph.style.errorbar()]
        self.lines = [graph.style.line([color.gradient.Rainbow, style.linewidth.Thick])]
        self.cycle = [graph.style.line([attr.changelist([style.linestyle.solid, style.linestyle.dotted]), attr.changelist([color.rgb.red, color.rgb.blue, color.rgb.green])])]
        self.key = graph.key.key(pos="tl", dist=0.2)
        self.gradient = color.rgbgradient(color.lineargradient_rgb(color.rgb.red, color.rgb.blue))
        self.grid = [(x, y, (x-1.3)*(y+0.4), x*y % 5) for x in range(4) for y in range(3)]
        self.textattrs = [text.halign.center, text.size.large, color.rgb.blue]
        self.mp = [mp.beginknot(0, 0), mp.curve(), mp.smoothknot(1, 1.3), mp.tensioncurve(), mp.roughknot(2, 0), mp.curve(), mp.endknot(3, 1)]

    @functools.cached_property
    def t1(self):
        return p12.font()["own"]

    @functools.cached_property
    def uni(self):
        return text.UnicodeEngine()

    @functools.cached_property
    def tex(self):
        return text.TexEngine()

    @functools.cached_property
    def shapes(self):
        c = canvas.canvas([self.trafo])
        c.stroke(self.line, self.thick)
        c.fill(self.closed, [color.hsb(0.3, 0.5, 0.9)])
        return c


def C(*stroke):
    c = canvas.canvas()
    for p, a in stroke:
        c.draw(p, a)
    return c


D = {}


def drawing(f):
    D[f.__name__] = f
    return f


@drawing
def strokes(k): return C((k.line, [deco.stroked]), (k.curve, [deco.stroked(k.thick)]), (k.norm, k.filled))
@drawing
def attrs(k):
    c = canvas.canvas()
    c.stroke(k.line, k.thick)
    c.stroke(k.curve, k.dashed + k.arrows)
    c.fill(k.closed, k.thick[1:])
    c.stroke(k.norm, k.thick + [style.dash([1, 2, 3]), style.miterlimit(3)])
    return c
@drawing
def arrows(k):
    c = canvas.canvas()
    c.stroke(k.curve, k.arrows)
    c.stroke(k.line, k.arrows + k.thick)
    c.draw(k.curve, [deco.filled(k.thick[1:]), deco.stroked(k.dashed)])
    return c
@drawing
def clipped(k):
    c = canvas.canvas([k.clip, k.trafo])
    c.fill(k.closed, k.thick[1:])
    c.insert(k.shapes, [k.clip])
    return c
@drawing
def layers(k):
    c = canvas.canvas()
    c.layer("front").stroke(k.line, k.thick)
    c.layer("back", below="front").fill(k.closed)
    c.layer("front.sub", above=None).insert(k.shapes)
    c.layer("back").stroke(k.curve, k.dashed)
    return c
@drawing
def nested(k):
    c = canvas.canvas()
    c.insert(k.shapes)
    c.insert(k.shapes, [trafo.translate_pt(50, 3), color.gray(0.5)])
    d = c.insert(canvas.canvas([trafo.scale(0.5)]))
    d.insert(k.shapes)
    return c
@drawing
def deformed(k):
    c = canvas.canvas()
    c.stroke(k.line, [k.smooth] + k.thick)
    c.stroke(k.line, [k.par, k.smooth])
    c.stroke(k.curve, [deformer.cycloid(2*unit.t_pt, skipfirst=0, skiplast=0)])
    return c
@drawing
def hatched(k):
    c = canvas.canvas()
    c.fill(k.closed, [k.hatch])
    c.fill(k.norm, [pattern.crosshatched45.Large])
    return c
@drawing
def patterns(k):
    c = canvas.canvas()
    c.fill(k.closed, [k.pat])
    c.fill(path.rect_pt(50, 0, 33, 20), [k.pat])
    c.fill(path.rect_pt(50, 30, 33, 20), [k.hatch, color.transparency(0.5)])
    return c
@drawing
def transparent(k):
    c = canvas.canvas()
    c.fill(k.closed, [color.transparency(0.3), color.rgb.red])
    c.stroke(k.line, k.thick + [color.transparency(0.7)])
    c.fill(k.norm, [color.transparency(0.3)])
    return c
@drawing
def bitmaps(k):
    c = canvas.canvas()
    c.insert(bitmap.bitmap_pt(0, 0, k.im, width_pt=30))
    c.insert(bitmap.bitmap_pt(40, 0, k.palim, height_pt=20, compressmode="Flate"))
    c.insert(bitmap.bitmap_pt(0, 40, k.im, width_pt=10, PSstoreimage=1))
    return c
@drawing
def alpha(k):
    c = canvas.canvas()
    c.insert(bitmap.bitmap_pt(0, 0, k.alpha, width_pt=30))
    c.insert(bitmap.bitmap_pt(40, 5, k.im, height_pt=25), [k.trafo])
    return c
@drawing
def included(k):
    c = canvas.canvas()
    c.insert(epsfile.epsfile(0, 0, k.eps))
    c.insert(epsfile.epsfile(2, 1, k.eps, width=1.5, align="cc"), [k.trafo])
    return c
@drawing
def meshes(k):
    c = canvas.canvas()
    c.insert(k.shade)
    c.insert(k.shade, [trafo.translate_pt(3, 40)])
    c.stroke(k.line)
    return c
@drawing
def boxes(k):
    c = canvas.canvas()
    for b in k.boxes:
        c.stroke(b.path(), k.thick)
    c.stroke(k.conn, k.arrows)
    c.stroke(connector.line(k.boxes[0], k.boxes[1], boxdists=[0.2, 0.1]))
    c.stroke(k.boxes[0].bbox().enlarged(0.1).path(), k.dashed)
    return c
@drawing
def glyphs(k):
    c = canvas.canvas()
    c.insert(k.t1.text_pt(3, 10, [65, 68, 65], 10, decoding=None))
    c.insert(k.t1.text_pt(3, 30, [66, 67], 12, decoding=None, slant=0.2), k.thick[1:])
    return c
@drawing
def unicode_(k):
    c = canvas.canvas()
    c.insert(k.uni.text(0, 0, "Handgloves ffi 12"))
    c.insert(k.uni.text(0, 1, "Quiz"), [color.rgb.red])
    return c
@drawing
def uniagain(k):
    c = canvas.canvas()
    c.insert(k.uni.text(0, 0, "zQui 12.5"))
    c.insert(text.UnicodeEngine(size=14).text(1, 1, "other"))
    return c
@drawing
def tex(k):
    c = canvas.canvas()
    c.insert(k.tex.text(0, 0, r"Handgloves $\int_0^1 x^2dx$", k.textattrs))
    c.insert(k.tex.text(1, 1, r"a longer paragraph of text", [text.parbox(2), text.valign.middle]))
    return c
@drawing
def texagain(k):
    c = canvas.canvas()
    t = k.tex.text(0, 0, r"\PyXMarker{a}ab\PyXMarker{b}", k.textattrs)
    c.insert(t)
    c.stroke(path.line(*t.marker("a"), *t.marker("b")), k.thick)
    c.insert(k.tex.text(1, 1, r"zQ"))
    c.stroke(t.bbox().path(), k.dashed)
    return c
@drawing
def texcolor(k):
    c = canvas.canvas()
    c.text(0, 0, r"default", k.textattrs)
    c.text(0, 1, r"raised", [text.vshift.mathaxis, text.size.tiny, trafo.rotate(30)])
    return c
@drawing
def decotext(k):
    c = canvas.canvas()
    c.draw(k.curve, [deco.stroked(k.thick), deco.curvedtext("around"), deco.text("label", relarclenpos=0.3)])
    return c
@drawing
def metapost(k):
    c = canvas.canvas()
    c.stroke(mp.path(k.mp), k.thick)
    c.stroke(mp.path(k.mp), [trafo.translate(1, 1), k.smooth])
    return c
@drawing
def ops(k):
    c = canvas.canvas()
    a, b = k.norm.intersect(k.closed)
    for s in k.norm.split(a):
        c.stroke(s, k.dashed)
    for s in k.closed.split(b):
        c.stroke(s, k.thick)
    c.stroke(k.line + k.curve)
    c.stroke(k.line << k.curve, [k.trafo])
    c.stroke(k.curve.reversed(), k.arrows)
    c.stroke(k.line.tangent(0.3, 1))
    return c
@drawing
def deco2(k):
    c = canvas.canvas()
    c.draw(k.closed, [deco.linehatched(0.15, 30, [color.rgb.green])])
    c.draw(k.line, [deco.brace(), deco.stroked(k.dashed)])
    c.draw(k.curve, [deco.colorgradient(k.gradient, steps=5), deco.stroked.clear])
    c.draw(k.norm, [deco.shownormpath()])
    return c
@drawing
def parsed(k):
    c = canvas.canvas()
    c.insert(svgfile.svgfile(0, 0, k.svg, parsed=True))
    c.insert(svgfile.svgfile(2, 1, k.svg, parsed=True), [k.trafo])
    return c
@drawing
def form(k):
    c = canvas.canvas()
    c.insert(pdfextra.textfield(0, 0, 3, 1, name="one", defaultvalue="text"))
    c.insert(pdfextra.checkbox(0, 2, name="check", defaulton=1))
    c.insert(pdfextra.radiobuttons([(0, 3), (1, 3)], name="radio", values=["a", "b"], defaultvalue="b"))
    c.insert(pdfextra.choicefield(0, 4, 3, 1, name="choice", values=["x", "y"], defaultvalue="x"))
    c.stroke(k.line)
    return c
@drawing
def gplain(k):
    g = graph.graphxy(width=5, x=k.xaxis, y=k.yaxis)
    g.plot(k.data)
    g.plot(k.func, k.cycle)
    return g
@drawing
def gdefault(k):
    g = graph.graphxy(width=4)
    g.plot([k.data, k.data2])
    g.plot(k.sub)
    return g
@drawing
def gkey(k):
    g = graph.graphxy(width=5, x=k.xaxis, key=k.key)
    g.plot([k.data, k.data2, k.data], k.styles)
    g.plot([k.func, k.param, k.sub], k.cycle)
    return g
@drawing
def glog(k):
    g = graph.graphxy(width=5, height=3, y=k.logaxis, x=k.xaxis, key=graph.key.key(pos="br", columns=2))
    g.plot([k.data, k.data2], k.lines)
    g.plot(k.func, k.cycle)
    return g
@drawing
def gsym(k):
    g = graph.graphxy(width=4, x=axis.lin(min=0, max=6), y=k.yaxis, key=k.key)
    g.plot([k.data, k.data2], [graph.style.symbol(), graph.style.line()])
    g.plot(k.data2, k.styles)
    return g
@drawing
def gbar(k):
    g = graph.graphxy(width=5, x=k.baraxis, key=k.key)
    g.plot([data.points(k.points, xname=1, y=2, title=None), data.points(k.points, xname=1, y=3, title="b")], [graph.style.bar([color.gradient.Rainbow])])
    return g
@drawing
def gstack(k):
    g = graph.graphxy(width=5, x=axis.bar(dist=0.2), y=k.yaxis)
    g.plot(data.points(k.points, xname=1, y=2, stack=3), [graph.style.bar(), graph.style.stackedbarpos("stack"), graph.style.bar([color.rgb.red])])
    return g
@drawing
def ghist(k):
    g = graph.graphxy(width=4, x=k.xaxis, y=k.yaxis)
    g.plot(k.data, [graph.style.histogram(k.filled)])
    g.plot(k.data2, [graph.style.impulses(k.dashed)])
    return g
@drawing
def gsurf(k):
    g = graph.graphxyz(size=3, x=k.xaxis, y=axis.lin(), z=axis.lin(title="height"), projector=graph.graphxyz.central(10, 30, 20))
    g.plot(data.points(k.grid, x=1, y=2, z=3, color=4), [graph.style.surface(gradient=k.gradient, backcolor=None)])
    return g
@drawing
def gdens(k):
    g = graph.graphxy(width=4, x=k.xaxis, y=axis.lin(min=0, max=2.3))
    g.plot(data.points(k.grid, x=1, y=2, color=4), [graph.style.density(gradient=color.gradient.Jet)])
    return g
@drawing
def ggrid(k):
    g = graph.graphxyz(size=2)
    g.plot(data.points(k.grid, x=1, y=2, z=3, color=4), [graph.style.grid(k.dashed)])
    return g
@drawing
def glink(k):
    c = canvas.canvas()
    g = c.insert(graph.graphxy(width=4, x=k.xaxis, y=k.yaxis))
    h = c.insert(graph.graphxy(width=4, ypos=g.height+0.5, x=axis.linkedaxis(g.axes["x"]), y=k.logaxis))
    g.plot(k.data, k.styles)
    h.plot(k.data2, k.cycle)
    c.stroke(g.xgridpath(3), k.dashed)
    c.stroke(path.line(*g.pos(1, 2), *h.pos(2, 5)), k.thick)
    return c
@drawing
def gsplit(k):
    g = graph.graphxy(width=5, x=axis.split(subaxes={0: axis.lin(max=2), 1: axis.lin(min=3)}), y=k.yaxis)
    g.plot(data.points([((int(x > 2), x), y) for x, y, d, c in k.points], x=1, y=2), k.cycle)
    return g
@drawing
def gpath(k):
    c = canvas.canvas()
    c.insert(axis.pathaxis(k.curve, axis.lin(min=0, max=7, title="along")))
    c.insert(axis.pathaxis(k.line, k.logaxis, direction=-1)) if False else None
    return c
@drawing
def gpartly(k):
    """a graph partly laid out while still being filled"""
    g = graph.graphxy(width=4, x=k.xaxis, y=k.yaxis, key=k.key)
    g.plot(k.data, k.styles)
    g.dolayout()
    g.doaxes()
    g.stroke(k.line, k.thick)
    g.finish()
    g.fill(k.norm, [color.rgb.green])
    return g
@drawing
def paged(k):
    d = document.document()
    for n, o in (("strokes", dict(paperformat=document.paperformat.A5, fittosize=1)), ("hatched", dict(rotated=1, paperformat=document.paperformat.A4)), ("tex", dict(centered=0)), ("bitmaps", {})):
        d.append(document.page(D[n](k), pagename=n, **o))
    return d


NAMES = list(D)
CHEAP = ["strokes", "attrs", "clipped", "layers", "nested", "hatched", "patterns", "transparent", "bitmaps", "alpha", "meshes", "glyphs", "texagain", "texcolor", "decotext", "gkey"]
QUICK = ["attrs", "clipped", "layers", "patterns", "transparent", "bitmaps", "glyphs", "texagain", "gkey", "paged"]
FORMATS = ["EPS", "PDF", "SVG"]


def fmts(n):
    return ["PS", "PDF"] if n == "paged" else ["PDF"] if n == "form" else [f for f in FORMATS if not (f == "SVG" and n in ("included", "hatched", "patterns")) and not (f == "EPS" and n == "alpha")]


def write(x, fmt, **kw):
    f = io.BytesIO()
    doc = isinstance(x, document.document)
    if fmt == "PDF":
        kw = dict({"compress" if doc else "write_compress": False}, **kw)
    getattr(x, "write%sfile" % fmt)(f, **kw)
    return f.getvalue()


IDS = re.compile(rb"(pattern|clippath|shading-)(\d+)")


def norm(b):
    if IDS.search(b):
        seen = {}
        # resource dictionaries are sorted by these names: sort them by the objects referred to
        b = re.sub(rb"((?:/(?:pattern|shading-)\d+ \d+ 0 R\n)+)", lambda m: b"".join(sorted(m.group().splitlines(True), key=lambda l: int(l.split()[1]))), b)
        b = IDS.sub(lambda m: m.group(1) + b"%d" % seen.setdefault(m.group(), len(seen)), b)
        if b[:4] == b"%PDF":
            b = re.sub(rb"(?s)\nxref\n.*?trailer", b"", b)
            b = re.sub(rb"startxref\s+\d+", b"", b)
            b = re.sub(rb"/Length \d+", b"", b)
    return b


def difference(a, b):
    """where two files differ"""
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r instead of %r" % (a[max(0, i-40):i+40], b[max(0, i-40):i+40])


# ------------------------------------------------------------ references
REF = {}


def reference(n):
    """the files a fresh process writes for a drawing: each from a process of its own kit"""
    return {f: norm(write(D[n](Kit()), f)) for f in fmts(n)}


def child(code, seed="0", timeout=300):
    env = dict(os.environ, PYTHONHASHSEED=seed)
    with tempfile.TemporaryDirectory(dir=os.environ["MC_SCRATCH"]) as d:
        out = os.path.join(d, "out")
        r = subprocess.run([sys.executable, "-c", "import pickle\nfrom checks import p31\nr = %s\nopen(%r, 'wb').write(pickle.dumps(r))" % (code, out)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if r.returncode:
            raise RuntimeError("drawing in a fresh process failed: %s" % r.stdout[-400:].decode("latin1"))
        with open(out, "rb") as f:
            return pickle.load(f)


def setup():
    """one fresh process per drawing and format"""
    if REF:
        return
    jobs = [(n, f) for n in NAMES for f in fmts(n)]
    with ThreadPoolExecutor(8) as pool:
        for (n, f), b in zip(jobs, pool.map(lambda j: failing(lambda: child("p31.norm(p31.write(p31.D[%r](p31.Kit()), %r))" % j)), jobs)):
            REF[n, f] = b


def failing(f):
    try:
        return f()
    except Exception as e:
        return e


def compare(n, x, fmt, when):
    ref = REF[n, fmt]
    if isinstance(ref, Exception):
        require(False, "%s", ref)
    got = norm(write(x, fmt))
    if got != ref:
        require(False, "%s of %s %s: %s", fmt, n, when, difference(got, ref))
    return hashlib.blake2b(got, digest_size=4).hexdigest()


# ------------------------------------------------------------- histories
def other(n):
    """a drawing of something else using the same objects"""
    i = NAMES.index(n)
    return NAMES[(i+7) % len(NAMES)] if NAMES[(i+7) % len(NAMES)] != n else NAMES[0]


def op_bbox(k, n, x): n == "paged" or x.bbox()
def op_eps(k, n, x): compare(n, x, fmts(n)[0], "in between")
def op_pdf(k, n, x): compare(n, x, "PDF", "in between")
def op_svg(k, n, x): "SVG" in fmts(n) and compare(n, x, "SVG", "in between")


def op_options(k, n, x):
    """writing with other options"""
    if n == "paged":
        write(x, "PDF", compress=True, textaspath=True, meshasbitmap=True, stripfonts=False)
        return
    write(x, "PDF", write_compress=True, write_textaspath=True, write_meshasbitmap=True)
    write(x, "PDF", write_stripfonts=False, page_bboxenlarge=3)
    if "EPS" in fmts(n):
        write(x, "PS", page_paperformat=document.paperformat.A4, page_fittosize=1, page_rotated=1, write_textaspath=True, write_meshasbitmap=True)
    if "SVG" in fmts(n):
        write(x, "SVG", write_textaspath=False, page_bboxenlarge=3)


def op_inside(k, n, x):
    """use within another canvas and document"""
    if n == "paged":
        return
    c = canvas.canvas([k.trafo])
    c.insert(x, [color.rgb.green, style.linewidth.THIN])
    c.insert(x, [trafo.translate(3, 4), k.clip])
    c.bbox()
    write(c, "PDF")
    write(document.document([document.page(x, rotated=1, paperformat=document.paperformat.A4), document.page(c)]), "PDF")
    if "EPS" in fmts(n):
        write(c, "EPS")


def op_other(k, n, x):
    m = other(n)
    y = D[m](k)
    for f in fmts(m):
        compare(m, y, f, "drawn in between")


def op_same(k, n, x):
    y = D[n](k)
    for f in reversed(fmts(n)):
        compare(n, y, f, "drawn again")


def op_errors(k, n, x):
    """failing operations leave nothing behind"""
    bad = canvas.canvas()
    bad.stroke(k.line, k.thick)
    bad.insert(Broken())
    for f in ("EPS", "PDF", "SVG"):
        c = canvas.canvas()
        c.stroke(k.curve, k.dashed)
        c.fill(k.closed, k.thick[1:])
        c.insert(bad)
        try:
            write(c, f)
        except ZeroDivisionError:
            continue
        require(False, "a failing item does not make writing %s fail", f)
    for act in (lambda: text.TexEngine and k.tex.text(0, 0, r"\undefinedcontrolsequence"), lambda: canvas.canvas().stroke(k.line, [3]), lambda: k.line.at(k.closed), lambda: write(x, "EPS", nosuchoption=1)):
        try:
            act()
        except Exception:
            continue
        require(False, "a wrong call does not fail")


class Broken(canvas.canvas):

    def bbox(self):
        return bbox.bbox_pt(0, 0, 10, 10)

    def processPS(self, *args):
        raise ZeroDivisionError("on purpose")

    processPDF = processSVG = processPS


OPS = {"b": op_bbox, "e": op_eps, "p": op_pdf, "s": op_svg, "o": op_options, "i": op_inside, "d": op_other, "a": op_same, "x": op_errors}


def run_history(case):
    n, hist = case
    k = Kit()
    TRACE.step((n, "", 0))
    x = D[n](k)
    for i, o in enumerate(hist):
        OPS[o](k, n, x)
        TRACE.step((n, hist[:i+1]))
    return n, tuple(compare(n, x, f, "after %s" % (hist or "nothing")) for f in fmts(n))


def gen_history(depth, names):
    def gen():
        for n in names:
            for k in range(depth+1):
                for h in itertools.product("bepsoidax", repeat=k):
                    yield n, "".join(h)
    return gen


def run_pair(case):
    """two drawings of the same objects, in each order of drawing and writing"""
    a, b, order = case
    k = Kit()
    if order == 0:
        x = D[a](k)
        compare(a, x, fmts(a)[0], "drawn first")
        y = D[b](k)
    elif order == 1:
        x, y = D[a](k), D[b](k)
    else:
        x = D[a](k)
        y = D[b](k)
        if "paged" not in (a, b):
            x.bbox(), y.bbox()
        compare(a, x, "PDF", "after drawing %s" % b)
    out = []
    for f in fmts(b):
        out.append(compare(b, y, f, "drawn after %s" % a))
    for f in fmts(a):
        out.append(compare(a, x, f, "drawn before %s" % b))
    TRACE.step((a, b, order))
    return a, b


def everything(order):
    """all drawings of one kit, in some order"""
    k = Kit()
    names = {0: NAMES, 1: NAMES[::-1], 2: NAMES[1::2]+NAMES[::2], 3: sorted(NAMES)}[order]
    xs = {n: D[n](k) for n in names} if order % 2 else {}
    out = {}
    for n in names:
        x = xs.get(n) or D[n](k)
        for f in fmts(n):
            out[n, f] = norm(write(x, f))
    return out


def run_seed(case):
    seed, order = case
    out = child("p31.everything(%d)" % order, str(seed))
    for (n, f), b in out.items():
        ref = REF[n, f]
        require(not isinstance(ref, Exception), "%s", ref)
        if b != ref:
            require(False, "%s of %s depends on the hash seed %d or the order of drawing: %s", f, n, seed, difference(b, ref))
    TRACE.step((seed, order))
    return len(out), seed


def run_fresh(case):
    """a drawing in a process of its own, for every hash seed"""
    n, seed = case
    out = child("p31.reference(%r)" % n, str(seed))
    for f, b in out.items():
        ref = REF[n, f]
        require(not isinstance(ref, Exception), "%s", ref)
        if b != ref:
            require(False, "%s of %s depends on the hash seed %d: %s", f, n, seed, difference(b, ref))
    return n, seed % 3


def spaces(tier):
    T = tier == "thorough"
    setup()
    return [
        Space("single operations", gen_history(1, NAMES), run_history, bounds="%d drawings, 9 operations" % len(NAMES)),
        Space("histories", gen_history(2, NAMES if T else QUICK), run_history, bounds="%d (thorough: %d) drawings, all sequences of up to 2 of 9 operations" % (len(QUICK), len(NAMES))),
        Space("longer histories", gen_history(3, CHEAP), run_history, bounds="%d drawings, up to 3 operations" % len(CHEAP)) if T else
        Space("longer histories", lambda: ((n, "".join(h)) for n in ("attrs", "patterns") for h in itertools.product("eoiax", repeat=3)), run_history, bounds="2 drawings, 3 of 5 operations"),
        Space("pairs", lambda: ((a, b, o) for a in NAMES for b in NAMES for o in ((0, 1, 2) if T else ((NAMES.index(a)+NAMES.index(b)) % 2,))), run_pair, bounds="all ordered pairs of %d drawings made of the same objects, %d orders of drawing and writing" % (len(NAMES), 3 if T else 1)),
        Space("hash seeds", lambda: ((s, o) for s in (range(0, 24) if T else range(0, 6)) for o in range(4)), run_seed, bounds="all drawings in four orders, 6 (24) hash seeds"),
        Space("fresh processes", lambda: ((n, s) for n in ("unicode_", "uniagain", "glyphs", "tex", "texcolor", "gkey", "gsurf", "layers", "paged", "form") for s in ((1, 2, 3, 4, 5, 6, 7, 8) if T else (1, 2, 3))), run_fresh, bounds="10 drawings, 3 (8) hash seeds"),
    ]
