"""P36: patterns and meshes reach the output as declared."""
import io, itertools, math, os
from mc import core, machines
from mc import geom as g
from mc.core import Space, require, Violation
from pyx import attr, bbox, canvas, color, deco, document, mesh, path, pattern, style, trafo, unit
from pyx import pswriter, pdfwriter, svgwriter

PROPERTY = "P36"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pattern contents and parameters, of fill colour histories mixing colours and patterns through nested canvases, and of small triangle meshes; the written PostScript, PDF and SVG is executed by interpreters and the tiles, paint colours and mesh data compared with the declared ones"
LEVEL_NOTE = "The colour history space follows the current fill of a graphics state model through all nestings up to the depth; tiles are compared mark by mark with their content drawn on an ordinary canvas."
RULE = "A case is a pattern with its content and parameters, a tree of canvases setting colours and patterns, or a mesh; non-trivial if something is painted."
ASSUMPTIONS = ["Patterns in PDF files are used for filling only (PyX announces this by a warning).",
               "An explicit bounding box comes together with explicit steps, as the documentation leaves open which box determines the steps otherwise.",
               "SVG patterns live in the user space of the element, hence their position is compared for fills outside of transformed canvases only."]

RED, BLUE, GREEN, GREY, CMYK, HSB = color.rgb.red, color.rgb.blue, color.rgb(0, 0.6, 0.2), color.gray(0.5), color.cmyk(0.1, 0.7, 0.3, 0.2), color.hsb(0.3, 0.5, 0.75)
PT = unit.t_pt


def write(c, fmt, **kw):
    f = io.BytesIO()
    {"EPS": c.writeEPSfile, "PDF": c.writePDFfile, "SVG": c.writeSVGfile}[fmt](f, **kw)
    return f.getvalue()


# ------------------------------------------------------------ contents
def nest(c):
    s = c.insert(canvas.canvas([trafo.rotate(30), style.linewidth(1.25*PT)]))
    s.stroke(path.rect_pt(1, 1, 4, 2), [BLUE])
    s.fill(path.circle_pt(5, 5, 1), [GREEN])


def clipped(c):
    s = c.insert(canvas.canvas([canvas.clip(path.rect_pt(1, 1, 5, 5))]))
    s.fill(path.path(path.moveto_pt(0, 0), path.lineto_pt(9, 1), path.lineto_pt(2, 7), path.closepath()), [CMYK])


ITEMS = [lambda c: c.fill(path.rect_pt(2, 3, 4, 4), [RED]),
         lambda c: c.stroke(path.line_pt(0, 0, 6, 2)),
         lambda c: c.stroke(path.curve_pt(0, 6, 3, 9, 5, -2, 8, 1), [style.linewidth(2*PT), style.linestyle.dashed, style.linecap.round, GREY]),
         nest, clipped,
         lambda c: c.fill(path.rect_pt(-3, -2, 2.5, 1.5))]
ATTRS = [[], [style.linewidth(3*PT)], [trafo.scale(0.5)], [GREEN, style.linejoin.bevel]]
TRAFOS = [None, trafo.translate_pt(3, -2), trafo.rotate(35), trafo.scale(1.5, 0.75).slanted(0.3).translated_pt(1, 2)]
STEPS = [(None, None, None), (9*PT, 11*PT, None), (None, -7.5*PT, None), (0.4, None, None), (12*PT, 10*PT, (-1, -2, 8, 9)), (5*PT, 6*PT, (0.25, 0.5, 7.75, 7))]
ENLARGE = [None, 2*PT]


def gen_tiles(tier):
    n = 2 if tier == "quick" else 3
    for k in range(1, n+1):
        for cont in itertools.product(range(len(ITEMS)), repeat=k):
            for st, tr, en in itertools.product(range(len(STEPS)), range(len(TRAFOS)), range(len(ENLARGE))):
                for at in range(len(ATTRS)) if k < 3 else (0,):
                    for til in (1, 2, 3) if k == 1 else (1+(sum(cont)+st+tr+en) % 3,):
                        yield (cont, st, tr, en, at, til)


def build(case):
    cont, st, tr, en, at, til = case
    xs, ys, bb = STEPS[st]
    p = pattern.pattern(tilingtype=til, xstep=xs, ystep=ys, bbox=bbox.bbox_pt(*bb) if bb else None, trafo=TRAFOS[tr], bboxenlarge=ENLARGE[en], attrs=list(ATTRS[at]))
    for i in cont:
        ITEMS[i](p)
    return p


def plain(cont, at):
    c = canvas.canvas(list(ATTRS[at]))
    for i in cont:
        ITEMS[i](c)
    return c


def extent(c):
    """the box of the marks including line widths, as ordinary files announce it"""
    d = write(c, "EPS", page_bboxenlarge=0)
    l = [l for l in d.split(b"\n") if l.startswith(b"%%HiResBoundingBox:")][0]
    return [float(x) for x in l.split()[1:]]


def pstile(m):
    require(m.color[0] == "pattern", "filled with %r", m.color)
    d = dict(m.color[1])
    p = dict(d[".pattern"])
    sub = machines.PS(b"")
    sub.dicts = [dict(x) for x in d[".dicts"]]
    sub.stack.append({k: v for k, v in p.items() if k != "PaintProc"})
    sub.call(p["PaintProc"])
    require(not sub.stack and not sub.gstack, "the tile leaves operands or states behind")
    return dict(paint=p["PaintType"], tiling=p["TilingType"], bbox=[float(x) for x in p["BBox"]], xstep=float(p["XStep"]), ystep=float(p["YStep"]),
                matrix=g.mul(d[".ctm"], d[".matrix"]), marks=sub.marks)


def pdftile(pdf, page, m):
    require(m.color[0] == "pattern", "filled with %r", m.color)
    res = pdf.get(pdf.get(page["Resources"])["Pattern"])
    s = pdf.get(res[m.color[1]])
    d = s.dict
    c = machines.Content(pdf, pdf.get(d["Resources"]))
    marks = c.run(s.data())
    return dict(paint=d["PaintType"], tiling=d["TilingType"], bbox=[float(x) for x in d["BBox"]], xstep=float(d["XStep"]), ystep=float(d["YStep"]),
                matrix=tuple(float(x) for x in d["Matrix"]), marks=marks)


def tupled(t):
    if t is None:
        return (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
    (a, c), (b, d) = t.matrix
    return (a, b, c, d) + tuple(t.vector)


def near(a, b, eps=1e-3):
    return all(abs(x-y) <= eps for x, y in zip(a, b))


def checktile(fmt, t, case, want):
    cont, st, tr, en, at, til = case
    xs, ys, bb = STEPS[st]
    box = want["box"]
    require(t["paint"] == 1 and t["tiling"] == til, "%s: types %r %r", fmt, t["paint"], t["tiling"])
    w, h = box[2]-box[0], box[3]-box[1]
    wx, wy = (unit.topt(xs) if xs is not None else w), (unit.topt(ys) if ys is not None else h)
    require(near((t["xstep"], t["ystep"]), (wx, wy)), "%s: steps %r instead of %r", fmt, (t["xstep"], t["ystep"]), (wx, wy))
    if bb is None:
        e = unit.topt(ENLARGE[en]) if ENLARGE[en] is not None else 0
        bb = (box[0]-e, box[1]-e, box[2]+e, box[3]+e)
    if fmt == "EPS":
        require(near(t["bbox"], bb), "box %r instead of %r", t["bbox"], bb)
    else:
        low = (math.floor(bb[0]+1e-6), math.floor(bb[1]+1e-6), math.ceil(bb[2]-1e-6), math.ceil(bb[3]-1e-6))
        out = t["bbox"]
        require(out[0] <= bb[0]+1e-3 and out[1] <= bb[1]+1e-3 and out[2] >= bb[2]-1e-3 and out[3] >= bb[3]-1e-3 and near(out, bb, 1.001),
                "box %r does not just enclose %r (%r)", out, bb, low)
    require(near(t["matrix"], tupled(TRAFOS[tr])), "%s: matrix %r instead of %r", fmt, t["matrix"], tupled(TRAFOS[tr]))
    r = machines.samemarks(t["marks"], want[fmt])
    require(r is None, "%s: content of the tile: %s", fmt, r)


PLACE = path.rect_pt(10, 20, 50, 40)
WANT = {}


def wanted(cont, at):
    k = (tuple(cont), at)
    if k not in WANT:
        c = plain(cont, at)
        WANT[k] = dict(EPS=machines.psmarks(write(c, "EPS")), PDF=machines.pdfmarks(write(c, "PDF")), box=extent(c))
    return WANT[k]


def run_tiles(case):
    cont, st, tr, en, at, til = case
    want = wanted(cont, at)
    for turned in (0, 1):
        p = build(case)
        c = canvas.canvas()
        if turned:
            # patterns are fixed to the page and do not follow the canvas
            c.insert(canvas.canvas([trafo.rotate(50).translated_pt(7, 3).scaled(0.5)])).fill(PLACE, [p])
        else:
            c.fill(PLACE, [p])
        ms = machines.psmarks(write(c, "EPS"))
        require(len(ms) == 1 and ms[0].op == "fill", "EPS: %r", [m.op for m in ms])
        checktile("EPS", pstile(ms[0]), case, want)
        for compress in (0, 1):
            pdf = machines.PDF(write(c, "PDF", write_compress=compress))
            page = pdf.pages()[0]
            ms = pdf.marks(page)
            require(len(ms) == 1 and ms[0].op == "fill", "PDF: %r", [m.op for m in ms])
            checktile("PDF", pdftile(pdf, page, ms[0]), case, want)
    return (cont, st, tr, en, at, til)


# ------------------------------------------------------------ SVG
def gen_svg(tier):
    for k in (1, 2):
        for cont in itertools.product(range(len(ITEMS)), repeat=k):
            for bb, tr, at in itertools.product((None, (-1, -2, 8, 9), (0.25, 0.5, 7.75, 7)), range(len(TRAFOS)), range(len(ATTRS))):
                yield (cont, bb, tr, at)


def run_svg(case):
    cont, bb, tr, at = case
    want = wanted(cont, at)
    p = pattern.pattern(bbox=bbox.bbox_pt(*bb) if bb else None, trafo=TRAFOS[tr], attrs=list(ATTRS[at]))
    for i in cont:
        ITEMS[i](p)
    c = canvas.canvas()
    c.fill(PLACE, [p])
    data = write(c, "SVG")
    s = machines.SVG(data)
    require(len(s.marks) == 1 and s.marks[0].color[0] == "pattern", "marks %r", s.marks)
    e = s.ids[s.marks[0].color[1]]
    require(e.tag == machines.SVGNS+"pattern", "filled with %s", e.tag)
    a = e.attrib
    require(a.get("patternUnits") == "userSpaceOnUse", "pattern units %r", a.get("patternUnits"))
    box = bb or want["box"]
    vb = [float(x) for x in a["viewBox"].split()]
    require(near(vb, (box[0], -box[3], box[2]-box[0], box[3]-box[1]), 2e-3), "view box %r instead of %r", vb, box)
    # the tile lies at x, y with its size, and the view box is fitted into it; all in the flipped user space
    place = [float(a.get(n, 0)) for n in ("x", "y", "width", "height")]
    sx, sy = place[2]/vb[2], place[3]/vb[3]
    require(near((sx, sy), (1, 1), 1e-3), "tile scaled by %r, %r", sx, sy)
    dx, dy = place[0]-vb[0], place[1]-vb[1]
    # shifts by whole tiles do not matter
    fx, fy = dx/vb[2], dy/vb[3]
    require(abs(fx-round(fx))*vb[2] < 2e-3 and abs(fy-round(fy))*vb[3] < 2e-3, "the tiles are shifted by %r, %r against those of PostScript and PDF", dx, dy)
    m = machines.svgtransform(a["patternTransform"]) if "patternTransform" in a else (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
    flip = (1, 0, 0, -1, 0, 0)
    m = g.mul(flip, g.mul(m, flip))
    require(near(m, tupled(TRAFOS[tr])), "transformation %r instead of %r", m, tupled(TRAFOS[tr]))
    # the content
    s.marks = []
    inh = dict(machines.SVGINH)
    for k in machines.SVGINH:
        if k in s.root.attrib:
            inh[k] = s.root.attrib[k]
    for k in e:
        s.node(k, flip, inh, 1.0, ())
    r = machines.samemarks(s.marks, want["EPS"], exactspace=False, ceps=5e-3)
    require(r is None, "content of the tile: %s", r)
    return case


# ------------------------------------------------------------ colours and patterns
COLS = [None, "A", "B", "red", "grey", "cmyk", "hsb"]


def palette():
    A, B = pattern.pattern(), pattern.pattern(tilingtype=2)
    A.fill(path.rect_pt(0, 0, 3, 3), [BLUE])
    B.fill(path.circle_pt(2, 2, 2))
    return {"A": A, "B": B, "red": RED, "grey": GREY, "cmyk": CMYK, "hsb": HSB}


def gen_nesting(tier):
    q = COLS if tier != "quick" else [None, "A", "B", "red", "cmyk"]
    for outer in itertools.product(q, repeat=2):
        for leaves in itertools.product(q, repeat=3):
            for shape in range(4):
                yield (outer, leaves, shape)


def run_nesting(case):
    outer, leaves, shape = case
    for fmt in ("EPS", "PDF", "SVG"):
        P = palette()
        at = lambda *n: [P[x] for x in n if x is not None]
        rect = lambda i: path.rect_pt(10*i, 0, 8, 5)
        c = canvas.canvas()
        want = []
        cur = lambda *ns: next((n for n in reversed(ns) if n is not None), "black")
        if shape == 0:
            # canvas in canvas, leaves before, in between and after
            a = c.insert(canvas.canvas(at(outer[0])))
            a.fill(rect(0), at(leaves[0])); want.append(cur(outer[0], leaves[0]))
            b = a.insert(canvas.canvas(at(outer[1])))
            b.fill(rect(1), at(leaves[1])); want.append(cur(outer[0], outer[1], leaves[1]))
            a.fill(rect(2), at(leaves[2])); want.append(cur(outer[0], leaves[2]))
        elif shape == 1:
            # three leaves in the innermost canvas
            b = c.insert(canvas.canvas(at(outer[0]))).insert(canvas.canvas(at(outer[1])))
            for i, l in enumerate(leaves):
                b.fill(rect(i), at(l)); want.append(cur(outer[0], outer[1], l))
        elif shape == 2:
            # filled by decorators, stroked by a colour
            b = c.insert(canvas.canvas(at(outer[0]))).insert(canvas.canvas(at(outer[1])))
            for i, l in enumerate(leaves):
                b.draw(rect(i), [deco.stroked([RED]), deco.filled(at(l))]); want.append(cur(outer[0], outer[1], l))
        else:
            # siblings
            for o, l in zip(outer+(None,), leaves):
                b = c.insert(canvas.canvas(at(o)))
                b.fill(rect(len(want)), at(l)); want.append(cur(o, l))
        data = write(c, fmt)
        if fmt == "EPS":
            marks = machines.psmarks(data)
        elif fmt == "PDF":
            pdf = machines.PDF(data)
            page = pdf.pages()[0]
            marks = pdf.marks(page)
        else:
            svg = machines.SVG(data)
            marks = svg.marks
        fills = [m for m in marks if m.op == "fill"]
        require(len(fills) == len(want), "%s: %d fills instead of %d", fmt, len(fills), len(want))
        for i, (m, w) in enumerate(zip(fills, want)):
            if w in ("A", "B"):
                require(m.color[0] == "pattern", "%s: fill %d is %r instead of pattern %s", fmt, i, m.color, w)
                # the rectangle of A has straight edges, the circle of B arcs
                require(curved(fmt, m, pdf if fmt == "PDF" else None, page if fmt == "PDF" else None, svg if fmt == "SVG" else None) == (w == "B"),
                        "%s: fill %d uses the other pattern", fmt, i)
            else:
                ref = (0.0, 0.0, 0.0) if w == "black" else tuple(getattr(P[w].rgb(), k) for k in "rgb")
                require(m.color[0] != "pattern" and near(machines.torgb(m.color), ref, 6e-3), "%s: fill %d is %r instead of %s", fmt, i, m.color, w)
    return case


def curved(fmt, m, pdf, page, svg):
    if fmt == "EPS":
        p = pstile(m)["marks"][0].path
    elif fmt == "PDF":
        p = pdftile(pdf, page, m)["marks"][0].path
    else:
        p = machines.svgpath(svg.ids[m.color[1]].find(".//"+machines.SVGNS+"path").attrib["d"], g.IDENT).done()
    xs, ys = zip(*machines.polyline(p[0][1]))
    # area of the polygon against that of its box: 1 for the rectangle, pi/4 for the circle
    area = abs(sum(xs[i-1]*ys[i]-xs[i]*ys[i-1] for i in range(len(xs))))/2
    return area/((max(xs)-min(xs))*(max(ys)-min(ys))) < 0.9


# ------------------------------------------------------------ calls
NEW = dict(painttype=1, tilingtype=3, xstep=21*PT, ystep=22*PT, bbox=(1, 2, 13, 14), trafo=trafo.rotate(20), bboxenlarge=3*PT)
BASE = dict(tilingtype=2, xstep=15*PT, ystep=16*PT, bbox=(0, 0, 9, 8), trafo=trafo.translate_pt(1, 1), bboxenlarge=None)


def gen_calls():
    for base in (0, 1):
        for k in range(len(NEW)+1):
            for names in itertools.combinations(sorted(NEW), k):
                for after in (0, 1, 2):
                    yield (base, names, after)


def settings(d):
    return {k: bbox.bbox_pt(*v) if k == "bbox" and v else v for k, v in d.items()}


def run_calls(case):
    base, names, after = case
    start = dict(BASE) if base else {}
    p = pattern.pattern(**settings(start))
    ITEMS[0](p)
    q = p(**settings({n: NEW[n] for n in names}))
    require(isinstance(q, pattern.pattern), "a call gives %r", q)
    contq = [0]
    contp = [0]
    if after == 1:
        ITEMS[1](q); contq = [0, 1]
    elif after == 2:
        ITEMS[5](p); contp = [0, 5]
    full = dict(tilingtype=1, xstep=None, ystep=None, bbox=None, trafo=None, bboxenlarge=None)
    full.update(start)
    new = dict(full)
    new.update({n: NEW[n] for n in names if n != "painttype"})
    for pat, cfg, cont in ((p, full, contp), (q, new, contq)):
        if cfg["bbox"] is not None and (cfg["xstep"] is None or cfg["ystep"] is None):
            continue
        c = canvas.canvas()
        c.fill(PLACE, [pat])
        t = pstile(machines.psmarks(write(c, "EPS"))[0])
        want = wanted(cont, 0)
        box = want["box"]
        require(t["tiling"] == cfg["tilingtype"], "tiling type %r", t["tiling"])
        wx = unit.topt(cfg["xstep"]) if cfg["xstep"] is not None else box[2]-box[0]
        wy = unit.topt(cfg["ystep"]) if cfg["ystep"] is not None else box[3]-box[1]
        require(near((t["xstep"], t["ystep"]), (wx, wy)), "steps %r instead of %r", (t["xstep"], t["ystep"]), (wx, wy))
        e = unit.topt(cfg["bboxenlarge"]) if cfg["bboxenlarge"] is not None else 0
        bb = cfg["bbox"] or (box[0]-e, box[1]-e, box[2]+e, box[3]+e)
        require(near(t["bbox"], bb), "box %r instead of %r", t["bbox"], bb)
        require(near(t["matrix"], tupled(cfg["trafo"])), "matrix %r", t["matrix"])
        r = machines.samemarks(t["marks"], want["EPS"])
        require(r is None, "content: %s", r)
    return case


# ------------------------------------------------------------ hatches
SIZES = ["SMALL", "SMALl", "SMAll", "SMall", "Small", "small", "normal", "large", "Large", "LArge", "LARge", "LARGe", "LARGE"]


def gen_hatched(tier):
    for n in ("hatched0", "hatched45", "hatched90", "hatched135", "crosshatched0", "crosshatched45"):
        for s in [None] + SIZES:
            yield ("named", n, s)
    for kind in ("hatched", "crosshatched"):
        for d in (0.05, 0.3, 1):
            for a in (-30, 0, 17, 45, 90, 135, 200):
                for w in (None, 0.4, 2.5):
                    for how in range(3):
                        yield (kind, d, a, w, how)


def run_hatched(case):
    if case[0] == "named":
        p = getattr(pattern, case[1])
        cross = case[1].startswith("cross")
        angle = float(case[1].lstrip("croshated"))
        k = 0 if case[2] is None else SIZES.index(case[2])-SIZES.index("normal")
        if case[2] is not None:
            p = getattr(p, case[2])
        dist = unit.topt(0.1*unit.v_cm)*math.sqrt(2)**k
        width = 0.02*72/2.54*math.sqrt(2)**-5
    else:
        kind, d, angle, w, how = case
        cross = kind == "crosshatched"
        cls = getattr(pattern, kind)
        st = [style.linewidth(w*PT), RED] if w else []
        if how == 0:
            p = cls(d, angle, st)
        elif how == 1:
            p = cls(1, 10)(d, angle, st)
        else:
            p = cls(d, 10, st)(angle=angle)
        dist = d*72/2.54
        width = w if w else 0.02*72/2.54*math.sqrt(2)**-5
    out = []
    for fmt in ("EPS", "PDF"):
        c = canvas.canvas()
        c.fill(PLACE, [p])
        data = write(c, fmt)
        if fmt == "EPS":
            t = pstile(machines.psmarks(data)[0])
        else:
            pdf = machines.PDF(data)
            t = pdftile(pdf, pdf.pages()[0], pdf.marks(pdf.pages()[0])[0])
        require(t["paint"] == 1 and t["tiling"] == 1, "types")
        M = t["matrix"]
        dirs = []
        for m in t["marks"]:
            require(m.op == "stroke" and abs(m.width-width) < 1e-4, "line of width %r instead of %r", getattr(m, "width", None), width)
            if case[0] != "named" and case[3]:
                require(near(machines.torgb(m.color), (1, 0, 0)), "colour %r", m.color)
            (_, segs), = m.path
            pts = [segs[0][0], segs[-1][-1]]
            (x0, y0), (x1, y1) = pts
            v = (x1-x0, y1-y0)
            l = math.hypot(*v)
            # continued by the neighbouring tile: moving by a step along the line gives the next part without gap
            step = (t["xstep"], 0) if abs(v[0]) > abs(v[1]) else (0, t["ystep"])
            require(abs(v[0]*step[1]-v[1]*step[0]) < 1e-3*l and l >= math.hypot(*step)-2e-3, "line %r does not continue in the next tile (%r)", pts, step)
            # distance of the lines of neighbouring tiles across the line
            other = (0, t["ystep"]) if step[0] else (t["xstep"], 0)
            a, b, cc, dd = M[:4]
            ov = (a*other[0]+cc*other[1], b*other[0]+dd*other[1])
            lv = (a*v[0]+cc*v[1], b*v[0]+dd*v[1])
            sep = abs(ov[0]*lv[1]-ov[1]*lv[0])/math.hypot(*lv)
            require(abs(sep-dist) < 1e-3*max(1, dist), "lines at distance %r instead of %r", sep, dist)
            dirs.append(math.degrees(math.atan2(lv[1], lv[0])) % 180)
            # the box of the tile lets the line through with its full width
            box = t["bbox"]
            lo, hi = (1, 3) if step[0] else (0, 2)
            for q in pts:
                o = q[1] if step[0] else q[0]
                require(box[lo] <= o-width/2+2e-3 and box[hi] >= o+width/2-2e-3, "box %r cuts the line at %r", box, q)
        wantdirs = [(90+angle) % 180] + ([angle % 180] if cross else [])
        require(len(dirs) == len(wantdirs), "%d lines", len(dirs))
        for wd in wantdirs:
            require(any(min(abs(x-wd), 180-abs(x-wd)) < 1e-2 for x in dirs), "directions %r instead of %r", dirs, wantdirs)
        out.append(len(dirs))
    return (case[0], round(dist, 3), angle)


# ------------------------------------------------------------ meshes
NODES = [(0, 0), (3, 0.5), (1, 2.25), (-2, 1), (4, -3), (-1.5, -2)]
VALUES = {"gray": [color.gray(x) for x in (0, 0.25, 0.5, 1)], "rgb": [color.rgb(*x) for x in ((0, 0, 0), (1, 0, 0.5), (0.2, 0.4, 0.6), (1, 1, 1))],
          "cmyk": [color.cmyk(*x) for x in ((0, 0, 0, 0), (1, 0, 0.5, 0.25), (0.2, 0.4, 0.6, 0.8), (1, 1, 1, 1))]}
COMP = {"gray": "g", "rgb": "rgb", "cmyk": "cmyk"}


def gen_mesh(tier):
    tris = [t for t in itertools.permutations(range(len(NODES)), 3) if t[0] < t[1] and t[0] < t[2]]
    for space in VALUES:
        for t in tris:
            yield (space, (t,), 0)
        for k, (a, b) in enumerate(itertools.product(tris, repeat=2)):
            if tier != "quick" or k % 7 == 0:
                yield (space, (a, b), 1+k % 3)
    for space in VALUES:
        for t in (((0, 1, 2), (0, 2, 3), (0, 3, 5)), ((0, 1, 2), (1, 2, 4), (2, 3, 4), (0, 4, 5))):
            for w in range(4):
                yield (space, t, w)


def run_mesh(case):
    space, tris, w = case
    val = lambda n, e: VALUES[space][(n+e) % 4]
    shared = {}
    els = []
    for e, t in enumerate(tris):
        ns = []
        for n in t:
            x, y = NODES[n]
            if w == 0:
                ns.append(shared.setdefault(n, mesh.node_pt((x, y), val(n, 0))))
            else:
                ns.append(mesh.node((x*PT, y*PT), val(n, e)))
        els.append(mesh.element(ns))
    m = mesh.mesh(els)
    pts = [NODES[n] for t in tris for n in t]
    xs, ys = zip(*pts)
    hull = (min(xs), min(ys), max(xs), max(ys))
    b = m.bbox()
    require(near((b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt), hull, 1e-9), "box %r instead of %r", b, hull)
    T = [trafo.identity, trafo.translate_pt(20, 10), trafo.rotate(30).scaled(2), trafo.mirror(0)][w]
    M = tupled(T)
    for fmt, kw in (("EPS", {}), ("PDF", dict(write_compress=0)), ("PDF", dict(write_compress=1))):
        c = canvas.canvas()
        c.insert(m, [T] if w else [])
        data = write(c, fmt, **kw)
        marks = machines.psmarks(data) if fmt == "EPS" else machines.pdfmarks(data)
        require(len(marks) == 1 and marks[0].op == "shade", "%s: %r", fmt, [x.op for x in marks])
        mk = marks[0]
        require(near(mk.ctm, M), "%s: matrix %r instead of %r", fmt, mk.ctm, M)
        sh, raw = (mk.shading, mk.data) if fmt == "EPS" else (mk.shading.dict, mk.shading.data())
        require(int(sh["ShadingType"]) == 4 and int(sh["BitsPerCoordinate"]) == 24 and int(sh["BitsPerComponent"]) == 8 and int(sh["BitsPerFlag"]) == 8, "%s: %r", fmt, sh)
        require(str(sh["ColorSpace"]).lstrip("/") == {"gray": "DeviceGray", "rgb": "DeviceRGB", "cmyk": "DeviceCMYK"}[space], "%s: colour space %r", fmt, sh["ColorSpace"])
        n = len(COMP[space])
        dec = [float(x) for x in sh["Decode"]]
        require(len(dec) == 4+2*n and dec[4:] == [0.0, 1.0]*n, "%s: decode %r", fmt, dec)
        rec = 7+n
        require(len(raw) == 3*rec*len(tris), "%s: %d bytes for %d triangles", fmt, len(raw), len(tris))
        k = 0
        for e, t in enumerate(tris):
            for nn in t:
                r = raw[k:k+rec]
                k += rec
                require(r[0] == 0, "%s: edge flag %d", fmt, r[0])
                x = dec[0]+int.from_bytes(r[1:4], "big")/(2**24-1)*(dec[1]-dec[0])
                y = dec[2]+int.from_bytes(r[4:7], "big")/(2**24-1)*(dec[3]-dec[2])
                require(near((x, y), NODES[nn], 1e-5), "%s: node %r instead of %r", fmt, (x, y), NODES[nn])
                v = val(nn, 0 if w == 0 else e)
                want = [getattr(v, q) for q in COMP[space]]
                require(near([q/255 for q in r[7:]], want, 1/255), "%s: colour %r instead of %r", fmt, list(r[7:]), want)
        f = [l for l in write(c, "EPS", page_bboxenlarge=0).split(b"\n") if l.startswith(b"%%HiResBoundingBox")][0]
        cs = [g.app(M, (x, y)) for x in (hull[0], hull[2]) for y in (hull[1], hull[3])]
        want = (min(p[0] for p in cs), min(p[1] for p in cs), max(p[0] for p in cs), max(p[1] for p in cs))
        require(near([float(x) for x in f.split()[1:]], want, 2e-3), "file box %r instead of %r", f, want)
    return case


def gen_badmesh():
    for what in ("two", "four", "mixed", "hsb", "number", "3d", "1d"):
        for place in range(3):
            yield (what, place)


def run_badmesh(case):
    what, place = case
    els = []
    for e in range(3):
        pts = [(0, e), (2, e), (1, e+1)]
        vals = [color.rgb.red, color.rgb.blue, color.rgb.white]
        if e == place:
            if what == "two":
                pts, vals = pts[:2], vals[:2]
            elif what == "four":
                pts, vals = pts+[(0, 5)], vals+[color.rgb.red]
            elif what == "mixed":
                vals[place] = color.cmyk.Red
            elif what == "hsb":
                vals[place] = color.hsb(0.1, 0.2, 0.3)
            elif what == "number":
                vals[place] = 0.5
            elif what == "3d":
                pts[place] = (1, 2, 3)
            else:
                pts[place] = (1,)
        els.append(mesh.element([mesh.node_pt(p, v) for p, v in zip(pts, vals)]))
    try:
        mesh.mesh(els)
    except (ValueError, RuntimeError):
        return what
    raise Violation("a mesh with %s in element %d is accepted" % (what, place))


def run_uncoloured(case):
    fmt, name = case
    col = palette()[name]
    p = pattern.pattern(painttype=2)
    p.fill(path.rect_pt(0, 0, 3, 3))
    c = canvas.canvas()
    c.fill(PLACE, [col, p])
    data = write(c, fmt)
    if fmt == "EPS":
        m, = machines.psmarks(data)
        require(m.color[0] == "pattern", "filled with %r", m.color)
        got = m.color[1][".under"]
    else:
        pdf = machines.PDF(data)
        raw = pdf.get(pdf.pages()[0]["Contents"]).data()
        t = raw.split()
        i = t.index(b"scn")
        j = i-2
        v = []
        while j >= 0 and t[j].replace(b".", b"").isdigit():
            v.insert(0, float(t[j])); j -= 1
        require(len(v) in (1, 3, 4), "an uncoloured pattern is selected with the colour components %r", v)
        got = ({1: "gray", 3: "rgb", 4: "cmyk"}[len(v)], tuple(v))
    require(near(machines.torgb(got), [getattr(col.rgb(), k) for k in "rgb"], 6e-3), "colour of the pattern %r", got)
    return (fmt, name)


def spaces(tier):
    return [Space("tiles", lambda: gen_tiles(tier), run_tiles, "all pattern contents of up to %d of %d items x steps, boxes, transformations, enlargements, canvas attributes and tiling types; upright and in a transformed canvas; PostScript and PDF" % (2 if tier == "quick" else 3, len(ITEMS))),
            Space("svg", lambda: gen_svg(tier), run_svg, "all contents of up to 2 items x boxes, transformations and attributes in SVG"),
            Space("nesting", lambda: gen_nesting(tier), run_nesting, "all assignments of colours and two patterns to two canvases and three fills in four kinds of nesting, three formats"),
            Space("uncoloured", lambda: itertools.product(("EPS", "PDF"), ("red", "grey", "cmyk")), run_uncoloured, "patterns of paint type 2 in three colours"),
            Space("calls", gen_calls, run_calls, "all subsets of the parameters given to a pattern by calling it, drawing into the one or the other afterwards"),
            Space("hatched", lambda: gen_hatched(tier), run_hatched, "all predefined hatches; distances x angles x line widths x ways of construction"),
            Space("meshes", lambda: gen_mesh(tier), run_mesh, "all triangles and pairs of triangles over 6 nodes (quick: a seventh of the pairs) and fans of three and four, three colour spaces, four transformations"),
            Space("invalid meshes", gen_badmesh, run_badmesh, "7 mistakes in each of three elements")]
