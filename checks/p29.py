"""P29: SVG files read as the geometry the SVG standard defines."""
import io, itertools, math, os, re, tempfile
import xml.etree.ElementTree as ET
from mc import core, geom as g, machines as M
from mc.core import Space, require, TRACE, Violation
from pyx import canvas, color, deco, path, style, svgfile, trafo, unit

PROPERTY = "P29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of number spellings, path command sequences, errors at every token, transformation lists, shapes, style inheritance trees and viewports; the PostScript written from the file read by PyX is executed and compared mark by mark with an independent SVG interpreter"
LEVEL_NOTE = "Paths are bundled into files of about a hundred paths to keep the costs low; each path is still compared on its own."
RULE = "A case is a bundle of path data strings or one SVG file with its inclusion arguments; states are the path commands sequences and element trees."
ASSUMPTIONS = ["Constructs the manual excludes (CSS, text, use, gradients, clip paths, nested svg elements) are not enumerated.",
               "x and y of the outermost svg element place the graphics in PyX coordinates; the inclusion moves the lower left corner to the given point."]

HEAD = '<svg xmlns="http://www.w3.org/2000/svg" version="1.1" %s>'


def read(text, x=0, y=0, **kw):
    """marks of the SVG text included at x, y"""
    with tempfile.NamedTemporaryFile("w", suffix=".svg", encoding="utf-8", delete=False) as f:
        f.write(text)
    try:
        s = svgfile.svgfile_pt(x, y, f.name, **kw)
        c = canvas.canvas()
        c.insert(s)
        out = io.BytesIO()
        c.writeEPSfile(out)
        return M.psmarks(out.getvalue()), s
    finally:
        os.unlink(f.name)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")


def comparepaths(ds, refs, res=96):
    """compare paths given by path data with reference path data (None: raises, may be a list of allowed ones)"""
    u = 72/res
    H = 300
    text = HEAD % ('width="400" height="%d"' % H) + "".join('<path fill="none" stroke="#%02x%02x%02x" d="%s"/>' % (i % 256, i//256, 255-i % 256, esc(d)) for i, d in enumerate(ds)) + "</svg>"
    marks, s = read(text, parsed=True, resolution=res)
    col = {}
    for m in marks:
        require(m.op == "stroke", "mark %s", m.op)
        r, gr, b = M.torgb(m.color)
        i = round(r*255)+256*round(gr*255)
        require(i not in col, "two marks for a single path %r", ds[min(i, len(ds)-1)])
        require(m.ctm[1] == m.ctm[2] == 0, "matrix")
        col[i] = m
    for i, (d, ref) in enumerate(zip(ds, refs)):
        want = M.svgpath(ref, (u, 0, 0, -u, 0, u*H)).done()
        got = col[i].path if i in col else []
        r = M.samepath(got, want)
        require(not r, "path data %r: %s", d, r)


def bundle(cases, n=100):
    b = []
    for c in cases:
        b.append(c)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


NUMS = ["1", "-17", "+3", ".5", "-.25", "4.", "-7.", "1.5", "1e1", "2E-1", "1.5e+1", ".5e1", "+.5E0", "007", "-0.125", "6.e0"]


def joins(a, b):
    """legal separators between two numbers"""
    out = [" ", ",", " , ", "\n", "\t,  ", "  "]
    if b[0] in "+-" or b[0] == "." and ("." in a or "e" in a.lower()):
        out.append("")
    return out


def space_numbers(tier):
    def cases():
        for a, b in itertools.product(NUMS, repeat=2):
            for s in joins(a, b):
                for start, cmd in [("M 20 30", "L"), ("M20,30", "l"), ("m20 30 0 0", "t"), ("", "M"), ("M 1 2 ", "h")]:
                    for w in ("", " "):
                        yield "%s%s%s%s%s%s%s" % (start, cmd, w, a, s, b, "" if cmd != "M" else "L1-1z")
        short = NUMS[::3]+["4.", ".5"]
        for a, b, c in itertools.product(short, repeat=3):
            for s1 in joins(a, b)[::3]+joins(a, b)[-1:]:
                for s2 in joins(b, c)[::3]+joins(b, c)[-1:]:
                    yield "M1,1C%s%s%s%s%s 5 6 7c1 2 3 4-5-6" % (a, s1, b, s2, c)
                    yield "M1,1V%s%s%s%s%sh%s%s%s z" % (a, s1, b, s2, c, b, s2, c)
                    yield "M1 1l%s%s%s%s%s.75" % (a, s1, b, s2, c) if "." in c or "e" in c.lower() else "M1 1l%s%s%s%s%s-.75" % (a, s1, b, s2, c)

    def gen():
        for b in bundle(cases()):
            yield b

    def run(case):
        for d in case:
            TRACE.step(d)
        for res in (96, 72):
            comparepaths(case, case, res)
        return hash(tuple(case))
    return Space("numbers", gen, run, "all pairs of %d spellings of numbers with all separators in five commands, triples in curves" % len(NUMS))


# segments (several argument groups each)
ARGS = {"M": ["13 47", "61 5 22 83"], "L": ["71 29", "9 18 37 66"], "H": ["53", "91 17"], "V": ["41", "8 77"],
        "C": ["11 62 87 33 29 91", "11 62 87 33 29 91 3 5 8 40 72 12"], "S": ["44 7 95 58", "44 7 95 58 12 31 66 2"],
        "Q": ["14 73 68 21", "14 73 68 21 90 50 4 36"], "T": ["57 81", "57 81 23 6"],
        "A": ["24 13 37 0 1 59 43", "24 13 37 0 1 59 43 9 31 -20 1 0 2 74"], "Z": [""],
        "m": ["-8 15", "6 -3 11 27"], "l": ["-14 9", "21 16 -7 -33"], "h": ["-19", "25 -4"], "v": ["31", "-6 17"],
        "c": ["4 21 -13 9 28 -17", "4 21 -13 9 28 -17 -3 -8 16 24 5 32"], "s": ["-12 20 33 6", "-12 20 33 6 18 -9 -27 11"],
        "q": ["17 -22 35 14", "17 -22 35 14 -6 29 -31 -10"], "t": ["-23 12", "-23 12 15 34"],
        "a": ["24 13 -64 1 0 -16 22", "24 13 -64 1 0 -16 22 35 18 10 0 0 26 -5"], "z": [""]}
SYMS = [(c, i) for c in ARGS for i in range(len(ARGS[c]))]


def spell(seq, k=0):
    """path data of a sequence of (command, argument set), in one of several styles"""
    out = ""
    for n, (c, i) in enumerate(seq):
        a = ARGS[c][i]
        if k == 1:
            a = a.replace(" -", "-").replace(" ", ",")
        elif k == 2:
            a = " "+a.replace(" ", " , ")+"\n"
        out += c+a
    return out


def space_sequences(tier):
    def cases():
        for start in [("M", 0), ("m", 0), ("M", 1), ("m", 1)]:
            for n in range(3):
                for seq in itertools.product(SYMS, repeat=n):
                    yield (start,)+seq
        single = [(c, 0) for c in ARGS]
        for seq in itertools.product(single, repeat=3):
            yield (("M", 0),)+seq
        small = [(c, 0) for c in "mLhCsQtaz"] if tier == "quick" else [(c, 0) for c in "MmlHvCcSsQqTtAaz"]
        for seq in itertools.product(small, repeat=4):
            yield (("M", 0),)+seq

    def gen():
        for n, b in enumerate(bundle(cases())):
            yield n % 3, b

    def run(case):
        k, b = case
        b = [tuple(map(tuple, s)) for s in b]
        for s in b:
            TRACE.visit(s)
        comparepaths([spell(s, k) for s in b], [spell(s) for s in b])
        return hash(tuple(b))
    return Space("sequences", gen, run, "all sequences of up to two segments over all commands with one or two argument groups, all of three commands, and of four commands over a part of them")


def space_arcs(tier):
    flags = [" 0 0 ", ",0,1,", " 10,", " 1 1", "00", "01", "0 ,1 ", "\n1\n0\n"]

    def cases():
        for rx, ry in itertools.product(["30", "17.5", "5", "0", "-12", "40"], repeat=2):
            for phi in ("0", "30", "-45", "90", "400", "1e1"):
                for f in flags:
                    for end in ("37-12", "-8 25", "20,30", "60 0", "0 55", "0 0"):
                        for cmd in ("A", "a") if phi in ("30", "0") else ("a",):
                            sep = " " if not f[0] in " ,\n" else ""
                            sp = "" if end[0] in "-" else " " if not f[-1] in " ,\n" else ""
                            if f in ("00", "01"):
                                sp = ""
                            yield "M20 30%s%s,%s %s%s%s%s%sl 3 4" % (cmd, rx, ry, phi, sep, f, sp, end)

    def gen():
        for b in bundle(cases()):
            yield b

    def run(case):
        comparepaths(case, case)
        return hash(tuple(case))
    return Space("arcs", gen, run, "all radii (also zero, negative, too small), rotations, spellings of flags and end points")


def space_errors(tier):
    """an error at each token; the segments before the one containing the error are drawn or an exception is raised"""
    garbage = ["x", "@", "#", ",,", "--1", "1..2.", ".", "e5", "(", "NaN", "5%"]

    def gen():
        seqs = [[("M", 0)]+list(s) for n in (1, 2) for s in itertools.product([(c, i) for c in "LhVCsQtAazm" for i in range(len(ARGS[c]))], repeat=n)]
        for seq in seqs:
            yield "drop", seq
        for seq in seqs[::1 if tier == "thorough" else 3]:
            for x in garbage:
                yield x, seq
        for d in ["L 1 2", "x", "M", "M 1", "1 2", "z", "C 1 2 3 4 5 6", "M 1 2 3", "M 10 20 L 30", ",M 1 2 L 3 4", "h 5", "a 1 1 0 0 0 1 1"]:
            yield "start", d

    def run(case):
        what, seq = case
        if what == "start":
            allowed = {"M 10 20 L 30": "M 10 20", "M 1 2 3": "M 1 2"}.get(seq, "")
            variants = [(seq, allowed)]
        else:
            # argument groups
            segs = []
            for c, i in seq:
                v = ARGS[c][i].split()
                n = {"m": 2, "l": 2, "h": 1, "v": 1, "c": 6, "s": 4, "q": 4, "t": 2, "a": 7, "z": 0}[c.lower()]
                for k in range(0, len(v), n) if n else [0]:
                    segs.append((c, v[k:k+n], k == 0))
            variants = []
            for k, (c, v, first) in enumerate(segs):
                good = "".join((c2 if f2 else " ")+" ".join(v2)+" " for c2, v2, f2 in segs[:k])
                rest = "".join((c2 if f2 else " ")+" ".join(v2)+" " for c2, v2, f2 in segs[k+1:])
                for j in range(len(v)+(what != "drop")):
                    if what == "drop":
                        if len(v) == 1 and not first:
                            continue        # a group less is fine
                        if k+1 < len(segs) and not segs[k+1][2]:
                            continue        # the error is at the end of the next group
                        if c in "aA" and j in (3, 4):
                            continue        # digits of the following number may be taken as flags
                        w = v[:j]+v[j+1:]
                        if not w and not first:
                            continue
                    else:
                        if c in "aA" and what in ("1..2.", "--1"):
                            continue
                        w = v[:j]+[what]+v[j:]
                        if j == len(v) and (what in (",,", ".", "1..2.", "e5") or c in "zZ" and 0):
                            # the segment itself is complete
                            if what != "." and what != ",,":
                                continue
                            good2 = good+(c if first else " ")+" ".join(v)
                            variants.append((good+(c if first else " ")+" ".join(w)+" "+rest, good2))
                            continue
                        if j == len(v):
                            good2 = good+(c if first else " ")+" ".join(v)
                            if what in ("5%", "--1"):
                                continue
                            variants.append((good+(c if first else " ")+" ".join(w)+" "+rest, good2))
                            continue
                        if what in ("1..2.", "e5", "5%") and what != "5%":
                            if what == "1..2.":
                                continue    # 1. .2 . with the error later on
                    variants.append((good+(c if first else " ")+" ".join(w)+" "+rest, good))
        out = []
        for d, allowed in variants:
            try:
                comparepaths([d], [allowed])
                out.append("truncated")
            except Violation as e:
                raise Violation("%s (for the part before the error: %r)" % (e, allowed))
            except Exception as e:
                require(isinstance(e, ValueError), "path data %r raises %r", d, e)
                out.append("raised")
        return what, tuple(out), hash(tuple(variants))
    return Space("errors", gen, run, "all paths of one or two commands with each token dropped or one of %d kinds of garbage inserted at each position" % len(garbage))


# ---------------------------------------------------------------- trees
INH = {"fill": "black", "stroke": "none", "stroke-width": "1", "stroke-linecap": "butt", "stroke-linejoin": "miter", "stroke-miterlimit": "4", "stroke-dasharray": "none", "stroke-dashoffset": "0", "fill-rule": "nonzero"}
UNITS = {"": None, "px": None, "pt": 1, "pc": 12, "mm": 72/25.4, "cm": 72/2.54, "in": 72}


def length(s, u):
    m = re.fullmatch(r"\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)([a-z]*)\s*", s)
    f = UNITS[m.group(2)]
    return float(m.group(1))*(u if f is None else f)


def colour(s):
    from PIL import ImageColor
    s = s.strip()
    if s == "none":
        return None
    m = re.fullmatch(r"rgb\(([^)]*)\)", s)
    if m:
        v = [x.strip() for x in m.group(1).split(",")]
        return tuple(float(x[:-1])/100 if x.endswith("%") else float(x)/255 for x in v)
    if s.startswith("#"):
        h = s[1:]
        if len(h) == 3:
            h = "".join(c+c for c in h)
    else:
        h = ImageColor.colormap[s][1:]
    return tuple(int(h[i:i+2], 16)/255 for i in (0, 2, 4))


def nums(s, u):
    return [length(x, u) for x in re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?:px|pt|pc|mm|cm|in)?", s)]


def shape(e, u):
    """path data (in pts) of a basic shape according to the standard; None for nothing"""
    tag = e.tag.split("}")[1]
    L = lambda n, d=None: length(e.attrib[n], u) if n in e.attrib else d
    if tag == "line":
        return "M%r %r L%r %r" % (L("x1", 0), L("y1", 0), L("x2", 0), L("y2", 0))
    if tag in ("polyline", "polygon"):
        v = nums(e.attrib["points"], u)
        v = v[:len(v)//2*2]
        if not v:
            return None
        return "M"+" ".join(map(repr, v))+("z" if tag == "polygon" else "")
    if tag == "rect":
        x, y, w, h, rx, ry = L("x", 0), L("y", 0), L("width"), L("height"), L("rx"), L("ry")
        if not w or not h:
            return None
        rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
        if not rx or not ry:
            return "M%r %r h%r v%r h%r z" % (x, y, w, h, -w)
        rx, ry = min(rx, w/2), min(ry, h/2)
        a = "A%r %r 0 0 1 " % (rx, ry)
        return "M%r %r" % (x+rx, y)+"H%r" % (x+w-rx)+a+"%r %r" % (x+w, y+ry)+"V%r" % (y+h-ry)+a+"%r %r" % (x+w-rx, y+h)+"H%r" % (x+rx)+a+"%r %r" % (x, y+h-ry)+"V%r" % (y+ry)+a+"%r %r" % (x+rx, y)+"z"
    cx, cy = L("cx", 0), L("cy", 0)
    rx, ry = (L("r"), L("r")) if tag == "circle" else (L("rx"), L("ry"))
    if not rx or not ry:
        return None
    a = "A%r %r 0 0 1 " % (rx, ry)
    return "M%r %r" % (cx+rx, cy)+a+"%r %r" % (cx, cy+ry)+a+"%r %r" % (cx-rx, cy)+a+"%r %r" % (cx, cy-ry)+a+"%r %r" % (cx+rx, cy)+"z"


def transform(s, u):
    """matrix in pts of a list of transformations"""
    m = g.IDENT
    for cmd, a in re.findall(r"(\w+)\s*\(([^)]*)\)", s):
        v = [float(x) for x in re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?", a)]
        if cmd == "matrix":
            t = tuple(v[:4])+(u*v[4], u*v[5])
        elif cmd == "translate":
            t = g.translate(u*v[0], u*v[1] if len(v) > 1 else 0)
        elif cmd == "scale":
            t = g.scale(v[0], v[-1])
        elif cmd == "rotate":
            t = g.rotate(v[0])
            if len(v) > 1:
                t = g.about(t, u*v[1], u*v[2])
        elif cmd == "skewX":
            t = (1, 0, math.tan(math.radians(v[0])), 1, 0, 0)
        else:
            t = (1, math.tan(math.radians(v[0])), 0, 1, 0, 0)
        m = g.mul(m, t)
    return m


NS = "{http://www.w3.org/2000/svg}"


def reference(text, x=0, y=0, width=None, height=None, ratio=None, res=96):
    """(marks, box) of the file by the standard"""
    u = 72/res
    root = ET.fromstring(text)
    a = root.attrib
    vb = nums(a["viewBox"], u) if "viewBox" in a else None
    pc = lambda n, ref: float(a[n].strip()[:-1])/100*ref if a.get(n, "100%").strip().endswith("%") and n in a else length(a[n], u) if n in a else ref
    W, H = pc("width", vb and vb[2]), pc("height", vb and vb[3])
    clips = ()
    m = g.IDENT
    if vb:
        sx, sy = W/vb[2], H/vb[3]
        par = a.get("preserveAspectRatio", "xMidYMid meet").replace("defer", "").split()
        dx = dy = 0
        if par[0] != "none":
            s = max(sx, sy) if par[1:] == ["slice"] else min(sx, sy)
            sx = sy = s
            dx = {"xMin": 0, "xMid": .5, "xMax": 1}[par[0][:4]]*(W-s*vb[2])
            dy = {"YMin": 0, "YMid": .5, "YMax": 1}[par[0][4:]]*(H-s*vb[3])
        m = (sx, 0, 0, sy, dx-sx*vb[0], dy-sy*vb[1])
    fx = fy = 1
    if width is not None and height is not None:
        fx, fy = width/W, height/H
    elif width is not None:
        fx = width/W
        fy = fx if ratio is None else width/ratio/H
    elif height is not None:
        fy = height/H
        fx = fy if ratio is None else height*ratio/W
    out = (fx, 0, 0, -fy, x, y+fy*H)
    m = g.mul(out, m)
    if vb:
        c = M.svgpath("M0 0H%r V%r H0z" % (W, H), out).done()
        clips = ((c, False),)
    marks = []

    def node(e, m, inh):
        if e.tag in (NS+"defs", NS+"symbol", NS+"marker", NS+"pattern", NS+"clipPath", NS+"mask") or not e.tag.startswith(NS):
            return
        inh = dict(inh)
        for k in INH:
            if e.attrib.get(k, "inherit").strip() != "inherit":
                inh[k] = e.attrib[k].strip()
        if "transform" in e.attrib:
            m = g.mul(m, transform(e.attrib["transform"], u))
        tag = e.tag[len(NS):]
        if tag in ("svg", "g"):
            for k in e:
                node(k, m, inh)
        elif tag in ("title", "desc", "metadata"):
            pass
        else:
            if tag == "path":
                p = M.svgpath(e.attrib["d"], g.mul(m, (u, 0, 0, u, 0, 0))).done()
            else:
                d = shape(e, u)
                if d is None:
                    return
                p = M.svgpath(d, m).done()
            st = M.State()
            st.ctm, st.clips = m, clips
            f, s = colour(inh["fill"]), colour(inh["stroke"])
            if f is not None:
                st.fill = ("rgb", f)
                marks.append(M.Mark("fill", st, p, eo=inh["fill-rule"] == "evenodd"))
            if s is not None:
                st.stroke = ("rgb", s)
                st.width = length(inh["stroke-width"], u)
                st.cap = {"butt": 0, "round": 1, "square": 2}[inh["stroke-linecap"]]
                st.join = {"miter": 0, "round": 1, "bevel": 2}[inh["stroke-linejoin"]]
                st.miter = float(inh["stroke-miterlimit"])
                st.dash = ((), 0.0) if inh["stroke-dasharray"] == "none" else (tuple(nums(inh["stroke-dasharray"], u)), length(inh["stroke-dashoffset"], u))
                marks.append(M.Mark("stroke", st, p))
    node(root, m, INH)
    return marks, (x, y, x+fx*W, y+fy*H)


def starts(marks):
    """closed subpaths starting at their leftmost highest point on a polygon: the standard's starting points of
    rectangles, circles and ellipses only matter for dashes"""
    return marks


def rotated(want, got):
    """turn the start of closed subpaths of want such that it fits got"""
    for a, b in zip(want, got):
        if len(a.path) != len(b.path):
            continue
        new = []
        for (ca, sa), (cb, sb) in zip(a.path, b.path):
            if ca and cb and sa and sb:
                p = sb[0][0]
                i = min(range(len(sa)), key=lambda i: math.dist(sa[i][0], p))
                sa = sa[i:]+sa[:i]
            new.append((ca, sa))
        a.path = new


def closing(marks):
    """closed subpaths with their closing line as a segment"""
    for m in marks:
        m.path = [(c, list(s)+([(s[-1][-1], s[0][0])] if c and math.dist(s[-1][-1], s[0][0]) > 1e-4 else [])) for c, s in m.path if s]


def compare(text, turn=False, x=0, y=0, res=96, width=None, height=None, ratio=None):
    got, s = read(text, x, y, parsed=True, resolution=res, width_pt=width, height_pt=height, ratio=ratio)
    want, box = reference(text, x, y, width, height, ratio, res)
    bb = s.bbox()
    have = bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt
    require(all(abs(p-q) < 1e-6*max(1, abs(q)) for p, q in zip(have, box)), "box %r instead of %r", have, box)
    if turn:
        closing(want)
        closing(got)
        rotated(want, got)
    r = M.samemarks(got, want, exactspace=False)
    require(not r, "%s", r)
    return len(want)


TR = ["translate(7,-3)", "translate( 5 )", "scale(2)", "scale(.5 -1.5)", "rotate(30)", "rotate(-45 , 6,2)", "skewX(20)", "skewY( -35 )", "matrix(.8,.3,-.5,1.2,4,-9)", "matrix (1 0 0 -1 0 11)", "scale (1.25)", "rotate(90)"]


def space_transforms(tier):
    seps = [" ", "", ",", " , ", "\n"]

    def gen():
        n = 0
        for k in range(4 if tier == "quick" else 5):
            for ts in itertools.product(TR if k < 4 else TR[:9], repeat=k):
                n += 1
                yield ts, n % 5, n % 3

    def run(case):
        ts, sep, where = case
        t = seps[sep].join(ts)
        TRACE.visit(t)
        shapes = ['<path stroke="blue" fill="none" stroke-width="3" %s d="M 5 6 L 20 8 Q 30 9 25 33"/>', '<rect x="2" y="3" width="11" height="17" fill="red" %s/>']
        if where == 0:
            body = "".join(s % ('transform="%s"' % t) for s in shapes)
        elif where == 1:
            body = '<g transform="%s">' % t + "".join(s % "" for s in shapes) + "</g>"
        else:
            k = len(ts)//2
            body = '<g transform="%s">' % seps[sep].join(ts[:k]) + "".join(s % ('transform="%s"' % seps[sep].join(ts[k:])) for s in shapes) + "</g>" + shapes[1] % ""
        if not t.strip() and where != 2:
            body = body.replace(' transform=""', "")
        compare((HEAD % 'width="60" height="50"')+body+"</svg>", res=(96, 72)[sep % 2])
        return where, t
    return Space("transforms", gen, run, "all lists of up to %d transformations of %d, on paths, groups and both" % (3 if tier == "quick" else 4, len(TR)))


def space_badtransforms(tier):
    """malformed transformation lists raise"""
    bad = ["translate", "translate(", "translate()", "translate(1", "translate(1 2 3)", "translate 1 2", "foo(1)", "scale(1,2,3)", "scale()", "rotate()", "rotate(1 2)", "rotate(1 2 3 4)", "matrix(1 2 3 4 5)", "matrix(1 2 3 4 5 6 7)", "skewX()", "skewX(1 2)", "Translate(1)", "translate(x)", "translate(1)x", "x translate(1)", "scale(2))", "skewY(a)", "skew(3)", "rotate(1px)", "translate(1,,2)"]

    def gen():
        for b in bad:
            for pre in ("", "scale(2) "):
                for post in ("", " rotate(5)"):
                    if not (b == "translate(" and post):
                        yield pre+b+post

    def run(case):
        text = (HEAD % 'width="60" height="50"')+'<path stroke="blue" transform="%s" d="M 5 6 L 20 8"/></svg>' % case
        try:
            read(text, parsed=True)
        except ValueError as e:
            return case, type(e).__name__
        raise Violation("transformation %r accepted" % case)
    return Space("badtransforms", gen, run, "%d malformed transformations alone, preceded and followed by valid ones" % len(bad))


def attrs(names, values):
    return " ".join('%s="%s"' % (n, v) for n, v in zip(names, values) if v is not None)


def space_shapes(tier):
    def elements():
        for v in itertools.product([None, "7", "-3.5mm"], [None, "11"], [None, "2in", "19"], [None, "-13"]):
            yield "line", attrs(["x1", "y1", "x2", "y2"], v)
        for x, y, w, h in itertools.product([None, "3"], [None, "-5", "2pt"], ["40", "0"], ["22", "0", "1cm"]):
            for rx, ry in itertools.product([None, "0", "4", "9.5", "50", "3pt"], repeat=2):
                yield "rect", attrs(["x", "y", "width", "height", "rx", "ry"], (x, y, w, h, rx, ry))
        for v in itertools.product([None, "12"], [None, "-4", "3mm"], ["7", "0", "2.5pt", "1pc"]):
            yield "circle", attrs(["cx", "cy", "r"], v)
        for v in itertools.product([None, "12"], [None, "-4"], ["7", "0", "20"], ["11", "0", "5px"]):
            yield "ellipse", attrs(["cx", "cy", "rx", "ry"], v)
        for tag in ("polyline", "polygon"):
            for p in ["1,2 13,4 5,16", " 1 2,13 4 5 16 ", "1-2-13.5.5 7 8", "\n 1,2\n 20,3\n", "1e1 2 3 4", "3 4", "", " ", "1,2 3,4 9,-7 8,8 0,0"]:
                yield tag, 'points="%s"' % esc(p)

    styles = ['stroke="green" fill="none"', "", 'fill="none" stroke="navy" stroke-width="2pt"', 'stroke="red" fill="teal"']

    def gen():
        for e in elements():
            for s in range(len(styles)):
                yield e[0], e[1], s

    def run(case):
        tag, a, s = case
        text = (HEAD % 'width="60" height="50"')+"<%s %s %s/></svg>" % (tag, a, styles[s])
        n = compare(text, turn=tag in ("rect", "circle", "ellipse"), res=(96, 72, 90)[len(a) % 3])
        return tag, a, s, n
    return Space("shapes", gen, run, "all basic shapes with present, absent and zero attributes in several units")


PROPS = {"fill": ["none", "red", "#12f", "inherit"], "stroke": ["blue", "none", "inherit", "rgb(10, 200,30)"], "stroke-width": ["3", "2.5mm", "0.25pt", "inherit"], "stroke-linecap": ["round", "square", "butt"],
         "stroke-linejoin": ["round", "bevel", "miter", "inherit"], "stroke-miterlimit": ["7", "1.5"], "stroke-dasharray": ["5,3", "none", "4 2 1pt", "inherit"], "fill-rule": ["evenodd", "nonzero"], "transform": ["scale(2 3)", "rotate(20)"]}


def space_trees(tier):
    """styles on the levels svg, g, g, path"""
    def gen():
        # one property on all levels
        for k, vals in PROPS.items():
            for v in itertools.product([None]+vals, repeat=4):
                yield [{k: x} if x is not None else {} for x in v], 0
        # two properties on two levels
        for (k, kv), (l, lv) in itertools.combinations(PROPS.items(), 2):
            for x, y in itertools.product(kv[:3], lv[:3]):
                for i, j in itertools.product(range(4), repeat=2):
                    lev = [{}, {}, {}, {}]
                    lev[i][k] = x
                    lev[j][l] = y
                    yield lev, 1+(i+j) % 2
        # hidden and foreign elements
        for e in ("defs", "symbol", "marker", "pattern", "clipPath", "mask", "title", "desc", "metadata", "f:foo"):
            for lev in ([{}, {}, {}, {}], [{"fill": "red"}, {"stroke": "blue"}, {}, {}]):
                yield lev, e
        if tier == "thorough":
            for ks in itertools.combinations(PROPS, 3):
                for v in itertools.product(*[PROPS[k][:2] for k in ks]):
                    for ij in itertools.product(range(4), repeat=3):
                        lev = [{}, {}, {}, {}]
                        for k, x, i in zip(ks, v, ij):
                            lev[i][k] = x
                        yield lev, 1

    def run(case):
        lev, kind = case
        lev = [dict(l) for l in lev]
        lev[0].pop("transform", None)
        if kind != 0 and not isinstance(kind, str):
            lev[0].setdefault("stroke", "orange")
            if "stroke-dasharray" in [k for l in lev for k in l] and kind == 2:
                for l in lev:
                    if "stroke-dasharray" in l and l["stroke-dasharray"] not in ("none", "inherit"):
                        l["stroke-dashoffset"] = "2"
        A = [" ".join('%s="%s"' % kv for kv in l.items()) for l in lev]
        P = '<path %s d="M 10 10 L 50 12 L 20 40 L 20 5 z"/>'
        plain = P % ""
        if isinstance(kind, str):
            inner = plain if kind in ("f:foo",) or kind not in ("title", "desc", "metadata") else "text"
            if kind == "f:foo":
                inner = "<f:bar/>"
            hidden = "<%s>%s<g>%s</g></%s>" % (kind, inner, inner, kind) if kind not in ("title", "desc", "metadata", "f:foo") else "<%s>%s</%s>" % (kind, inner, kind)
        else:
            hidden = ""
        text = HEAD.replace("xmlns=", 'xmlns:f="http://foo" xmlns=') % ('width="90" height="80" '+A[0])+hidden+"<g %s>" % A[1]+plain+hidden+"<g %s>" % A[2]+P % A[3]+hidden+plain+"</g>"+plain+"</g>"+plain+"</svg>"
        TRACE.visit(text)
        n = compare(text)
        return n, text
    return Space("trees", gen, run, "all values of each property on all four levels, all pairs of properties on all pairs of levels, elements not rendered on every level")


def space_viewports(tier):
    sizes = [("80", "60"), ("3cm", "50pt"), ("1in", "2in"), ("40px", "90")]
    boxes = [None, "0 0 80 60", "-10,5,40,40", " 3 4  100 20 ", "0 0 30pt 1in"]
    pars = [None, "none", "xMidYMid", "xMinYMin meet", "xMaxYMid slice", "xMidYMax", "xMinYMid slice", "xMaxYMin meet", "defer xMidYMin", "xMidYMid slice"]
    args = [{}, {"width": 100}, {"height": 70}, {"width": 55, "height": 44}, {"width": 90, "ratio": 2}, {"height": 33, "ratio": .75}]

    def gen():
        for s in range(len(sizes)):
            for xy in (0, 1):
                for b in boxes:
                    for p in pars if b else [None]:
                        for a in args:
                            for res in (96, 72, 90):
                                yield s, xy, b, p, a, res
        for w, h in itertools.product([None, "100%", "50%", "80"], repeat=2):
            for p in (None, "none"):
                for a in args[:4]:
                    yield [w, h], 0, "2 3 50 40", p, a, 96

    def run(case):
        s, xy, b, p, a, res = case
        w, h = sizes[s] if isinstance(s, int) else s
        at = attrs(["width", "height", "viewBox", "preserveAspectRatio", "x", "y"], (w, h, b, p, "-5" if xy else None, "2mm" if xy else None))
        text = (HEAD % at)+'<rect x="4" y="7" width="31" height="13"/><path fill="none" stroke="red" d="M 5 5 L 30 25"/></svg>'
        n = compare(text, turn=True, x=13, y=-21, res=res, **a)
        # both arguments and a ratio, and a ratio alone
        for bad in ({"width": 1, "height": 2, "ratio": 3}, {"ratio": 2}):
            try:
                compare(text, **bad)
            except ValueError:
                continue
            raise Violation("%r accepted" % bad)
        # included without parsing
        if w is None or h is None or "%" in w+h:
            return case
        with tempfile.NamedTemporaryFile("w", suffix=".svg", encoding="utf-8", delete=False) as f:
            f.write(text)
        try:
            kw = {k+"_pt" if k != "ratio" else k: v for k, v in a.items()}
            sv = svgfile.svgfile_pt(13, -21, f.name, resolution=res, **kw)
            bb = sv.bbox()
            box = reference(text, 13, -21, a.get("width"), a.get("height"), a.get("ratio"), res)[1]
            have = bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt
            require(all(abs(p-q) < 1e-6*max(1, abs(q)) for p, q in zip(have, box)), "box %r instead of %r without parsing", have, box)
            c = canvas.canvas()
            c.insert(sv, [trafo.scale(1.5)])
            out = io.BytesIO()
            c.writeSVGfile(out)
            for m in ("writeEPSfile", "writePDFfile"):
                try:
                    getattr(c, m)(io.BytesIO())
                except ValueError:
                    continue
                raise Violation("unparsed SVG written by %s" % m)
        finally:
            os.unlink(f.name)
        root = ET.fromstring(out.getvalue())
        found = []

        def walk(e, m):
            if "transform" in e.attrib and e is not root:
                m = g.mul(m, M.svgtransform(e.attrib["transform"]))
            if e.tag == NS+"svg" and e is not root:
                found.append((e, m))
                return
            for k in e:
                walk(k, m)
        walk(root, (1, 0, 0, -1, 0, 0))
        require(len(found) == 1, "%d included svg elements", len(found))
        e, m = found[0]
        for k, v in ET.fromstring(text).attrib.items():
            require(e.attrib.get(k) == v, "attribute %s of the included element is %r", k, e.attrib.get(k))
        require([k.tag for k in e] == [NS+"rect", NS+"path"] and e[1].attrib["d"] == "M 5 5 L 30 25", "content of the included element")
        # the viewport of the nested element in user units (pixels)
        u = 72/res
        x0, y0 = length(e.attrib.get("x", "0"), u)/u, length(e.attrib.get("y", "0"), u)/u
        w, h = length(e.attrib["width"], u)/u, length(e.attrib["height"], u)/u
        pts = [g.app(m, q) for q in ((x0, y0), (x0+w, y0+h))]
        got = (pts[0][0], pts[1][1], pts[1][0], pts[0][1])
        require(all(abs(p-1.5*q) < 1e-3*max(1, abs(q)) for p, q in zip(got, box)), "viewport %r of the included element instead of %r", got, box)
        return case
    return Space("viewports", gen, run, "all sizes, view boxes, alignments, inclusion arguments and resolutions; parsed and unparsed")


def space_colours(tier):
    def gen():
        from PIL import ImageColor
        for n in sorted(ImageColor.colormap):
            if n != "rebeccapurple":
                yield n
        for h in ("#fff", "#0a3", "#00aa33", "#FFee01", " #123456 ", "rgb(1,2,3)", "rgb( 255 ,0, 128 )", "rgb(100%, 0%,37%)", "rgb(10%,20%,30%)", " red "):
            yield h

    def run(case):
        text = (HEAD % 'width="60" height="50"')+'<g fill="%s"><path stroke="black" d="M 5 6 L 20 8 L 1 9"/><path fill="none" stroke="%s" d="M 5 6 L 20 8 L 1 9"/></g></svg>' % (case, case)
        compare(text)
        return case
    return Space("colours", gen, run, "all colour names of the standard and several notations")


def space_roundtrip(tier):
    """what PyX writes as SVG is read back as the same marks"""
    items = [("stroke", []), ("stroke", [style.linewidth.THick, color.rgb.red]), ("stroke", [style.linestyle.dashed, style.linecap.round]), ("stroke", [style.linejoin.bevel, style.miterlimit(3)]), ("fill", []), ("fill", [color.rgb(.1, .5, .9)]),
             ("draw", [deco.stroked([color.rgb.blue]), deco.filled([color.rgb.green])]), ("stroke", [deco.earrow.large]), ("fill", [style.fillrule.even_odd])]
    paths = [path.path(path.moveto(1, 2), path.lineto(3, 1), path.curveto(4, 4, 1, 5, 2, 2.5)), path.circle(2, 3, 1.3)+path.rect(1, 2, 2, 3), path.path(path.moveto(0, 0), path.rlineto(2, 1), path.closepath(), path.rlineto(-1, 1.5))]
    groups = [None, [trafo.rotate(30)], [style.linewidth.Thick, color.rgb(.7, .2, .1), trafo.scale(1.5, .5)], [style.linestyle.dotted]]

    def gen():
        for i, j in itertools.product(range(len(items)), repeat=2):
            for p in range(3):
                for gr in range(len(groups)):
                    yield i, j, p, gr

    def run(case):
        i, j, p, gr = case
        c = canvas.canvas()
        getattr(c, items[i][0])(paths[p], items[i][1])
        d = c if groups[gr] is None else c.insert(canvas.canvas(groups[gr]))
        getattr(d, items[j][0])(paths[(p+1) % 3], items[j][1])
        getattr(c, items[i][0])(paths[2], items[i][1])
        out = io.BytesIO()
        c.writeSVGfile(out)
        eps = io.BytesIO()
        c.writeEPSfile(eps)
        want = M.psmarks(eps.getvalue())
        root = ET.fromstring(out.getvalue())
        x, y = float(root.attrib["x"][:-2]), float(root.attrib["y"][:-2])
        h = float(root.attrib["height"][:-2])
        got, s = read(out.getvalue().decode("utf-8"), x, -y-h, parsed=True, resolution=(96, 72, 123)[j % 3])
        for m in got:
            require(len(m.clips) == 1, "clips")
            m.clips = ()
        require(len(got) == len(want), "%d marks instead of %d", len(got), len(want))
        for a, b in zip(got, want):
            require(a.op == b.op, "%s instead of %s", a.op, b.op)
            if a.op == "stroke":
                # sizes come from different unit systems
                for m in (a, b):
                    f = math.sqrt(abs(m.ctm[0]*m.ctm[3]-m.ctm[1]*m.ctm[2]))
                    m.ctm = tuple(v/f for v in m.ctm)
                    m.width *= f
                    m.dash = (tuple(v*f for v in m.dash[0]), m.dash[1]*f)
                    m.width = round(m.width, 4)
                require(abs(a.width-b.width) < 2e-3*b.width+1e-4, "line width %r instead of %r", a.width, b.width)
                a.width = b.width
                require(len(a.dash[0]) == len(b.dash[0]) and all(abs(v-w) < 2e-3*max(w, 1) for v, w in zip(a.dash[0], b.dash[0])), "dash %r instead of %r", a.dash, b.dash)
                a.dash = b.dash
                ga, gb = M.gram(a.ctm), M.gram(b.ctm)
                require(all(abs(v-w) < 2e-3 for v, w in zip(ga, gb)), "pen %r instead of %r", ga, gb)
                a.ctm = b.ctm
            # colours have 8 bits in SVG
            r = M.samemark(a, b, exactspace=False, ceps=0.0021)
            require(not r, "%s", r)
        return case
    return Space("roundtrip", gen, run, "all pairs of %d drawing commands within %d kinds of groups" % (len(items), len(groups)))


def spaces(tier):
    return [space_numbers(tier), space_sequences(tier), space_arcs(tier), space_errors(tier), space_transforms(tier), space_badtransforms(tier), space_shapes(tier), space_trees(tier), space_viewports(tier), space_colours(tier), space_roundtrip(tier)]
