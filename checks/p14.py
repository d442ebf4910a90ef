"""P14: included EPS files are bounded and placed by their header."""
import io, itertools, os, re
from mc import core, machines
from mc import geom as g
from mc.core import Space, require
from pyx import bbox, canvas, color, epsfile, path, trafo, unit

PROPERTY = "P14"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of EPS files built from an alphabet of header comments, body sections and trailers with all line endings and buffer alignments, the expected box known by construction, and of all placement arguments, with the written PostScript executed by an interpreter model and compared with the requested placement"
LEVEL_NOTE = "All files of up to 2 header comments, 2 body sections and all trailers of an alphabet in three line-ending styles, all header line lengths across the reader's buffer boundary, and the product of all placement arguments."
RULE = "A case is one file or one set of placement arguments; outcomes are the boxes and positions."
ASSUMPTIONS = ["The interpreter model of the PostScript language stands for an interpreter."]

A, B, C = (1, 2, 33, 44), (-5, -6, 70, 80), (100, 200, 301, 402)
NESTEDBOX = "9 9 99 99"


def bb(t):
    return "%%%%BoundingBox: %d %d %d %d" % t


# header chunk: (lines, first box)
HEAD = {"A": ([bb(A)], A), "B": ([bb(B)], B), "atend": (["%%BoundingBox: (atend)"], "atend"), "tab": (["%%BoundingBox:\t-5  -6\t70 80 "], B), "hires": (["%%HiResBoundingBox: 9.5 9 9 9"], None), "title": (["%%Title: BoundingBox: 9 9 9 9"], None),
        "long": (["%%Keywords: " + "k"*400], None), "plus": (["%%Creator: a", "%%+ b"], None), "crop": (["%%CropBox: 9 9 9 9"], None), "defaults": (["%%BeginDefaults", "%%PageBoundingBox: 9 9 9 9", "%%EndDefaults"], None)}
END = {"end": ["%%EndComments"], "code": ["/x 1 def"], "num": ["1 2 moveto"], "brace": ["{ } pop"]}


def nested(boxlines, trailer):
    return ["%%BeginDocument: inner.eps", "%!PS-Adobe-3.0 EPSF-3.0"] + boxlines + ["%%EndComments", "0 0 moveto"] + trailer + ["%%EndDocument"]


# body chunk: list of lines or ("raw", begin line, payload bytes, end line); None marks binary payload
BODY = {"code": ["newpath 1 2 moveto"], "comment": ["% %%BoundingBox: 9 9 9 9"], "late": ["%%BoundingBox: 9 9 99 99"], "page": ["%%Page: 1 1", "%%PageBoundingBox: 9 9 9 9", "%%BeginPageSetup", "%%EndPageSetup"], "blank": ["", " "],
        "nested": nested(["%%BoundingBox: "+NESTEDBOX], []),
        "nestedatend": nested(["%%BoundingBox: (atend)"], ["%%Trailer", "%%BoundingBox: "+NESTEDBOX, "%%EOF"]),
        "nested2": nested(["%%BoundingBox: "+NESTEDBOX], nested(["%%BoundingBox: (atend)"], ["%%Trailer", "%%BoundingBox: "+NESTEDBOX]) + ["%%Trailer"]),
        "lines": [("lines", "%%BeginData: 3 Hex Lines", ["%%Trailer", "%%BoundingBox: 9 9 99 99", "%%EndDocument"], "%%EndData")],
        "lines1": [("lines", "%%BeginData: 1 ASCII Lines", [""], "%%EndData")],
        "bytes": [("bytes", "%%%%BeginData: %d Binary Bytes", b"\n%%Trailer\n%%BoundingBox: 9 9 99 99\r\x00\xff\r\n", "%%EndData")],
        "bytes2": [("bytes", "%%%%BeginData: %d Hex", b"%%EndData\r%%Trailer\r", "%%EndData")],
        "bytes1": [("bytes", "%%%%BeginData: %d", b"%%BeginDocument: x\n", "%%EndData")],
        "bytes0": [("bytes", "%%%%BeginData: %d Hex Bytes", b"", "%%EndData")],
        "bytesnl": [("glued", "%%%%BeginData: %d Binary Bytes", b"ab\n", "%%EndData")],
        "binary": [("bytes", "%%%%BeginBinary: %d", b"\r\n%%Trailer\n%%BoundingBox: 9 9 99 99\n" + bytes(range(256)), "%%EndBinary")],
        "big": [("bytes", "%%%%BeginData: %d Binary Bytes", b"x%%Trailer\n"*60, "%%EndData")]}
TRAILER = {"none": ([], None), "A": ([bb(A)], A), "C": ([bb(C)], C), "AC": ([bb(A), bb(C)], C), "float": (["%%BoundingBox: 1.5 2.25 30 40"], (1.5, 2.25, 30, 40)), "other": (["%%HiResBoundingBox: 1 2 3 4", "/x 1 def"], None),
           "middle": (["% x", bb(B), "%%DocumentFonts: Own", "%%EOF", ""], B)}
EOLS = {"lf": b"\n", "cr": b"\r", "crlf": b"\r\n"}


def make(head, end, body, trailer, eol, last=True):
    """file and expected box (None: error)"""
    e = EOLS[eol]
    out = [b"%!PS-Adobe-3.0 EPSF-3.0", e]
    first = None

    def lines(ls):
        for l in ls:
            out.append(l.encode("latin1")); out.append(e)

    for h in head:
        if isinstance(h, int):
            lines(["%%For: "+"x"*h])
            continue
        ls, box = HEAD[h]
        lines(ls)
        if first is None:
            first = box
    lines(END[end])
    for b in body:
        for l in BODY[b]:
            if isinstance(l, str):
                lines([l])
            elif l[0] == "lines":
                lines([l[1]]); lines(l[2]); lines([l[3]])
            else:
                lines([l[1] % len(l[2])])
                out.append(l[2])
                if l[0] != "glued":
                    out.append(e)
                lines([l[3]])
    if trailer is None:
        tb = None
    else:
        ls, tb = TRAILER[trailer]
        lines(["%%Trailer"]); lines(ls)
    if not last and out[-1] == e:
        out.pop()
    return b"".join(out), tb if first == "atend" else first


def scratch(data, name="p14"):
    fn = os.path.join(os.environ["MC_SCRATCH"], "%s-%d.eps" % (name, os.getpid()))
    with open(fn, "wb") as f:
        f.write(data)
    return fn


def readbox(data):
    fn = scratch(data)
    try:
        b = epsfile.epsfile(0, 0, fn, translatebbox=0).bbox()
    except (IOError, ValueError) as e:
        return None
    return b.highrestuple_pt()


def judge(data, want):
    got = readbox(data)
    require(got == want if want is None or got is None else all(abs(x-y) < 1e-9 for x, y in zip(got, want)), "box %r instead of %r", got, want)
    return got


def space_files(tier):
    hs = [()] + [(a,) for a in HEAD] + list(itertools.product(HEAD, repeat=2))
    bs = [()] + [(a,) for a in BODY] + list(itertools.product(BODY, repeat=2))

    def gen():
        for eol in EOLS:
            for head in hs:
                for end in END:
                    for tr in (None, "none", "C"):
                        for last in (True, False):
                            yield (head, end, (), tr, eol, last)
            for head in [("atend",), ("title", "atend"), ("A",), ("title",)] + ([("atend", "A")] if tier == "thorough" else []):
                for body in bs:
                    for tr in ([None] + list(TRAILER) if tier == "thorough" or head == ("atend",) else ["C"]):
                        yield (head, "end", body, tr, eol, True)
            if tier == "thorough":
                for body in itertools.product(BODY, repeat=3):
                    yield (("atend",), "code", body, "AC", eol, True)

    def run(case):
        head, end, body, tr, eol, last = case
        data, want = make(*case)
        got = judge(data, want)
        return (got, end, tuple(sorted(set(body))), tr)
    return Space("files", gen, run, dict(header=len(HEAD), body=len(BODY), trailer=len(TRAILER), eols=3))


def space_buffer(tier):
    """line ends and comments at every position relative to the buffer of the reader"""
    top = 620 if tier == "quick" else 1400

    def gen():
        for eol in EOLS:
            for n in range(0, top):
                for k in range(6):
                    yield (eol, n, k)

    def run(case):
        eol, n, k = case
        head, end, body, tr = [((n, "A"), "end", (), None), ((n, "atend"), "end", ("nestedatend",), "C"), ((n, "title", "atend"), "code", ("bytes",), "AC"), (("atend", n), "end", ("lines", "binary"), "middle"),
                               ((n,), "num", ("late",), None), ((n, "tab"), "end", (), None)][k]
        data, want = make(head, end, body, tr, eol, n % 2 == 0)
        return (judge(data, want), eol, k, n % 257)
    return Space("buffer", gen, run, dict(lengths=top, eols=3))


def space_broken(tier):
    """files which are not EPS files or damaged raise"""
    FILES = {"empty": b"", "text": b"Hello\n%%BoundingBox: 1 2 3 4\n", "dos": b"\xc5\xd0\xd3\xc6" + bytes(26), "nl": b"\n%!PS\n%%BoundingBox: 1 2 3 4\n",
             "three": b"%!PS-Adobe-3.0\n%%BoundingBox: 1 2 3\n%%EndComments\n", "five": b"%!PS\n%%BoundingBox: 1 2 3 4 5\n%%EndComments\n", "word": b"%!PS\n%%BoundingBox: 1 2 x 4\n%%EndComments\n",
             "missingend": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%BeginData: 3 Hex Bytes\nabc\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
             "longdata": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%BeginData: 300 Hex Bytes\nabc\n%%EndData\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
             "unmatched": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%EndDocument\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
             "open": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%BeginDocument: x\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
             "trailerthree": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%Trailer\n%%BoundingBox: 1 2 3\n",
             "atendtwice": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%Trailer\n%%BoundingBox: (atend)\n",
             "unit": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\n%%BeginData: 3 Hex Words\nabc\n%%EndData\n%%Trailer\n%%BoundingBox: 1 2 3 4\n",
             "noterminator": b"%!PS\n%%BoundingBox: (atend)\n%%EndComments\nshowpage\n"}

    def gen():
        for k in FILES:
            for eol in EOLS:
                yield (k, eol)
        yield ("missing", "lf")

    def run(case):
        k, eol = case
        if k == "missing":
            try:
                epsfile.epsfile(0, 0, os.path.join(os.environ["MC_SCRATCH"], "no-such-file.eps"))
            except IOError:
                return case
            require(False, "missing file is accepted")
        d = FILES[k].replace(b"\n", EOLS[eol])
        require(readbox(d) is None, "box %r of a broken file", readbox(d))
        # an explicit box is fine
        b = epsfile.epsfile(0, 0, scratch(d), bbox=bbox.bbox_pt(1, 2, 3, 4), translatebbox=0).bbox()
        require(b.highrestuple_pt() == (1, 2, 3, 4), "explicit box %r", b.highrestuple_pt())
        return case
    return Space("broken", gen, run, dict(files=len(FILES)+1))


# ------------------------------------------------------------ placement
BOXES = {"A": (0, 0, 30, 20), "B": (-10, 5, 50, 45), "C": (100, 200, 101, 250)}
SIZES = [{}, dict(width=40), dict(height=50), dict(width=40, height=50), dict(scale=0.5), dict(scale=2), dict(scale=-1.5)]
ALIGN = [a+b for a in "bct" for b in "lcr"]


def epsdata(box, end=b"\n"):
    return ("%%!PS-Adobe-3.0 EPSF-3.0\n%%%%BoundingBox: %d %d %d %d\n%%%%EndComments\nnewpath %d %d moveto %d %d lineto stroke\n1 0 0 setrgbcolor\nshowpage\n%%%%EOF" % (box+box)).encode()+end


def space_place(tier):
    def gen():
        for bname in BOXES:
            for s in range(len(SIZES)):
                for al in ALIGN:
                    for clip in (0, 1):
                        for tb in (0, 1):
                            for own in (0, 1):
                                for pos in ((0, 0), (7, -3)):
                                    for wrap in (0, 1):
                                        if tier == "thorough" or (pos != (0, 0)) == (s+clip+own) % 2 or wrap == 0 and al in ("bl", "ct"):
                                            yield (bname, s, al, clip, tb, own, pos, wrap)

    def run(case):
        bname, s, al, clip, tb, own, pos, wrap = case
        box = BOXES[bname]
        raw = epsdata(box)
        fn = scratch(raw)
        o = {k: (v if k == "scale" else v*unit.t_pt) for k, v in SIZES[s].items()}
        eb = (3, 4, 27, 19) if own else box
        if own:
            o["bbox"] = bbox.bbox_pt(*eb)
        e = epsfile.epsfile(pos[0]*unit.t_pt, pos[1]*unit.t_pt, fn, align=al, clip=clip, translatebbox=tb, **o)
        w, h = eb[2]-eb[0], eb[3]-eb[1]
        sx = sy = SIZES[s].get("scale", 1)
        if "width" in SIZES[s]:
            sx = sy = SIZES[s]["width"]/w
        if "height" in SIZES[s]:
            sy = SIZES[s]["height"]/h
            if "width" not in SIZES[s]:
                sx = sy
        W, H = w*sx, h*sy
        x = pos[0]-{"l": 0, "c": W/2, "r": W}[al[1]]
        y = pos[1]-{"b": 0, "c": H/2, "t": H}[al[0]]
        m = g.mul(g.translate(x, y), (sx, 0, 0, sy, 0, 0))
        if tb:
            m = g.mul(m, g.translate(-eb[0], -eb[1]))
        p, q = g.app(m, eb[:2]), g.app(m, eb[2:])
        want = (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
        got = e.bbox().highrestuple_pt()
        require(all(abs(a-b) < 1e-6 for a, b in zip(got, want)), "box %r instead of %r", got, want)
        t = g.IDENT
        c = canvas.canvas()
        if wrap:
            c.insert(e, [trafo.rotate(90), trafo.translate_pt(10, 20), color.rgb(0, 1, 0)])
            t = g.mul(g.translate(10, 20), (0, 1, -1, 0, 0, 0))
        else:
            c.insert(e)
        c.stroke(path.line_pt(1, 2, 3, 4))
        f = io.BytesIO()
        c.writeEPSfile(f, page_bboxenlarge=0)
        data = f.getvalue()
        mm = re.search(rb"^%%BeginDocument: (.*)\n((?:.|\n)*?)^%%EndDocument$", data, re.M)
        require(mm is not None and mm.group(2) == raw, "embedded data %r", mm and mm.group(2))
        ms = machines.psmarks(data)
        require(len(ms) == 2 and ms[0].op == ms[1].op == "stroke", "marks %r", ms)
        # the rest of the canvas is unaffected by the graphics state of the file
        require(ms[1].path[0][1][0] == ((1, 2), (3, 4)) and tuple(ms[1].color[1]) in ((0,), (0, 0, 0)) and not ms[1].clips, "following mark %r", ms[1])
        require(tuple(ms[0].color[1]) in ((0,), (0, 0, 0)), "the file starts with the color %r", ms[0].color)
        line = ms[0].path[0][1][0]
        for a, b in zip(line, (box[:2], box[2:])):
            b = g.app(t, g.app(m, b))
            require(g.dist(a, b) < 1e-2 if hasattr(g, "dist") else abs(a[0]-b[0])+abs(a[1]-b[1]) < 1e-2, "content at %r instead of %r", a, b)
        require(len(ms[0].clips) == clip, "clipping %r", ms[0].clips)
        if clip:
            pts = [sg[0] for cl, sgs in ms[0].clips[0][0] for sg in sgs]
            wp = [g.app(t, r) for r in ((want[0], want[1]), (want[2], want[3]))]
            cb = (min(r[0] for r in pts), min(r[1] for r in pts), max(r[0] for r in pts), max(r[1] for r in pts))
            wb = (min(r[0] for r in wp), min(r[1] for r in wp), max(r[0] for r in wp), max(r[1] for r in wp))
            require(all(abs(a-b) < 1e-2 for a, b in zip(cb, wb)), "clipped to %r instead of %r", cb, wb)
        return (bname, s, al, tb, own, clip)
    return Space("place", gen, run, dict(boxes=3, sizes=len(SIZES), alignments=9))


def space_arguments(tier):
    def gen():
        for o in (dict(scale=1, width=1), dict(scale=2, height=1), dict(scale=1, width=1, height=2), dict(align="xl"), dict(align="bx"), dict(align="lb"), dict(align="cc")):
            yield o
        for n in ("a b.eps", "(x).eps", "a)b.eps", "ä.eps", "中.eps", "%%.eps", "a\\b.eps", "a\nb.eps"):
            yield dict(name=n)
        for e in ("", "\n", "\r", "\r\n", " ", "\n\n"):
            yield dict(end=e)

    def run(o):
        o = dict(o)
        if "name" in o or "end" in o:
            raw = epsdata((1, 2, 33, 44), o.get("end", "\n").encode())
            d = os.path.join(os.environ["MC_SCRATCH"], "p14d-%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, o.get("name", "x.eps"))
            with open(fn, "wb") as f:
                f.write(raw)
            try:
                c = canvas.canvas()
                c.insert(epsfile.epsfile(0, 0, fn))
                f = io.BytesIO()
                c.writeEPSfile(f, page_bboxenlarge=0)
            finally:
                os.unlink(fn); os.rmdir(d)
            data = f.getvalue()
            require(len(machines.psmarks(data)) == 1, "marks")
            b = data.index(b"\n", data.index(b"%%BeginDocument:"))+1
            require(data[b:b+len(raw)] == raw, "embedded data")
            require(re.match(rb"[\r\n]*%%EndDocument\n", data[b+len(raw):]) and (raw[-1:] in b"\r\n" or data[b+len(raw):b+len(raw)+1] == b"\n"), "end of the document %r", data[b+len(raw)-5:b+len(raw)+20])
            # included once more
            got = readbox(data.replace(b"%%BoundingBox: 0 0 32 42\n", b"%%BoundingBox: (atend)\n").replace(b"\n%%Trailer\n%%EOF\n", b"\n%%Trailer\n%%BoundingBox: 5 6 7 8\n%%EOF\n"))
            require(got == (5, 6, 7, 8), "box %r of the file with an included document", got)
            return sorted(o.items())
        fn = scratch(epsdata((1, 2, 33, 44)))
        try:
            epsfile.epsfile(0, 0, fn, **{k: v*unit.t_pt if k in ("width", "height") else v for k, v in o.items()})
        except ValueError:
            require(o.get("align") != "cc", "valid arguments are rejected")
        else:
            require(o.get("align") == "cc", "invalid arguments are accepted")
        return sorted(o.items())
    return Space("arguments", gen, run, dict(cases=21))


def space_pdf(tier):
    """conversion to a bitmap for PDF output"""
    def gen():
        for bname in BOXES:
            for o in (dict(), dict(width=60), dict(scale=0.5, align="cc")):
                yield (bname, o)

    def run(case):
        bname, o = case
        box = BOXES[bname]
        raw = ("%%!PS-Adobe-3.0 EPSF-3.0\n%%%%BoundingBox: %d %d %d %d\n%%%%EndComments\n%g %g %g %g rectfill\nshowpage\n" % (box+(box[0], box[1], (box[2]-box[0])/2, (box[3]-box[1])/2))).encode()
        oo = {k: v*unit.t_pt if k in ("width", "height") else v for k, v in o.items()}
        e = epsfile.epsfile(11*unit.t_pt, 13*unit.t_pt, scratch(raw), **oo)
        c = canvas.canvas()
        c.insert(e)
        f = io.BytesIO()
        c.writePDFfile(f)
        pdf = machines.PDF(f.getvalue())
        ms = pdf.marks(pdf.pages()[0])
        require(len(ms) == 1 and ms[0].op == "image", "marks %r", ms)
        m = ms[0]
        bx = e.bbox().highrestuple_pt()
        a, b = g.app(m.ctm, (0, 0)), g.app(m.ctm, (1, 1))
        require(abs((a[0]+b[0])/2-(bx[0]+bx[2])/2) < 0.02 and abs((a[1]+b[1])/2-(bx[1]+bx[3])/2) < 0.02, "centre of %r and %r in the box %r", a, b, bx)
        require(a[0] <= bx[0]+0.02 and a[1] <= bx[1]+0.02 and b[0] >= bx[2]-0.02 and b[1] >= bx[3]-0.02, "%r %r does not cover the box %r", a, b, bx)
        require(b[0]-a[0] <= bx[2]-bx[0]+4 and b[1]-a[1] <= bx[3]-bx[1]+4, "%r %r for the box %r", a, b, bx)
        d = m.xobject.dict
        W, H = d["Width"], d["Height"]
        alpha = pdf.get(d["SMask"]).data()
        ink = [(k % W, k // W) for k in range(0, len(alpha)) if alpha[k] > 127]
        require(ink, "empty image")
        xs = [a[0]+(b[0]-a[0])*i/W for i in (min(p[0] for p in ink), max(p[0] for p in ink)+1)]
        ys = [b[1]-(b[1]-a[1])*j/H for j in (max(p[1] for p in ink)+1, min(p[1] for p in ink))]
        want = (bx[0], bx[1], (bx[0]+bx[2])/2, (bx[1]+bx[3])/2)
        require(all(abs(p-q) < 0.3 for p, q in zip((xs[0], ys[0], xs[1], ys[1]), want)), "ink in %r %r instead of %r", xs, ys, want)
        return case
    return Space("pdf", gen, run, dict(boxes=3), cpu=120)


def spaces(tier):
    return [space_files(tier), space_buffer(tier), space_broken(tier), space_place(tier), space_arguments(tier), space_pdf(tier)]
