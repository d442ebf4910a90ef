"""P16: bitmaps keep every pixel through encoding, palette and alpha."""
import base64, io, itertools, re, struct
from PIL import Image
from mc import core, machines
from mc import geom as g
from mc.core import Space, require
from pyx import bitmap, canvas, trafo, unit

PROPERTY = "P16"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of small images (modes, sizes, pixel values over boundary alphabets), encodings and placements, decoded by an independent PostScript machine, PDF reader and SVG reader and compared with the input pixels and the requested corners"
LEVEL_NOTE = "All data lengths up to several lines and all 4-byte groups over the boundary bytes, all modes with all palettes, compressions and PostScript storage options, all placements by width, height, ratio and resolution under all canvas transformations of an alphabet."
RULE = "A case is one image with its encoding options and placement in the three output formats; outcomes are the decoded description of the image."
ASSUMPTIONS = ["The decoders of zlib and of the Python imaging library (for JPEG and PNG data) are right.",
               "PostScript shows a masked image by a yes/no mask; only the mask samples written are compared."]

PT = 72/2.54
DEV = {"L": "DeviceGray", "RGB": "DeviceRGB", "CMYK": "DeviceCMYK"}
OPAQUE = [0, 255]


# ------------------------------------------------------------ reference description of an image
class Ref:
    """size, colour mode, bytes per pixel in colour mode (or palette indices), palette, alpha"""

    def __init__(self, size, mode, data, alpha=None, palette=None):
        self.size, self.mode, self.data, self.alpha, self.palette = size, mode, data, alpha, palette

    def colors(self):
        if self.palette is None:
            n = len(self.mode)
            return [tuple(self.data[i:i+n]) for i in range(0, len(self.data), n)]
        pm, pd = self.palette
        n = len(pm)
        return [tuple(pd[n*i:n*i+n]) for i in self.data]

    def rgba(self):
        """what a PNG decoder returns"""
        m = self.mode if self.palette is None else self.palette[0]
        c = [(p[0],)*3 if m == "L" else p for p in self.colors()]
        a = self.alpha if self.alpha is not None else bytes([255])*len(c)
        return [x+(y,) for x, y in zip(c, a)]


def own(size, mode, data, palette=None):
    """image object of PyX with its reference"""
    im = bitmap.image(size[0], size[1], mode, bytes(data), palette=None if palette is None else bitmap.palette(*palette))
    n = len(mode)
    px = [data[i:i+n] for i in range(0, len(data), n)]
    alpha = None
    if mode[0] == "A":
        alpha, px, mode = bytes(p[0] for p in px), [p[1:] for p in px], mode[1:]
    elif mode[-1] == "A":
        alpha, px, mode = bytes(p[-1] for p in px), [p[:-1] for p in px], mode[:-1]
    return im, Ref(size, mode, b"".join(bytes(p) for p in px), alpha, palette)


def corners(m):
    return [g.app(m, p) for p in ((0, 1), (1, 1), (0, 0))]


def near(a, b, tol=2e-3):
    return all(abs(x-y) <= tol for p, q in zip(a, b) for x, y in zip(p, q))


def datablocks(data):
    """line counts announced by %%BeginData"""
    lines = data.split(b"\n")
    i = n = 0
    while i < len(lines):
        require(len(lines[i]) <= 255, "line of %d characters", len(lines[i]))
        m = re.fullmatch(rb"%%BeginData: (\d+) ASCII Lines", lines[i])
        if m:
            e = i+1
            while e < len(lines) and not lines[e].startswith(b"%%EndData"):
                e += 1
            require(e < len(lines), "no %%EndData")
            require(e-i-1 == int(m.group(1)), "%s is followed by %d lines", lines[i], e-i-1)
            n += 1
            i = e
        else:
            require(not lines[i].startswith(b"%%BeginData"), "comment %r", lines[i])
            require(not lines[i].startswith(b"%%EndData"), "%%EndData without %%BeginData")
        i += 1
    return n


def psimage(data):
    datablocks(data)
    ms = machines.psmarks(data)
    require(len(ms) == 1 and ms[0].op == "image", "PostScript draws %r", [m.op for m in ms])
    m = ms[0]
    if isinstance(m.cs, tuple) or isinstance(m.cs, list):
        kind, base, hival, table = m.cs
        require(str(kind) == "Indexed", "colour space %r", m.cs)
        base = {v: k for k, v in DEV.items()}[str(base)]
        require(len(table) == (hival+1)*len(base), "palette of %d bytes for %d entries of %s", len(table), hival+1, base)
        require(m.decode == [0, 255], "decode array %r", m.decode)
        r = Ref((m.width, m.height), "P", m.data, m.smask, (base, bytes(table)))
    else:
        mode = {v: k for k, v in DEV.items()}[str(m.cs)]
        require(m.decode == [0, 1]*len(mode), "decode array %r", m.decode)
        r = Ref((m.width, m.height), mode, m.data, m.smask)
    c = [g.app(m.place, p) for p in ((0, 0), (m.width, 0), (0, m.height))]
    return r, c, m.parts


def pdfimage(data):
    pdf = machines.PDF(data)
    ms = pdf.marks(pdf.pages()[0])
    require(len(ms) == 1 and ms[0].op == "image", "PDF draws %r", [m.op for m in ms])
    m = ms[0]
    x = pdfxobject(pdf, m)
    d = x.dict
    require(d["Subtype"] == "Image" and d["BitsPerComponent"] == 8, "image %r", d)
    require("Decode" not in d, "decode array %r", d)
    raw = x.data()
    cs = pdf.get(d["ColorSpace"])
    size = (d["Width"], d["Height"])
    if isinstance(cs, list):
        require(cs[0] == "Indexed", "colour space %r", cs)
        base = {v: k for k, v in DEV.items()}[str(cs[1])]
        table = pdf.get(cs[3])
        table = table.data() if isinstance(table, machines.Stream) else table
        require(len(table) == (cs[2]+1)*len(base), "palette of %d bytes for %d entries of %s", len(table), cs[2]+1, base)
        r = Ref(size, "P", raw, None, (base, table))
        n = 1
    else:
        mode = {v: k for k, v in DEV.items()}[str(cs)]
        r = Ref(size, mode, raw)
        n = len(mode)
    require(len(raw) == n*size[0]*size[1], "%d bytes of image data for %s pixels", len(raw), size)
    if "SMask" in d:
        s = pdf.get(d["SMask"])
        require((s.dict["Width"], s.dict["Height"], s.dict["ColorSpace"], s.dict["BitsPerComponent"]) == size+("DeviceGray", 8), "soft mask %r", s.dict)
        r.alpha = s.data()
        require(len(r.alpha) == size[0]*size[1], "%d bytes of soft mask", len(r.alpha))
    return r, corners(m.ctm), x


def pdfxobject(pdf, m):
    return m.xobject


def svgimage(data):
    ms = machines.svgmarks(data)
    require(len(ms) == 1 and ms[0].op == "image", "SVG draws %r", [m.op for m in ms])
    m = ms[0]
    a = m.attrib
    require(a.get("preserveAspectRatio") == "none", "aspect ratio is preserved")
    x, y, w, h = (float(a.get(k, 0)) for k in ("x", "y", "width", "height"))
    mm = re.fullmatch(r"data:image/(png|jpeg);base64,(.*)", m.href)
    require(mm, "reference %r", m.href[:40])
    raw = base64.b64decode(mm.group(2), validate=True)
    c = [g.app(m.ctm, p) for p in ((x, y), (x+w, y), (x, y+h))]
    return mm.group(1), raw, c


def png(raw):
    im = Image.open(io.BytesIO(raw))
    im.load()
    require(im.format == "PNG", "format %s", im.format)
    return im.size, list(im.convert("RGBA").get_flattened_data() if hasattr(im, "get_flattened_data") else im.convert("RGBA").getdata())


def write(c, kind, **kw):
    f = io.BytesIO()
    getattr(c, "write%sfile" % kind)(f, **kw)
    return f.getvalue()


def same(what, got, ref):
    require(got.size == ref.size, "%s: size %s instead of %s", what, got.size, ref.size)
    if ref.palette is not None:
        require(got.palette is not None and got.palette[0] == ref.palette[0], "%s: palette %r", what, got.palette and got.palette[0])
        require(got.data == ref.data, "%s: indices %r instead of %r", what, got.data[:50], ref.data[:50])
        require(got.palette[1] == ref.palette[1], "%s: palette %r instead of %r", what, got.palette[1][:30], ref.palette[1][:30])
    else:
        require(got.palette is None and got.mode == ref.mode, "%s: mode %s instead of %s", what, got.mode, ref.mode)
        require(got.data == ref.data, "%s: pixels %r instead of %r", what, got.data[:50], ref.data[:50])
    require(got.alpha == ref.alpha, "%s: alpha %r instead of %r", what, got.alpha, ref.alpha)


PLACE = g.mul(g.translate(3, 5), (40, 0, 0, 30, 0, 0))


def put(im, **kw):
    c = canvas.canvas()
    c.insert(bitmap.bitmap_trafo(trafo.trafo_pt(((40, 0), (0, 30)), (3, 5)), im, **kw))
    return c


def check(im, ref, ps=True, pdf=True, svg=True, **kw):
    c = put(im, **kw)
    out = []
    if ps:
        r, co, parts = psimage(write(c, "EPS"))
        same("PostScript", r, ref)
        require(near(co, corners(PLACE)), "PostScript: corners %r", co)
        core.TRACE.step(True)
        out.append(0 if parts is None else len(parts))
        if kw.get("PSstoreimage") and parts is not None:
            require(all(len(p) <= kw.get("PSmaxstrlen", 4093) for p in parts), "strings of %s bytes", [len(p) for p in parts])
    if pdf:
        r, co, x = pdfimage(write(c, "PDF"))
        same("PDF", r, ref)
        require(near(co, corners(PLACE)), "PDF: corners %r", co)
        require(x.dict.get("Filter") == {None: None, "Flate": "FlateDecode", "DCT": "DCTDecode"}[kw.get("compressmode", "Flate")], "filter %r", x.dict.get("Filter"))
        core.TRACE.step(True)
    if svg and kw.get("compressmode", "Flate") == "Flate":
        color = ref.mode if ref.palette is None else ref.palette[0]
        try:
            data = write(c, "SVG")
        except (RuntimeError, OSError):
            require(color == "CMYK" or (isinstance(im, bitmap.image) and im.mode[0] == "A") or im.mode in ("YCbCr", "HSV", "LAB", "F", "PA", "CMYK"), "no SVG output of mode %s", im.mode)
        else:
            kind, raw, co = svgimage(data)
            require(kind == "png", "image/%s", kind)
            size, px = png(raw)
            require(size == ref.size and px == ref.rgba(), "SVG: pixels %r %r instead of %r", size, px[:12], ref.rgba()[:12])
            require(near(co, corners(PLACE)), "SVG: corners %r", co)
            core.TRACE.step(True)
    return (ref.size, ref.mode, ref.palette and (ref.palette[0], len(ref.palette[1])), ref.alpha is not None) + tuple(out)


# ------------------------------------------------------------ encoders
ENC = [dict(PSbinexpand=1), dict(PSbinexpand=2)] + [dict(PSstoreimage=1, PSmaxstrlen=n) for n in (1, 2, 3, 4, 5, 59, 60, 61, 63, 64, 120, 4093)]


def fill(kind, n):
    if kind == "zero":
        return bytes(n)
    if kind == "ones":
        return b"\xff"*n
    if kind == "ramp":
        return bytes((7*i+3) % 256 for i in range(n))
    return bytes(0 if (i//4) % 2 else 255-i % 256 for i in range(n))        # zero groups in between


def space_lengths(tier):
    top = 330 if tier == "quick" else 1000

    def gen():
        for kind in ("ramp", "zero", "ones", "groups"):
            for i in range(len(ENC)):
                for lo in range(1, top+1, 10):
                    yield (kind, i, lo)

    def run(case):
        kind, i, lo = case
        for n in range(lo, lo+10):
            d = fill(kind, n)
            im, ref = own((n, 1), "L", d)
            try:
                check(im, ref, pdf=False, svg=False, compressmode=None, **ENC[i])
            except core.Violation as e:
                require(False, "data of %d bytes: %s", n, e)
        return (kind, i, lo//60)
    return Space("lengths", gen, run, dict(lengths=top, options=len(ENC), data=4))


EDGE = (0, 1, 84, 85, 127, 128, 255)


def space_groups(tier):
    edge = EDGE if tier == "quick" else EDGE + (2, 83, 86, 126, 254)

    def gen():
        for enc in ({"PSbinexpand": 1}, {"PSbinexpand": 2}, {"PSstoreimage": 1}, {"PSstoreimage": 1, "PSmaxstrlen": 40}):
            for a in edge:
                for b in edge:
                    yield ("full", a, b, enc)
                    yield ("tail", a, b, enc)
                yield ("tail1", a, 0, enc)

    def run(case):
        kind, a, b, enc = case
        if kind == "full":
            d = b"".join(bytes((a, b, c, e)) for c in edge for e in edge)
            im, ref = own((len(d)//4, 4), "L", d)
            check(im, ref, pdf=False, svg=False, compressmode=None, **enc)
        elif kind == "tail1":
            for pre in (b"", b"\0\0\0\0", b"\xff\xff\xff\xff"):
                d = pre+bytes((a,))
                im, ref = own((len(d), 1), "L", d)
                check(im, ref, pdf=False, svg=False, compressmode=None, **enc)
        else:
            for pre in (b"", b"\0\0\0\0"):
                for tail in [b""] + [bytes((c,)) for c in edge]:
                    d = pre+bytes((a, b))+tail
                    im, ref = own((1, len(d)), "L", d)
                    check(im, ref, pdf=False, svg=False, compressmode=None, **enc)
        return (kind, len(enc), a == b)
    return Space("groups", gen, run, dict(bytes=len(edge)))


# ------------------------------------------------------------ modes
def palettes():
    yield ("RGB", bytes((255, 0, 7)))
    for n in (2, 3, 4, 21, 85, 86, 256):
        yield ("L", bytes((5+11*i) % 256 for i in range(n)))
        yield ("RGB", bytes((3+7*i) % 256 for i in range(3*n)))
        yield ("CMYK", bytes((1+5*i) % 256 for i in range(4*n)))


MODES = ["L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK", "P", "AP"]
OPTS = [dict(), dict(compressmode=None), dict(flatecompresslevel=0), dict(flatecompresslevel=9, PSbinexpand=2), dict(PSstoreimage=1), dict(PSstoreimage=1, PSmaxstrlen=7),
        dict(compressmode=None, PSstoreimage=1, PSmaxstrlen=5), dict(compressmode=None, PSstoreimage=1), dict(compressmode=None, PSbinexpand=2)]
SIZES = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 4), (1, 7), (5, 1)]


def space_modes(tier):
    def gen():
        for mode in MODES:
            pals = list(palettes()) if "P" in mode else [None]
            for pal in pals:
                for size in SIZES + ([(16, 16), (17, 3), (3, 17)] if tier == "thorough" else []):
                    for i in range(len(OPTS)):
                        yield (mode, pal, size, i)

    def run(case):
        mode, pal, size, i = case
        n = size[0]*size[1]
        top = 256 if pal is None else len(pal[1])//len(pal[0])
        data = []
        for k in range(n):
            for j, ch in enumerate(mode):
                if ch == "P":
                    data.append((k*5+top-1) % top)
                elif ch == "A":
                    data.append((255, 0, 128, 1, 254)[k % 5])
                else:
                    data.append((17*k+61*j+(255 if k % 2 else 0)) % 256)
        im, ref = own(size, mode, bytes(data), pal)
        return check(im, ref, **OPTS[i])
    return Space("modes", gen, run, dict(modes=len(MODES), palettes=len(list(palettes())), options=len(OPTS)))


def space_pixels(tier):
    """all values of one and two pixels"""
    def gen():
        for mode in MODES:
            one = list(itertools.product(*[((0, 1, 2) if c == "P" else (0, 1, 128, 255) if tier == "thorough" or len(mode) < 4 else (0, 128, 255)) for c in mode]))
            two = list(itertools.product(*[((0, 2) if c == "P" else (0, 255)) for c in mode]))
            for p in one:
                yield (mode, (1, 1), p)
            for p in two:
                for q in two:
                    if p != q:
                        yield (mode, (2, 1), p+q)
                        yield (mode, (1, 2), p+q)

    def run(case):
        mode, size, data = case
        im, ref = own(size, mode, bytes(data), ("RGB", bytes((9, 8, 7, 0, 128, 255, 1, 2, 3))) if "P" in mode else None)
        return check(im, ref) + (len(set(data)),)
    return Space("pixels", gen, run, dict(modes=len(MODES), values=3))


# ------------------------------------------------------------ images of the imaging library
PILMODES = ["1", "L", "LA", "P", "Pl", "Pa", "PA", "RGB", "RGBA", "CMYK", "YCbCr", "HSV", "LAB", "I", "F"]


def pilimage(kind, size):
    w, h = size
    n = w*h
    a = [(255, 0, 128)[k % 3] for k in range(n)]
    grey = Image.frombytes("L", size, bytes((40*k+9) % 256 for k in range(n)))
    rgb = Image.frombytes("RGB", size, bytes((37*k+5) % 256 for k in range(3*n)))
    pal = bytes((3+7*i) % 256 for i in range(12))
    idx = bytes((k*3+1) % 4 for k in range(n))
    if kind == "1":
        im = grey.convert("1", dither=Image.Dither.NONE)
        return im, Ref(size, "L", im.convert("L").tobytes())
    if kind == "L":
        return grey, Ref(size, "L", grey.tobytes())
    if kind == "LA":
        im = grey.copy(); im.putalpha(Image.frombytes("L", size, bytes(a)))
        return im, Ref(size, "L", grey.tobytes(), bytes(a))
    if kind in ("P", "Pl", "Pa", "PA"):
        im = Image.frombytes("P", size, idx)
        if kind == "Pa":
            im.putpalette(bytes((3+7*i) % 256 for i in range(16)), "RGBA")
            # palettes with alpha channel are converted, dropping the alpha
            return im, Ref(size, "RGB", im.convert("RGB").tobytes())
        im.putpalette(pal, "RGB")
        if kind == "PA":
            im = im.convert("PA")
            im.putalpha(Image.frombytes("L", size, bytes(a)))
            return im, Ref(size, "P", idx, bytes(a), ("RGB", pal))
        return im, Ref(size, "P", idx, None, ("RGB", pal))
    if kind == "RGB":
        return rgb, Ref(size, "RGB", rgb.tobytes())
    if kind == "RGBA":
        im = rgb.copy(); im.putalpha(Image.frombytes("L", size, bytes(a)))
        return im, Ref(size, "RGB", rgb.tobytes(), bytes(a))
    if kind == "CMYK":
        im = Image.frombytes("CMYK", size, bytes((37*k+5) % 256 for k in range(4*n)))
        return im, Ref(size, "CMYK", im.tobytes())
    if kind in ("YCbCr", "HSV"):
        im = rgb.convert(kind)
        return im, Ref(size, "RGB", im.convert("RGB").tobytes())
    if kind == "LAB":
        return None, None
    im = grey.convert(kind)
    return im, Ref(size, "L", grey.tobytes())


def space_pil(tier):
    def gen():
        for kind in PILMODES:
            for size in SIZES:
                for i in range(len(OPTS)):
                    yield (kind, size, i)

    def run(case):
        kind, size, i = case
        im, ref = pilimage(kind, size)
        if im is None:
            return None
        c = put(im, **OPTS[i])
        # the palettes of the library may be padded
        r, co, parts = psimage(write(c, "EPS"))
        r2, co2, x = pdfimage(write(c, "PDF"))
        for what, q in (("PostScript", r), ("PDF", r2)):
            require(q.size == ref.size, "%s: size %r", what, q.size)
            require((q.palette is None and q.mode == ref.mode) or (q.palette is not None and ref.palette is not None and q.palette[0] == ref.palette[0]), "%s: mode %s", what, q.mode)
            require(q.colors() == ref.colors(), "%s: %r instead of %r", what, q.colors()[:8], ref.colors()[:8])
            require(q.alpha == ref.alpha, "%s: alpha %r instead of %r", what, q.alpha, ref.alpha)
        require(near(co, corners(PLACE)) and near(co2, corners(PLACE)), "corners %r %r", co, co2)
        if OPTS[i].get("compressmode", "Flate") == "Flate" and kind in ("1", "L", "LA", "P", "RGB", "RGBA"):
            k, raw, co = svgimage(write(c, "SVG"))
            s, px = png(raw)
            require(s == ref.size and px == ref.rgba(), "SVG: %r instead of %r", px[:9], ref.rgba()[:9])
        return (kind, size, i)
    return Space("pil", gen, run, dict(modes=len(PILMODES), sizes=len(SIZES)))


# ------------------------------------------------------------ JPEG
def smooth(mode, size):
    n = len(mode)
    return Image.frombytes(mode, size, bytes((30*j+2*x+3*y) % 256 for y in range(size[1]) for x in range(size[0]) for j in range(n)))


def jpegparts(im, **kw):
    f = io.BytesIO()
    im.save(f, "jpeg", **kw)
    return f.getvalue()


def space_dct(tier):
    """compression by the imaging library"""
    def gen():
        for mode in ("L", "RGB", "CMYK"):
            for size in ((1, 1), (8, 8), (9, 17), (33, 20)):
                for q in (1, 30, 75, 95):
                    for prog in (0, 1):
                        for opt in (0, 1):
                            for store in (0, 1):
                                yield (mode, size, q, prog, opt, store)

    def run(case):
        mode, size, q, prog, opt, store = case
        im = smooth(mode, size)
        refraw = jpegparts(im, quality=q, progressive=bool(prog), optimize=bool(opt))
        rim = Image.open(io.BytesIO(refraw)); rim.load()
        c = put(im, compressmode="DCT", dctquality=q, dctprogression=prog, dctoptimize=opt, PSstoreimage=store, PSmaxstrlen=100)
        pdata = write(c, "PDF")
        pdf = machines.PDF(pdata)
        x = pdfxobject(pdf, pdf.marks(pdf.pages()[0])[0])
        require(x.dict["Filter"] == "DCTDecode", "filter %r", x.dict["Filter"])
        jim = Image.open(io.BytesIO(x.raw)); jim.load()
        require(jim.size == size and jim.mode == mode, "JPEG data of %s %s", jim.size, jim.mode)
        require((x.dict["Width"], x.dict["Height"]) == size and x.dict["ColorSpace"] == DEV[mode], "image %r", x.dict)
        require(bool(jim.info.get("progressive")) == bool(prog), "progressive: %r", jim.info)
        require(jim.quantization == rim.quantization, "other quality")
        require(len(x.raw) <= len(refraw)+40 if opt else True, "not optimised: %d, %d bytes", len(x.raw), len(refraw))
        require(max(abs(a-b) for a, b in zip(machines.undct(x.raw)[0], im.tobytes())) <= {1: 120, 30: 30, 75: 16, 95: 8}[q], "pixels differ")
        r, co, parts = psimage(write(c, "EPS"))
        require(r.size == size and r.mode == mode and r.data == machines.undct(x.raw)[0], "PostScript has other pixels")
        if mode != "CMYK":
            kind, raw, co = svgimage(write(c, "SVG"))
            sim = Image.open(io.BytesIO(raw)); sim.load()
            require(kind == "jpeg" and sim.format == "JPEG" and sim.size == size and sim.mode == mode, "SVG image %s %s", kind, sim.format)
        return (mode, size, prog, opt)
    return Space("dct", gen, run, dict(modes=3, qualities=4))


def seg(marker, body):
    return bytes((0xff, marker)) + struct.pack(">H", len(body)+2) + body


EXTRA = [None,
         seg(0xfe, b"comment"),
         seg(0xfe, b"\xff\xd8 nested \xff\xd9"),
         seg(0xfe, b"\xff\xd9"),
         seg(0xfe, b"\xff\xc0\x00\x0b\x08\x00\x63\x00\x63\x01\x01\x11\x00"),
         seg(0xe1, b"Exif\0\0\xff\xd8\xff\xdb\x00\x04\x00\x00\xff\xc0\x00\x0b\x08\x01\x00\x02\x00\x03\x01\xff\xd9"),
         seg(0xe1, b"Exif\0\0" + bytes(range(256))),
         seg(0xe0, b"JFXX\0\x10\xff\xd8\xff\xd9"),
         seg(0xed, b"\xff\xff\xff\xd8"),
         seg(0xee, b"\xff"),
         seg(0xe2, b"ICC\0" + b"\xff\xc2\0\x11\x08\0\x05\0\x06\x03")]
DPI = [None, (0, 1, 1), (0, 3, 2), (1, 72, 72), (1, 300, 150), (1, 1, 65535), (2, 100, 50)]


def space_jpegfile(tier):
    def gen():
        for mode in ("L", "RGB", "CMYK"):
            for size in ((1, 1), (8, 3), (300, 2)):
                for prog in (0, 1):
                    for a in range(len(EXTRA)):
                        for d in range(len(DPI)):
                            for where in (0, 1):
                                if tier == "thorough" or where == 0 or d in (0, 4):
                                    yield (mode, size, prog, a, d, where)

    def run(case):
        mode, size, prog, a, d, where = case
        raw = jpegparts(smooth(mode, size), quality=60, progressive=bool(prog))
        require(raw[:2] == b"\xff\xd8", "no JPEG data")
        body = raw[2:]
        while body[1] in (0xe0, 0xee):       # drop JFIF and Adobe segments
            n = struct.unpack(">H", body[2:4])[0]
            body = body[2+n:]
        head = []
        if DPI[d] is not None:
            head.append(seg(0xe0, b"JFIF\0\x01\x01" + struct.pack(">BHH", *DPI[d]) + b"\0\0"))
        if EXTRA[a] is not None:
            head.append(EXTRA[a])
        if where and len(head) == 1:
            head += [seg(0xfe, b"x")]
        if where and DPI[d] is None:
            head = head[::-1]
        jdata = b"\xff\xd8" + b"".join(head) + body
        im = bitmap.jpegimage(io.BytesIO(jdata))
        require(im.size == size, "size %r", im.size)
        require(im.mode == mode, "mode %r", im.mode)
        kw = dict(compressmode=None)
        c = canvas.canvas()
        if DPI[d] is not None and DPI[d][0] in (1, 2):
            f = 1 if DPI[d][0] == 1 else 2.54
            c.insert(bitmap.bitmap(0, 0, im, **kw))
            want = (size[0]*72/(DPI[d][1]*f), size[1]*72/(DPI[d][2]*f))
        else:
            try:
                bitmap.bitmap(0, 0, im, **kw)
            except Exception:
                pass
            else:
                require(False, "image without resolution has a size")
            c.insert(bitmap.bitmap_pt(0, 0, im, width_pt=50, height_pt=20, **kw))
            want = (50, 20)
        if min(want) > 0.1:
            bb = c.bbox()
            require(near([bb.highrestuple_pt()[2:]], [want], 1e-3*max(want)), "image of %r instead of %r", bb.highrestuple_pt(), want)
        m = machines.PDF(write(c, "PDF"))
        x = pdfxobject(m, m.marks(m.pages()[0])[0])
        require(x.raw == jdata, "JPEG data changed: %d bytes of %d", len(x.raw), len(jdata))
        require(x.dict["Filter"] == "DCTDecode" and (x.dict["Width"], x.dict["Height"]) == size and x.dict["ColorSpace"] == DEV[mode], "image %r", x.dict)
        if a < 4:
            r, co, parts = psimage(write(c, "EPS"))
            require(r.size == size and r.mode == mode, "PostScript %r", (r.size, r.mode))
            if mode != "CMYK":
                kind, sraw, co = svgimage(write(c, "SVG"))
                require(kind == "jpeg" and sraw == jdata, "SVG has other data")
        return (mode, size, d)
    return Space("jpegfile", gen, run, dict(segments=len(EXTRA), resolutions=len(DPI)))


# ------------------------------------------------------------ placement
SIZ = [dict(w=20), dict(h=15), dict(w=20, h=15), dict(w=20, ratio=2.5), dict(h=15, ratio=2.5), dict(h=15, ratio=0.3), dict(dpi=(72, 72)), dict(dpi=(300, 100)), dict(w=20, dpi=(10, 20))]
TR = [("id", lambda: []), ("rot", lambda: [trafo.rotate(30)]), ("scale", lambda: [trafo.scale(2, 3)]), ("mirror", lambda: [trafo.mirror(20)]),
      ("shear", lambda: [trafo.slant(0.5)]), ("shift", lambda: [trafo.translate_pt(11, -7)]), ("two", lambda: [trafo.rotate(90), trafo.translate_pt(5, 6)])]
TM = {"id": g.IDENT}


def mat(ts):
    m = g.IDENT
    for t in ts:
        (a, b), (c, d) = t.matrix
        m = g.mul((a, c, b, d)+tuple(t.vector), m)
    return m


def space_place(tier):
    def gen():
        for s in range(len(SIZ)):
            for size in ((1, 1), (4, 2), (2, 5)):
                for pos in ((0, 0), (3, -4)):
                    for t in range(len(TR)):
                        for kind in ("pt", "unit", "insert"):
                            yield (s, size, pos, t, kind)

    def run(case):
        s, size, pos, t, kind = case
        o = SIZ[s]
        im = bitmap.image(size[0], size[1], "L", bytes(range(1, 1+size[0]*size[1])))
        ratio = o.get("ratio", size[0]/size[1])
        w, h = o.get("w"), o.get("h")
        if "dpi" in o:
            im.info = {"dpi": o["dpi"]}
        if w is None and h is None:
            w, h = 72*size[0]/o["dpi"][0], 72*size[1]/o["dpi"][1]
        elif h is None:
            h = w/ratio
        elif w is None:
            w = h*ratio
        kw = {k: o[k] for k in ("ratio",) if k in o}
        ts = TR[t][1]()
        m = g.mul(g.translate(*pos), (w, 0, 0, h, 0, 0))
        if kind == "unit":
            if "w" in o: kw["width"] = o["w"]/PT
            if "h" in o: kw["height"] = o["h"]*unit.t_pt
            b = bitmap.bitmap(pos[0]/PT, pos[1]*unit.t_pt, im, **kw)
        else:
            if "w" in o: kw["width_pt"] = o["w"]
            if "h" in o: kw["height_pt"] = o["h"]
            b = bitmap.bitmap_pt(pos[0], pos[1], im, **kw)
        m = g.mul(mat(ts), m)
        if kind == "insert":
            inner = canvas.canvas()
            inner.insert(b)
            c = canvas.canvas()
            c.insert(inner, ts)
        else:
            c = canvas.canvas(ts)
            c.insert(b)
        want = corners(m)
        bb = c.bbox().highrestuple_pt()
        pts = [g.app(m, p) for p in ((0, 0), (1, 0), (0, 1), (1, 1))]
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        require(near([bb[:2], bb[2:]], [(min(xs), min(ys)), (max(xs), max(ys))]), "box %r", bb)
        out = []
        for fmt, f in (("EPS", psimage), ("PDF", pdfimage), ("SVG", svgimage)):
            d = f(write(c, fmt))
            co = d[2] if fmt == "SVG" else d[1]
            require(near(co, want), "%s: corners %r instead of %r", fmt, co, want)
            core.TRACE.step(True)
        return (s, size, t, kind)
    return Space("place", gen, run, dict(sizes=len(SIZ), transformations=len(TR)))


# ------------------------------------------------------------ several images in one document
def space_several(tier):
    """pairs and triples of images sharing data, modes or palettes"""
    pool = [((2, 2), "L", b"abcd", None), ((4, 1), "L", b"abcd", None), ((1, 4), "L", b"abcd", None), ((1, 1), "CMYK", b"abcd", None), ((2, 2), "P", b"\0\1\0\1", ("L", b"ab")),
            ((2, 2), "P", b"\0\1\0\1", ("L", b"ba")), ((2, 2), "L", b"\0\1\0\1", None), ((1, 1), "RGBA", b"abcd", None), ((1, 1), "ARGB", b"dabc", None), ((1, 1), "ARGB", b"xabc", None), ((1, 1), "RGB", b"abc", None),
            ((2, 1), "LA", b"abcd", None), ((2, 1), "L", b"ac", None), ((2, 1), "AL", b"bacd"[:4], None)]

    def gen():
        n = len(pool)
        for o in (dict(), dict(compressmode=None), dict(PSstoreimage=1), dict(PSstoreimage=1, PSmaxstrlen=2), dict(compressmode=None, PSstoreimage=1)):
            for i in range(n):
                for j in range(n):
                    yield (o, (i, j))
            if tier == "thorough":
                for t in itertools.product(range(n), repeat=3):
                    yield (o, t)
        for a in range(5):
            for b in range(5):
                yield ((a, b), (0, 0))
                yield ((a, b), (4, 5))

    def run(case):
        o, ids = case
        opts = [dict(), dict(compressmode=None), dict(PSstoreimage=1), dict(PSstoreimage=1, PSmaxstrlen=2), dict(compressmode=None, PSstoreimage=1)]
        c = canvas.canvas()
        refs = []
        for k, i in enumerate(ids):
            im, ref = own(*pool[i])
            kw = opts[o[k]] if isinstance(o, tuple) else o
            c.insert(bitmap.bitmap_pt(20*k, 0, im, width_pt=10, height_pt=10, **kw))
            refs.append(ref)
        data = write(c, "EPS")
        datablocks(data)
        ps = machines.psmarks(data)
        pdf = machines.PDF(write(c, "PDF"))
        pm = pdf.marks(pdf.pages()[0])
        require(len(ps) == len(refs) and len(pm) == len(refs), "%d and %d images", len(ps), len(pm))
        for k, (a, b, ref) in enumerate(zip(ps, pm, refs)):
            n = 1 if isinstance(a.cs, (tuple, list)) else len({v: k for k, v in DEV.items()}[str(a.cs)])
            require((a.width, a.height) == ref.size and a.data == ref.data and a.smask == ref.alpha, "PostScript: image %d is %r %r", k, (a.width, a.height), a.data)
            if ref.palette:
                require(str(a.cs[1]) == DEV[ref.palette[0]] and bytes(a.cs[3]) == ref.palette[1], "palette %r", a.cs)
            else:
                require(str(a.cs) == DEV[ref.mode], "colour space %r", a.cs)
            x = pdfxobject(pdf, b)
            sm = pdf.get(x.dict.get("SMask"))
            cs = pdf.get(x.dict["ColorSpace"])
            require((x.dict["Width"], x.dict["Height"]) == ref.size and x.data() == ref.data and (sm.data() if sm else None) == ref.alpha, "PDF: image %d is %r %r", k, x.dict, x.data())
            if ref.palette:
                require(cs[0] == "Indexed" and cs[1] == DEV[ref.palette[0]] and pdf.get(cs[3]).data() == ref.palette[1], "palette %r", cs)
            else:
                require(cs == DEV[ref.mode], "colour space %r", cs)
            core.TRACE.step(True)
        return ids
    return Space("several", gen, run, dict(images=len(pool)))


# ------------------------------------------------------------ construction
def space_invalid(tier):
    def gen():
        for mode in MODES:
            for size in ((1, 1), (2, 3), (0, 1), (1, 0), (-1, 1), (1, -2)):
                for delta in (-1, 0, 1):
                    yield (mode, size, delta)
        for mode in ("", "A", "XYZ", "rgb", "BGR", "RGBX", "LL"):
            yield (mode, (1, 1), 0)

    def run(case):
        mode, size, delta = case
        n = len(mode)*size[0]*size[1]+delta
        ok = mode in MODES and size[0] > 0 and size[1] > 0 and delta == 0
        try:
            bitmap.image(size[0], size[1], mode, bytes(max(n, 0)))
        except ValueError:
            require(not ok, "valid image is rejected")
        else:
            require(ok, "invalid image is accepted")
        return (mode, ok)
    return Space("invalid", gen, run, dict(modes=len(MODES)))


def spaces(tier):
    return [space_lengths(tier), space_groups(tier), space_modes(tier), space_pixels(tier), space_pil(tier), space_dct(tier), space_jpegfile(tier), space_place(tier), space_several(tier), space_invalid(tier)]
