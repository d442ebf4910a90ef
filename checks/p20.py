"""P20: Type 1 fonts survive reading, subsetting and encoding."""
import ctypes, importlib.util, io, itertools, logging, math, os, re, shutil, subprocess, sys, sysconfig, tempfile
from mc import core, geom as g, machines, t1
from mc.core import Space, require, close
from pyx import bbox, canvas, color, document, path, style, trafo, unit
from pyx import font as pyxfont
from pyx import writer as pyxwriter
from pyx.font import t1file, t1code
from pyx.font.afmfile import AFMfile

logging.getLogger("pyx").setLevel(logging.CRITICAL)

PROPERTY = "P20"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of charstring programs over an operator alphabet, of subroutine and composite call graphs with every glyph subset, of container layouts and of byte strings for the ciphers, run on the real Type 1 code and compared with an independent Type 1 reader, interpreter and PostScript/PDF text machines; plus every glyph of a fixed list of installed fonts"
LEVEL_NOTE = "Charstrings up to 3 (4) operators after the side bearing, call graphs over 3 glyphs and 3 subroutines, all glyph subsets, all container options, all strings up to 2 bytes (and all chunk lengths) for both keys in Python and C, texts up to 3 characters with all options."
RULE = "A case is a charstring prefix with all its extensions, one font with one glyph subset, one container layout, one block of byte strings, one installed font, or one text with its options; non-trivial if an outline was drawn; outcomes are outlines or encoded bytes."
ASSUMPTIONS = ["The composite accent is placed at sbx(composite)+adx-asb as in the Type 1 specification and in all common interpreters.",
               "Sparse Subrs arrays and charstring programs which rely on PostScript procedures other than OtherSubrs 0-3, 12, 13 are not covered."]


# ------------------------------------------------------------ comparison
def topath(ops):
    p = machines.Path()
    for o in ops:
        if o[0] == "m":
            p.moveto(o[1])
        elif o[0] == "l":
            p.lineto(o[1])
        elif o[0] == "c":
            p.curveto(*o[1:])
        else:
            p.close()
    return p.done()


def mapped(subs, m):
    return [(c, [tuple(g.app(m, p) for p in s) for s in segs]) for c, segs in subs]


def pathsof(paths):
    """what the machine sees of filled PyX paths"""
    c = canvas.canvas()
    for p in paths:
        c.fill(p)
    f = io.BytesIO()
    document.document([document.page(c)]).writePSfile(f)
    return [m.path for m in machines.psmarks(f.getvalue())]


TOL = 2e-5


def compare(font, glyphs, t1f, size=1000.0, x=0.0, y=0.0, flex=True, tol=TOL):
    """every glyph of the reference font against PyX' reading of it"""
    paths, want = [], []
    sig = []
    for n in glyphs:
        o = t1.Outline(font, n, flex)
        gp = t1f.getglyphpath_pt(x, y, n, size, flex=flex)
        m = tuple(font.matrix)
        w = g.app((size*m[0], size*m[1], size*m[2], size*m[3], 0, 0), o.width)
        require(abs(gp.wx_pt-w[0]) < 1e-6*size and abs(gp.wy_pt-w[1]) < 1e-6*size, "width of %s is (%g, %g) instead of (%g, %g), charstring %r", n, gp.wx_pt, gp.wy_pt, w[0], w[1], t1.decode(font.glyphs[n])[:60])
        paths.append(gp.path)
        want.append((n, mapped(topath(o.ops), g.mul((size, 0, 0, size, x, y), m))))
        sig.append((n, round(o.width[0], 3), len(o.ops), round(o.x, 3), round(o.y, 3)))
    marks = pathsof(paths)
    require(len(marks) == len(want), "%d filled paths for %d glyphs", len(marks), len(want))
    for (n, w), p in zip(want, marks):
        r = machines.samepath(p, w, tol)
        require(r is None, "glyph %s: %s, charstring %r", n, r, t1.decode(font.glyphs[n])[:80])
    return sig


# ------------------------------------------------------------ charstrings
FLEXSUBRS = [[3, 0, "callothersubr", "pop", "pop", "setcurrentpoint", "return"], [0, 1, "callothersubr", "return"],
             [0, 2, "callothersubr", "return"], ["return"]]
SUBRS = FLEXSUBRS + [[17, -23, "rlineto", "return"],                              # 4 a line
                     [1, 3, "callothersubr", "pop", "callsubr", "return"],        # 5 never used as is
                     [12, 31, "hstem", "return"],                                # 6 hint subroutine
                     [5, 7, "return"],                                           # 7 two numbers
                     [4, "callsubr", 29, "hlineto", "return"],                   # 8 nested
                     [13, 19, 41, "return"],                                     # 9 three numbers
                     [11, 61, "vstem", 6, "callsubr", "return"]]                 # 10 nested hint


def flexcmds(d, x, y):
    """a horizontal flex by its seven relative moves, ending at (x, y)"""
    c = [1, "callsubr"]
    for p in d:
        c += [p[0], p[1], "rmoveto", 2, "callsubr"]
    return c + [50, x, y, 0, "callsubr"]


FLEX = [(60, 3), (-45, -3), (10, 8), (35, 0), (37, 0), (12, -8), (-2, -1)]


class Bare:
    """just enough of a font to execute a charstring"""
    subrs = {i: t1.encode(c) for i, c in enumerate(SUBRS)}

    def __init__(self, cmds):
        self.glyphs = {"x": t1.encode(cmds)}


def endpoint(cmds):
    o = t1.Outline(Bare(cmds), "x")
    return o.x, o.y


# name -> (commands, needs an open path, leaves it open)
N, O, ANY = False, True, None
TOKENS = {
    "rmoveto": ([31, -47, "rmoveto"], N, O), "hmoveto": ([53, "hmoveto"], N, O), "vmoveto": ([-59, "vmoveto"], N, O),
    "rlineto": ([67, 71, "rlineto"], O, O), "hlineto": ([-73, "hlineto"], O, O), "vlineto": ([79, "vlineto"], O, O),
    "rrcurveto": ([10, 21, 32, -44, 55, 67, "rrcurveto"], O, O), "vhcurveto": ([33, 45, 58, 70, "vhcurveto"], O, O),
    "hvcurveto": ([-35, 46, 59, -72, "hvcurveto"], O, O), "closepath": (["closepath"], O, N),
    "hstem": ([15, 27, "hstem"], ANY, ANY), "vstem": ([16, 28, "vstem"], ANY, ANY), "dotsection": (["dotsection"], ANY, ANY),
    "hstem3": ([1, 2, 3, 4, 5, 6, "hstem3"], ANY, ANY), "vstem3": ([2, 3, 4, 5, 6, 7, "vstem3"], ANY, ANY),
    "div": ([77, 2, "div", -31, 4, "div", "rlineto"], O, O), "div2": ([700, 300, 7, "div", "rmoveto"], N, O),
    "big": ([1000, -1131, "rlineto"], O, O), "large": ([3200, 40000, 100, "div", "rlineto"], O, O),
    "subr": ([4, "callsubr"], O, O), "nested": ([8, "callsubr"], O, O), "args": ([7, "callsubr", "rlineto"], O, O),
    "args3": ([38, 9, "callsubr", "vhcurveto"], O, O), "argmove": ([7, "callsubr", "rmoveto"], N, O),
    "hints": ([6, 1, 3, "callothersubr", "pop", "callsubr"], ANY, ANY), "hints4": ([10, 4, "callsubr"], None, None),
    "flex": (FLEX, O, O),
    "counter": ([22, 33, 44, 3, 13, "callothersubr"], ANY, ANY),
    "counters": (list(range(1, 23)) + [22, 12, "callothersubr", 5, 6, 2, 13, "callothersubr"], ANY, ANY),
}
del TOKENS["hints4"]
SIDE = {"hsbw": [23, 611, "hsbw"], "sbw": [23, 41, 611, 17, "sbw"], "neg": [-23, 0, "hsbw"], "div": [47, 3, "div", 1223, 2, "div", "hsbw"]}


def legal(seq):
    open_ = False
    for t in seq:
        _, need, leaves = TOKENS[t]
        if need is not None and need != open_:
            return None
        if leaves is not None:
            open_ = leaves
    return open_


def program(side, seq, open_):
    c = list(SIDE[side])
    for t in seq:
        if t == "flex":
            x, y = endpoint(c)
            x, y = [v+sum(p[i] for p in FLEX) for i, v in enumerate((x, y))]
            # absolute coordinates need not be integers
            c += flexcmds(FLEX, *["X", "Y"])
            i = c.index("X")
            c[i:i+2] = [v for w in (x, y) for v in ([int(w)] if w == int(w) else [int(round(w*84)), 84, "div"])]
        else:
            c += TOKENS[t][0]
    if open_:
        c.append("closepath")
    return c + ["endchar"]


def gen_programs(depth):
    names = sorted(TOKENS)
    for side in sorted(SIDE):
        for k in range(depth):
            for seq in itertools.product(names, repeat=k):
                if legal(seq) is not None and (k == depth-1 or k == 0):
                    yield (side, seq)


def run_programs(case):
    """all one-operator extensions of a prefix as glyphs of one font"""
    side, prefix = case
    glyphs = {".notdef": [0, 250, "hsbw", "endchar"]}
    for t in [None] + sorted(TOKENS):
        seq = tuple(prefix) + ((t,) if t else ())
        o = legal(seq)
        if o is not None:
            glyphs["g."+(t or "end")] = program(side, seq, o)
    data = t1.build("Test", glyphs, SUBRS)
    font = t1.parse(data)
    f = t1file.T1File.from_PFB_bytes(data)
    names = sorted(glyphs)
    sig = compare(font, names, f)
    compare(font, names, f, flex=False)
    sig2 = compare(font, names[:3], f, size=12.5, x=101.25, y=-33.5, tol=1e-4)
    core.TRACE.step((side, prefix))
    return sig + sig2


# ------------------------------------------------------------ numbers
NUMS = sorted({s*(b+d) for b in (0, 107, 108, 255, 363, 364, 619, 620, 875, 876, 1131, 1132, 2**15, 2**16, 2**23, 2**24, 2**31-2) for d in (-2, -1, 0, 1) for s in (1, -1)} | {-2**31, 2**31-1})
NUMS = [n for n in NUMS if -2**31 <= n < 2**31]


def run_numbers(case):
    n, long, leniv = case
    glyphs = {".notdef": [0, 250, "hsbw", "endchar"], "A": [0, n, 1000, "div", "hsbw", 3, n, 1000, "div", "rmoveto", 5, "hlineto", 7, "vlineto", "closepath", "endchar"]}
    data = t1.build("Test", glyphs, FLEXSUBRS, long=long, leniv=leniv)
    f = t1file.T1File.from_PFB_bytes(data)
    cmds = f.getglyphcmds("A")
    require([c for c in cmds if isinstance(c, (int, float))] == [c for c in glyphs["A"] if not isinstance(c, str)], "numbers read are %r", cmds)
    f.setglyphcmds("A", cmds)
    f.setglyphcmds(".notdef", [0, n, t1file.T1hsbw, t1file.T1endchar])
    out = io.BytesIO()
    f.outputPFB(pyxwriter.writer(out))
    font = t1.parse(out.getvalue())
    require(t1.decode(font.glyphs["A"]) == glyphs["A"], "charstring written is %r", t1.decode(font.glyphs["A"]))
    require(t1.decode(font.glyphs[".notdef"]) == [0, n, "hsbw", "endchar"], "charstring written is %r", t1.decode(font.glyphs[".notdef"]))
    return font.glyphs["A"]


# ------------------------------------------------------------ subsets
BODY = {
    "plain": [100, 50, "rmoveto", 30, "hlineto", 40, "vlineto", "closepath"],
    "subr": [100, 60, "rmoveto", 4, "callsubr", 45, "vlineto", "closepath"],
    "nested": [100, 70, "rmoveto", 6, "callsubr", 35, "hlineto", "closepath"],
    "flex": [100, 80, "rmoveto", "flex", 55, "vlineto", "closepath"],
    "hint": [100, 90, "rmoveto", 33, "hlineto", 5, 1, 3, "callothersubr", "pop", "callsubr", 47, "vlineto", "closepath"],
    "subrmove": [7, "callsubr", 57, "hlineto", 21, "vlineto", "closepath"],
}
GSUBRS = FLEXSUBRS + [[19, -29, "rlineto", "return"], [12, 31, "hstem", "return"], [4, "callsubr", 11, "vlineto", "return"],
                      [13, 14, "hstem", 6, 3, "rmoveto", 6, "callsubr", "return"]]
SEAC = {"seac": ("A", "acute"), "seac2": ("acute", "A")}


def body(side, b):
    c = list(side)
    for t in BODY[b]:
        if t == "flex":
            x, y = endpoint(c)
            c += flexcmds(FLEX, x+sum(p[0] for p in FLEX), y+sum(p[1] for p in FLEX))
        else:
            c.append(t)
    return c + ["endchar"]


def subsetfont(bodies, leniv=4, encoding="std", container="pfb"):
    glyphs = {".notdef": [0, 250, "hsbw", "endchar"] if bodies[3] is None else body([0, 250, "hsbw"], bodies[3])}
    for i, (n, b) in enumerate(zip(("A", "acute", "Aacute"), bodies)):
        side = [21+i*7, 500+11*i, "hsbw"]
        if b in SEAC:
            bb, a = SEAC[b]
            code = {"A": 65, "acute": 194}
            glyphs[n] = side + [21+7*(a == "acute"), 33, 44, code[bb], code[a], "seac"]
        else:
            glyphs[n] = body(side, b)
    enc = None if encoding == "std" else [(65, "A"), (3, "acute"), (200, "Aacute"), (201, "A")]
    return t1.build("Sub", glyphs, GSUBRS, leniv=leniv, encoding=enc, container=container, uniqueid=4711)


def gen_subset(tier):
    names = ("A", "acute", "Aacute")
    bodies = sorted(BODY)
    third = bodies + sorted(SEAC)
    for i, b in enumerate(itertools.product(bodies, bodies, third, (None, "hint", "nested", "flex"))):
        for enc in ("std", "own"):
            for leniv in ((4,) if tier == "quick" else (4, 0, 1)):
                yield (b, enc, leniv)


def subsets_of(names):
    return [s for k in range(len(names)+1) for s in itertools.combinations(names, k)]


def checksubset(full, fullf, keep, bycode, sigs):
    names = set(keep)
    codes = set()
    if bycode:
        vec = full.getvector()
        codes = {vec.index(n) for n in keep if n in vec}
        names = {n for n in keep if n not in vec}
    want = set(keep) | {".notdef"}
    subrs = set()
    for n in sorted(want):
        o = t1.Outline(full, n)
        want = want | o.usedglyphs
        subrs |= o.used
    outs = []
    s = fullf.getstrippedfont(set(names), set(codes))
    for how in ("PFA", "PFB", "PDF"):
        out = io.BytesIO()
        w = pyxwriter.writer(out)
        if how == "PFA":
            s.outputPFA(w)
            sub = t1.parse(out.getvalue())
        elif how == "PFB":
            s.outputPFB(w)
            sub = t1.parse(out.getvalue())
        else:
            class Wr: compress = len(keep) % 2
            s.outputPDF(w, Wr)
            d = out.getvalue()
            st = machines.Lexer(d).obj()
            i = d.index(b"stream\n")+7
            raw = d[i:i+st["Length"]]
            require(d[i+st["Length"]:].strip() == b"endstream", "length of the font stream")
            if Wr.compress:
                import zlib
                raw = zlib.decompress(raw)
            l1, l2, l3 = [st["Length%d" % k] for k in (1, 2, 3)]
            require(len(raw) == l1+l2+l3, "lengths of the font stream")
            sub = t1.Font(raw[:l1], t1.decrypt(raw[l1:l1+l2], 55665, 4))
        require(set(sub.glyphs) == want, "%s subset for %r contains %s instead of %s", how, keep, sorted(sub.glyphs), sorted(want))
        require(sub.counts["glyphs"] == len(sub.glyphs), "%d glyphs declared, %d written", sub.counts["glyphs"], len(sub.glyphs))
        require(sub.counts.get("subrs", 0) == len(sub.subrs), "%d subroutines declared, %d written", sub.counts.get("subrs", 0), len(sub.subrs))
        for n in want:
            require(sub.glyphs[n] == full.glyphs[n], "charstring of %s changed", n)
        for i in subrs:
            require(i in sub.subrs and sub.subrs[i] == full.subrs[i], "subroutine %d of the subset for %r is %r instead of %r", i, keep, sub.subrs.get(i) and t1.decode(sub.subrs[i]), t1.decode(full.subrs[i]))
        fv, sv = full.getvector(), sub.getvector()
        for i in range(256):
            if fv[i] in want and fv[i] != ".notdef":
                require(sv[i] == fv[i], "encoding of %d is %s instead of %s", i, sv[i], fv[i])
        require(list(sub.matrix) == list(full.matrix) and sub.name == full.name, "name or matrix changed")
        require(re.search(rb"/UniqueID\s+\d+\s+def", sub.clear + sub.private) is None, "unique id of the full font kept")
        for n in sorted(want):
            a, b = t1.Outline(full, n), t1.Outline(sub, n)
            require(a.ops == b.ops and a.width == b.width, "outline of %s differs in the subset", n)
        outs.append(sub)
    # the subset as a PyX font
    compare(full, sorted(want), s)
    sigs.append((keep, sorted(subrs)))
    return outs[0].clear + outs[0].private


def run_subset(case):
    bodies, enc, leniv = case
    data = subsetfont(bodies, leniv, enc)
    full = t1.parse(data)
    shared = t1file.T1File.from_PFB_bytes(data)
    sigs = []
    for i, keep in enumerate(subsets_of(("A", "acute", "Aacute"))):
        bycode = bool(i % 2)
        a = checksubset(full, shared, keep, bycode, sigs)
        core.TRACE.step((bodies, keep, leniv))
        if i in (1, 6):
            # a second request of the same font object gives what a fresh one does
            b = checksubset(full, t1file.T1File.from_PFB_bytes(data), keep, bycode, [])
            require(a == b, "subset depends on earlier subsets of the font")
    return sigs


# ------------------------------------------------------------ containers
def gen_containers(tier):
    for cont, opts in (("pfb", [dict(segments=s) for s in (None, 1, 7, 100)]),
                       ("pfa", [dict(width=w, upper=u, eol=e) for w in (1, 2, 7, 64, 10**6) for u in (0, 1) for e in ("\n", "\r\n", "\r")])):
        for o in opts:
            for leniv in (0, 1, 4, 5, 8):
                for rd in (("RD", "ND", "NP"), ("-|", "|-", "|"), ("RD", "noaccess def", "noaccess put")):
                    for first in (True, False):
                        for enc in ("std", "own", "empty"):
                            if tier == "quick" and (leniv in (1, 8) and enc != "std" or cont == "pfa" and enc == "empty"):
                                continue
                            yield (cont, sorted(o.items()), leniv, rd, first, enc)
    for extra in ("", "% a comment /FontMatrix\n", "/StrokeWidth 0 def\n"):
        for nosubrs in (False, True):
            for lead in (b"abcd", b"\xff\xfe\xfd\xfc", b"zzzz"):
                for mat in ((0.001, 0, 0, 0.001, 0, 0), (0.0005, 0, 0.0001, 0.002, 0.01, -0.02)):
                    yield ("x", extra, nosubrs, lead.decode("latin1"), mat)


ENC = {"std": None, "own": [(0, "A"), (255, "acute"), (37, "Aacute")], "empty": []}
CGL = {".notdef": [0, 250, "hsbw", "endchar"], "A": body([30, 400, "hsbw"], "nested"),
       "acute": body([31, 410, "hsbw"], "flex"), "Aacute": [33, 420, "hsbw", 31, 77, 88, 65, 194, "seac"]}
PLAIN = {".notdef": [0, 250, "hsbw", "endchar"], "A": [30, 400, "hsbw"] + BODY["plain"] + ["endchar"]}


def run_container(case):
    if case[0] == "x":
        _, extra, nosubrs, lead, mat = case
        data = t1.build("Cont-X", PLAIN if nosubrs else CGL, GSUBRS, nosubrs=nosubrs, extra=extra, lead=lead.encode("latin1"), matrix=tuple(mat))
        keep = {"A"}
    else:
        cont, o, leniv, rd, first, enc = case
        data = t1.build("Cont", CGL, GSUBRS, leniv=leniv, encoding=ENC[enc], container=cont, rd=tuple(rd), subrsfirst=first, **dict(o))
        keep = {"Aacute"}
    full = t1.parse(data)
    fd = io.BytesIO(data)
    f = t1file.T1File.from_PF_bytes(data)
    require(f.name == full.name, "font name %s", f.name)
    if case[0] == "x" or case[0] == "pfb":
        compare(full, sorted(full.glyphs), t1file.T1File.from_PFB_bytes(data))
    else:
        compare(full, sorted(full.glyphs), t1file.T1File.from_PFA_bytes(data))
    compare(full, sorted(full.glyphs), f)
    for src in (t1file.T1File.from_PF_bytes(data), t1file.T1File.from_PF_bytes(data).getstrippedfont(set(keep), set())):
        for how in (0, 1, 2):
            out = io.BytesIO()
            w = pyxwriter.writer(out)
            (src.outputPFA, src.outputPFB, lambda w: src.outputPS(w, None))[how](w)
            b = t1.parse(out.getvalue())
            want = t1.Outline(full, sorted(keep)[0])
            got = t1.Outline(b, sorted(keep)[0])
            require(got.ops == want.ops and got.width == want.width, "outline differs after writing the font")
            again = t1file.T1File.from_PF_bytes(out.getvalue())
            compare(b, sorted(b.glyphs), again)
    return [full.name, len(data), full.leniv]


# ------------------------------------------------------------ ciphers
_C = {}


def cmodule():
    """the C implementation, compiled from the tree under test"""
    if "m" not in _C:
        src = os.path.join(core.REPO, "pyx", "font", "_t1code.c")
        d = tempfile.mkdtemp(prefix="mc-t1code-")
        try:
            so = os.path.join(d, "_t1code.so")
            r = subprocess.run(["gcc", "-O1", "-fwrapv", "-shared", "-fPIC", "-I", sysconfig.get_paths()["include"], src, "-o", so], capture_output=True, text=True)
            if r.returncode:
                # no C implementation without a compiler and headers
                _C["m"] = None
                _C["why"] = r.stderr
            else:
                spec = importlib.util.spec_from_file_location("_t1code", so)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                _C["m"] = m
        finally:
            shutil.rmtree(d)
    return _C["m"]


def gen_crypt(tier):
    for key in (55665, 4330):
        for b in range(256):
            yield (key, b)
    for n in (list(range(0, 70)) + [255, 256, 257, 1000, 65535, 65536, 100000]):
        for lead in (0, 1, 4, 5):
            yield ("len", n, lead)


def run_crypt(case):
    c = cmodule()
    impls = [("Python", t1code.py_decoder, t1code.py_encoder)] if hasattr(t1code, "py_decoder") else []
    impls.append(("default", t1file.decoder, t1file.encoder))
    if not impls[0][0] == "Python":
        impls.append(("module", t1code.decoder, t1code.encoder))
    if c is not None:
        impls.append(("C", c.decoder, c.encoder))
    if case[0] == "len":
        _, n, lead = case
        datas = [bytes((i*i*7+3*i+n) % 256 for i in range(n))]
        keys = (55665, 4330, 0, 65535)
    else:
        keys, b = (case[0],), case[1]
        lead = 4
        datas = [bytes([b])] + [bytes([b, x]) for x in range(0, 256, 1)]
    pad = (b"PyX!PyX!")[:lead]
    for key in keys:
        for d in datas:
            e = t1.encrypt(d, key, pad)
            for name, dec, enc in impls:
                x = bytes(enc(d, key, pad))
                require(x == e, "%s encryption of %r (%d bytes) with key %d gives %r instead of %r", name, d[:8], len(d), key, x[:12], e[:12])
                y = bytes(dec(e, key, lead))
                require(y == d, "%s decryption of %r gives %r instead of %r", name, e[:12], y[:12], d[:12])
    return (case[0], e[-4:], len(impls))


# ------------------------------------------------------------ installed fonts
ROOTS = ["/usr/share/texmf/fonts/type1", "/usr/share/texlive/texmf-dist/fonts/type1", "/usr/share/fonts/type1"]
QUICK = ["cmr10", "cmmi10", "cmsy10", "cmex10", "cmti10", "lmr10", "lmmi10", "bchr8a", "putr8a", "utmr8a", "uhvr8a", "uplr8a", "uzdr", "usyr", "logo10",
         "msam10", "eufm10", "rsfs10", "ztmr8a", "isfli8", "cmr17", "pplr8a", "n021003l", "wasy10", "sfrm1000", "phvr8a", "NimbusRoman-Regular"]


def installed():
    out = {}
    for r in ROOTS:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                b, e = os.path.splitext(f)
                if e in (".pfb", ".pfa", ".t1"):
                    out.setdefault(b, os.path.join(d, f))
    return out


def gen_fonts(tier):
    fonts = installed()
    names = [n for n in QUICK if n in fonts] if tier == "quick" else sorted(fonts)
    for n in names:
        for part in range(4):
            yield (n, fonts[n], part)


def run_fonts(case):
    name, fn, part = case
    with open(fn, "rb") as f:
        data = f.read()
    try:
        full = t1.parse(data)
    except Exception:
        return None          # not a font program the reference reader understands
    f = t1file.T1File.from_PF_filename(fn)
    names = sorted(full.glyphs)
    if part == 0:
        keep = names[::5]
        checksubset(full, f, keep, False, [])
        vec = full.getvector()
        require(f.name == full.name, "font name %s", f.name)
        codes = [i for i in range(256) if vec[i] in full.glyphs]
        for i in codes[::7]:
            a = f.getglyphpath_pt(0, 0, i, 1000, convertcharcode=True)
            b = f.getglyphpath_pt(0, 0, vec[i], 1000)
            require(a.path == b.path or str(a.path) == str(b.path), "character %d is not drawn as %s", i, vec[i])
    mine = names[part::4]
    return len(compare(full, mine, f))


# ------------------------------------------------------------ text
def afm(fn):
    """an independent reading of the metrics: widths and kerns"""
    w, k = {}, {}
    for l in open(fn, encoding="latin1"):
        t = l.split()
        if t[:1] == ["C"]:
            w[t[t.index("N")+1]] = float(t[t.index("WX")+1])
        elif t[:1] == ["KPX"]:
            k[t[1], t[2]] = float(t[3])
    return w, k


FONTS = {}


def findfile(b, exts):
    for r in ROOTS + [x.replace("type1", "afm") for x in ROOTS]:
        for d, ds, fs in os.walk(r):
            for e in exts:
                if b+e in fs:
                    return os.path.join(d, b+e)
    return None


def getfont(n):
    if n not in FONTS:
        base = n.split("-")[0]
        pfb, am = findfile(base, (".pfb",)), findfile(base, (".afm",))
        with open(pfb, "rb") as f:
            data = f.read()
        tf = t1file.T1File.from_PF_bytes(data)
        full = t1.parse(data)
        m = None
        if not n.endswith("-nometric"):
            with open(am, encoding="latin1") as f:
                m = AFMfile(f)
        w, k = afm(am)
        if n.endswith("-builtin"):
            ft = pyxfont.T1builtinfont(full.name, m)
        else:
            ft = pyxfont.T1font(tf, m)
        FONTS[n] = (ft, full, w, k)
    return FONTS[n]


TEXTS = ["A", "AV", "VA", "To", "a)(", "\\<", "AVA", "f[]", "é", "Té", "W.", "10%"]
DEC = {"A": "A", "V": "V", "T": "T", "o": "o", "a": "a", ")": "parenright", "(": "parenleft", "\\": "backslash", "<": "less", "f": "f", "[": "bracketleft", "]": "bracketright",
       "é": "eacute", "W": "W", ".": "period", "1": "one", "0": "zero", "%": "percent"}
TF = ["utmr8a", "bchr8a", "utmr8a-nometric", "utmr8a-builtin"]


def gen_text(tier):
    for fn in TF:
        for t in TEXTS:
            for dec in (True, False):
                for slant in (None, 0.25, -0.5):
                    for kern in (False, True):
                        for sp in (0, 1.7, -0.9):
                            if kern and not dec:
                                continue
                            if kern and fn.endswith("nometric"):
                                continue
                            if not dec and fn.endswith("builtin"):
                                continue        # PyX has no encoding for it in PDF
                            if not dec and any(DEC[c] not in t1.standardvector() for c in t):
                                continue
                            for strip in ((True, False) if tier != "quick" or t in ("AV", "é") and sp == 0 else (True,)):
                                for aspath in (False, True):
                                    if fn.endswith("builtin") and (aspath or not strip):
                                        continue
                                    yield (fn, t, dec, slant, kern, sp, strip, aspath)


def placed(full, glyphs):
    """subpaths of placed glyphs [(name, matrix)]"""
    return [mapped(topath(t1.Outline(full, n).ops), m) for n, m in glyphs]


def expect(full, w, k, t, x, y, size, slant, kern, sp, metric=True):
    out = []
    prev = None
    for c in t:
        n = DEC[c]
        if prev is not None:
            x += sp + (k.get((prev, n), 0)*size/1000 if kern else 0)
        out.append((n, (size/1000, 0, (slant or 0)*size/1000, size/1000, x, y)))
        x += w[n]*size/1000 if metric else t1.Outline(full, n).width[0]*size/1000
        prev = n
    return out


def near(a, b, tol, msg):
    require(len(a) == len(b), "%s: %d glyphs instead of %d", msg, len(a), len(b))
    for (n, m), (o, q) in zip(a, b):
        require(n == o, "%s: glyph %s instead of %s", msg, n, o)
        require(all(abs(u-v) <= tol for u, v in zip(m[:4], q[:4])) and all(abs(u-v) <= 1e-2 for u, v in zip(m[4:], q[4:])),
                "%s: glyph %s drawn with %r instead of %r", msg, n, [round(v, 6) for v in m], [round(v, 6) for v in q])


class Boxed(canvas.canvas):
    """texts without decoding have no bounding box of their own (as those of TeX)"""

    def bbox(self):
        return bbox.bbox_pt(-200, -200, 400, 400)


def checktexts(items, strip, aspath, kinds=("ps", "pdf", "svg"), twopages=False):
    """items: [(font id, text, dec, slant, kern, sp, size, x, y)]"""
    c = Boxed()
    want = []
    for fn, t, dec, slant, kern, sp, size, x, y in items:
        ft, full, w, k = getfont(fn)
        codes = t if dec else [t1.standardvector().index(DEC[ch]) for ch in t]
        kw = dict(slant=slant, kerning=kern, spaced_pt=sp, ignorebbox=not dec and ft.t1file is None)
        if not dec:
            kw["decoding"] = None
            if ft.metric is not None:
                kw["ignorebbox"] = True
        c.insert(ft.text_pt(x, y, codes, size, **kw))
        want.append((full, expect(full, w, k, t, x, y, size, slant, kern, sp)))
    c.stroke(path.line_pt(-200, -200, 400, 400))
    doc = document.document([document.page(c)])
    sig = []
    if "ps" in kinds:
        f = io.BytesIO()
        doc.writePSfile(f, textaspath=aspath, stripfonts=strip)
        bi = {}
        for it in items:
            if it[0].endswith("builtin"):
                ft, full, w, k = getfont(it[0])
                bi[full.name] = (t1.standardvector(), w)
        m = machines.PS(f.getvalue(), builtin=bi).run()
        require(not m.stack, "PostScript operands left: %r", m.stack)
        marks = m.pages[0]
        sig += compare_marks("PostScript", marks, want, aspath, items, lambda mk: [((gl[0].name if not isinstance(gl[0], tuple) else gl[0][0]), gl[0], gl[1], gl[2]) for gl in mk.glyphs])
        sig.append(len(marks))
    if "pdf" in kinds:
        f = io.BytesIO()
        doc.writePDFfile(f, textaspath=aspath, stripfonts=strip)
        p = machines.PDF(f.getvalue())
        marks = p.marks(p.pages()[0])

        def gl(mk):
            return [(fo if isinstance(fo, str) else fo.name, fo, n, mm) for fo, n, mm in machines.pdfglyphs(p, mk)]
        compare_marks("PDF", marks, want, aspath, items, gl)
        sig.append(len(marks))
    if "svg" in kinds:
        f = io.BytesIO()
        doc.writeSVGfile(f, textaspath=aspath)
        marks = machines.svgmarks(f.getvalue())
        if aspath and not any(it[0].endswith("builtin") for it in items):
            compare_marks("SVG", marks, want, True, items, None)
        else:
            texts = [m for m in marks if m.op == "text"]
            require(len(texts) == len(items) and marks[-1].op == "stroke", "SVG: marks %s", [m.op for m in marks])
            for m, (full, gl), it in zip(texts, want, items):
                require(len(m.chars) == len(gl), "SVG: %d characters instead of %d", len(m.chars), len(gl))
                require(m.alpha == 1, "SVG: opacity %r", m.alpha)
                for (fam, c, size, x, y, p), (n, mm) in zip(m.chars, gl):
                    require(fam == full.name and abs(size-it[6]) < 1e-4, "SVG: font %s at %g", fam, size)
                    if p is None:
                        require(it[0].endswith("builtin"), "SVG: font %s not embedded", fam)
                        continue
                    r = machines.samepath(p, sum(placed(full, [(n, mm)]), []), 3e-4)
                    require(r is None, "SVG: glyph %s: %s", n, r)
                if it[0].endswith("builtin"):
                    require([c for _, c, *_ in m.chars] == list(it[1]), "SVG: text %r", m.chars)
        sig.append(len(marks))
    return sig


def compare_marks(kind, marks, want, aspath, items, glyphs):
    require(marks[-1].op == "stroke", "%s: last mark is %s", kind, marks[-1].op)
    marks = marks[:-1]
    if aspath:
        require(len(marks) == len(want) and all(m.op == "fill" for m in marks), "%s: marks %s", kind, [m.op for m in marks])
        for m, (full, gl) in zip(marks, want):
            r = machines.samepath(m.path, sum(placed(full, gl), []), 2e-4)
            require(r is None, "%s: text as path: %s", kind, r)
        return [round(v, 2) for m in marks for c, segs in m.path for v in segs[-1][-1]]
    # marks of one text item follow each other
    sigs = []
    pos = 0
    for (full, gl), it in zip(want, items):
        got = []
        while len(got) < len(gl):
            require(pos < len(marks) and marks[pos].op == "text", "%s: text missing", kind)
            for name, fo, n, mm in glyphs(marks[pos]):
                require(name == full.name, "%s: font %s instead of %s", kind, name, full.name)
                if not isinstance(fo, (str, tuple)):
                    require(n in fo.glyphs, "%s: glyph %s is not in the embedded font", kind, n)
                    a, b = t1.Outline(fo, n), t1.Outline(full, n)
                    require(a.ops == b.ops, "%s: glyph %s of the embedded font differs", kind, n)
                got.append((n, mm))
            pos += 1
        near(got, gl, 1e-6, kind)
        sigs += [(n, round(m[4], 2), round(m[2], 5)) for n, m in got]
    require(pos == len(marks), "%s: %d marks instead of %d", kind, len(marks), pos)
    return sigs


def run_text(case):
    fn, t, dec, slant, kern, sp, strip, aspath = case
    return checktexts([(fn, t, dec, slant, kern, sp, 17.0, 31.0, -12.0)], strip, aspath)


def gen_texts2(tier):
    """documents with several texts: encodings and subsets grow"""
    one = [("utmr8a", t, dec, sl, False, 0) for t in ("AV", "a)(", "é", "Té") for dec in (True, False) for sl in (None, 0.25) if dec or "é" not in t]
    one += [("bchr8a", "To", True, None, True, 0), ("utmr8a-builtin", "AV", True, None, True, 1.5), ("utmr8a", "VA", True, 0.3, True, 1.5)]
    for a in one:
        for b in one:
            if {a[0], b[0]} == {"utmr8a", "utmr8a-builtin"}:
                continue        # two fonts of one name
            yield (a, b)
    if tier != "quick":
        for a in one[::2]:
            for b in one[1::2]:
                for c in one[::3]:
                    if len({x[0] for x in (a, b, c)} & {"utmr8a", "utmr8a-builtin"}) < 2:
                        yield (a, b, c)


def run_texts2(case):
    items = []
    for i, it in enumerate(case):
        fn, t, dec, slant, kern, sp = it
        items.append((fn, t, dec, slant, kern, sp, 10.0+2*(i % 2), 13.0+40*i, 7.0-11*i))
    return checktexts(items, True, False)


def manyglyphs(case):
    """more glyphs than one encoding can hold, over several texts"""
    fn, step = case
    ft, full, w, k = getfont(fn)
    names = [n for n in sorted(full.glyphs) if n != ".notdef" and n in w]
    DECM = {chr(0x1000+i): n for i, n in enumerate(names)}
    c = canvas.canvas()
    want = []
    for j in range(0, len(names), step):
        x = 10.0
        gl = []
        chars = [chr(0x1000+i) for i in range(j, min(j+step, len(names)))]
        for ch in chars:
            gl.append((DECM[ch], (0.012, 0, 0, 0.012, x, 5.0*j)))
            x += w[DECM[ch]]*0.012
        c.insert(ft.text_pt(10.0, 5.0*j, chars, 12.0, decoding=DECM))
        want.append((full, gl))
    c.stroke(path.line_pt(0, 0, 10, 0))
    doc = document.document([document.page(c)])
    f = io.BytesIO()
    doc.writePSfile(f)
    m = machines.PS(f.getvalue()).run()
    compare_marks("PostScript", m.pages[0], want, False, want, lambda mk: [(gl[0].name, gl[0], gl[1], gl[2]) for gl in mk.glyphs])
    f = io.BytesIO()
    doc.writePDFfile(f)
    p = machines.PDF(f.getvalue())
    marks = p.marks(p.pages()[0])
    # pdf widths are integers
    for mk, (full, gl) in zip(marks, want):
        got = machines.pdfglyphs(p, mk)
        require([n for _, n, _ in got] == [n for n, _ in gl], "PDF: glyphs differ")
        for fo, n, mm in got:
            require(t1.Outline(fo, n).ops == t1.Outline(full, n).ops, "PDF: glyph %s differs", n)
    return (len(names), step)


def spaces(tier):
    depth = 3 if tier == "quick" else 4
    return [
        Space("charstrings", lambda: gen_programs(depth), run_programs, "all legal operator sequences up to length %d over %d operator tokens after 4 side bearings, flex on and off, 2 sizes" % (depth, len(TOKENS))),
        Space("numbers", lambda: itertools.product(NUMS, (False, True), (4, 0, 1, 5)), run_numbers, "%d numbers at the encoding boundaries, short and long encodings, lenIV 0, 1, 4, 5" % len(NUMS)),
        Space("subsets", lambda: gen_subset(tier), run_subset, "all assignments of 6 bodies (and 2 composites) to 3 glyphs, all 8 subsets each by name or code, as PFA, PFB and PDF stream, two encodings"),
        Space("containers", lambda: gen_containers(tier), run_container, "PFB segmentation, PFA line width, case and line ends, lenIV, tokens, order of Subrs and CharStrings, encodings, missing Subrs, matrices"),
        Space("ciphers", lambda: gen_crypt(tier), run_crypt, "all strings of 1 and 2 bytes for both keys; all lengths up to 70 and some larger ones; Python, default and C implementations"),
        Space("fonts", lambda: gen_fonts(tier), run_fonts, "every glyph of installed fonts and one subset each"),
        Space("text", lambda: gen_text(tier), run_text, "12 strings x 4 fonts x decoding x slant x kerning x spacing x subsetting x text as path, PostScript, PDF and SVG"),
        Space("texts", lambda: gen_texts2(tier), run_texts2, "all ordered pairs (triples) of 19 texts in one document"),
        Space("encodings", lambda: itertools.product(("utmr8a", "bchr8a"), (1, 50, 100, 200)), manyglyphs, "all glyphs of a font in one document in texts of 1, 50, 100, 200 characters"),
    ]
