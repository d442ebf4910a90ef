"""An independent Type 1 font reader, charstring interpreter and font builder."""
import binascii, re, struct

C1, C2 = 52845, 22719


def crypt(data, r, decrypt):
    out = bytearray()
    for x in data:
        y = x ^ (r >> 8)
        out.append(y)
        r = ((x if decrypt else y) + r)*C1 + C2 & 0xffff
    return bytes(out)


def encrypt(data, r, lead):
    return crypt(lead+data, r, False)


def decrypt(data, r, n):
    return crypt(data, r, True)[n:]


# ------------------------------------------------------------ containers
def split(data):
    """(clear text, decrypted private part, trailer) of a font in any container"""
    if data[:1] == b"\x80":
        parts = []
        pos = 0
        while True:
            assert data[pos] == 128, "PFB marker"
            kind = data[pos+1]
            if kind == 3:
                assert pos+2 == len(data), "trailing data"
                break
            n = struct.unpack("<L", data[pos+2:pos+6])[0]
            assert pos+6+n <= len(data), "PFB segment length"
            parts.append((kind, data[pos+6:pos+6+n]))
            pos += 6+n
        kinds = [k for k, _ in parts]
        i = kinds.index(2)
        j = len(kinds) - kinds[::-1].index(2)
        clear = b"".join(d for _, d in parts[:i])
        enc = b"".join(d for _, d in parts[i:j])
        trail = b"".join(d for _, d in parts[j:])
        assert all(k == 2 for k in kinds[i:j])
    else:
        m = re.search(rb"currentfile\s+eexec[ \r\n\t]+", data)
        clear = data[:m.end()]
        t = re.search(rb"(?:0\s*){512}cleartomark", data)
        enc, trail = data[m.end():t.start()], data[t.start():]
        enc = binascii.a2b_hex(re.sub(rb"\s", b"", enc))
    return clear, decrypt(enc, 55665, 4), trail


class Font:
    def __init__(self, clear, private):
        self.clear, self.private = clear, private
        self.name = re.search(rb"/FontName\s*/([^\s]+)\s", clear).group(1).decode()
        self.matrix = [float(x) for x in re.search(rb"/FontMatrix\s*\[([^\]]*)\]", clear).group(1).split()]
        m = re.search(rb"/lenIV\s+(-?\d+)", private)
        self.leniv = int(m.group(1)) if m else 4
        self.subrs = {}
        self.glyphs = {}
        self.order = []
        self.counts = {}
        m = re.search(rb"/Subrs\s+(\d+)\s+array", private)
        spans = []
        if m:
            self.counts["subrs"] = int(m.group(1))
            pos = m.end()
            p = re.compile(rb"\s*dup\s+(\d+)\s+(\d+)\s+(\S+) ")
            while True:
                e = p.match(private, pos)
                if not e:
                    break
                i, n = int(e.group(1)), int(e.group(2))
                assert i not in self.subrs, "subr %d defined twice" % i
                self.subrs[i] = decrypt(private[e.end():e.end()+n], 4330, self.leniv) if self.leniv >= 0 else private[e.end():e.end()+n]
                pos = e.end()+n
                q = re.compile(rb"\s*(noaccess\s+put|\|-?|[A-Za-z]+)").match(private, pos)
                pos = q.end()
        m = re.search(rb"/CharStrings\s+(\d+)\s+dict\s+dup\s+begin", private)
        self.counts["glyphs"] = int(m.group(1))
        pos = m.end()
        p = re.compile(rb"\s*/(\S+)\s+(\d+)\s+(\S+) ")
        while True:
            e = p.match(private, pos)
            if not e:
                break
            n = int(e.group(2))
            name = e.group(1).decode()
            assert name not in self.glyphs, "glyph %s defined twice" % name
            self.order.append(name)
            s = private[e.end():e.end()+n]
            self.glyphs[name] = decrypt(s, 4330, self.leniv) if self.leniv >= 0 else s
            pos = e.end()+n
            q = re.compile(rb"\s*(noaccess\s+def|\|-?|[A-Za-z]+)").match(private, pos)
            pos = q.end()
        assert re.compile(rb"\s*end").match(private, pos), "end of CharStrings"
        m = re.search(rb"/Encoding\s+(StandardEncoding\s+def)?", clear)
        self.encoding = {}
        if m.group(1):
            self.encoding = None
        else:
            e = re.compile(rb"\s(?:readonly\s+)?def\s").search(clear, m.end())
            for i, g in re.findall(rb"dup\s+(\d+)\s*/(\S+)\s+put", clear[m.end():e.start()]):
                self.encoding[int(i)] = g.decode()

    def getvector(self):
        return list(standardvector()) if self.encoding is None else [self.encoding.get(i) for i in range(256)]

    def codes(self, name):
        return decode(self.glyphs[name])


def parse(data):
    clear, private, trail = split(data)
    return Font(clear, private)


# ------------------------------------------------------------ charstrings
OPS = {1: "hstem", 3: "vstem", 4: "vmoveto", 5: "rlineto", 6: "hlineto", 7: "vlineto", 8: "rrcurveto", 9: "closepath", 10: "callsubr",
       11: "return", 13: "hsbw", 14: "endchar", 21: "rmoveto", 22: "hmoveto", 30: "vhcurveto", 31: "hvcurveto"}
ESC = {0: "dotsection", 1: "vstem3", 2: "hstem3", 6: "seac", 7: "sbw", 12: "div", 16: "callothersubr", 17: "pop", 33: "setcurrentpoint"}
CODE = {v: bytes([k]) for k, v in OPS.items()}
CODE.update({v: bytes([12, k]) for k, v in ESC.items()})


def number(v, long=False):
    if -107 <= v <= 107 and not long:
        return bytes([v+139])
    if 108 <= v <= 1131 and not long:
        v -= 108
        return bytes([247+(v >> 8), v & 255])
    if -1131 <= v <= -108 and not long:
        v = -v-108
        return bytes([251+(v >> 8), v & 255])
    return b"\xff"+struct.pack(">l", v)


def encode(cmds, long=False):
    return b"".join(CODE[c] if isinstance(c, str) else number(c, long) for c in cmds)


def decode(code):
    out = []
    i = 0
    while i < len(code):
        x = code[i]
        i += 1
        if x >= 32:
            if x <= 246:
                out.append(x-139)
            elif x <= 250:
                out.append((x-247)*256+code[i]+108); i += 1
            elif x <= 254:
                out.append(-(x-251)*256-code[i]-108); i += 1
            else:
                out.append(struct.unpack(">l", code[i:i+4])[0]); i += 4
        elif x == 12:
            out.append(ESC[code[i]]); i += 1
        else:
            out.append(OPS[x])
    return out


STANDARD = """space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft parenright asterisk plus comma hyphen
period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at A B C D E F G H I J K L M
N O P Q R S T U V W X Y Z bracketleft backslash bracketright asciicircum underscore quoteleft a b c d e f g h i j k l m n o p q r s t u v
w x y z braceleft bar braceright asciitilde""".split()
HIGH = {161: "exclamdown cent sterling fraction yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi fl",
        177: "endash dagger daggerdbl periodcentered", 182: "paragraph bullet quotesinglbase quotedblbase quotedblright guillemotright ellipsis perthousand",
        191: "questiondown", 193: "grave acute circumflex tilde macron breve dotaccent dieresis", 202: "ring cedilla", 205: "hungarumlaut ogonek caron emdash",
        225: "AE", 227: "ordfeminine", 232: "Lslash Oslash OE ordmasculine", 241: "ae", 245: "dotlessi", 248: "lslash oslash oe germandbls"}
_VECTOR = []


def standardvector():
    if not _VECTOR:
        _VECTOR.extend([None]*32 + STANDARD + [None]*(256-127))
        for k, v in HIGH.items():
            for i, n in enumerate(v.split()):
                _VECTOR[k+i] = n
    return _VECTOR


class Outline:
    """executes a glyph; self.ops is a list of ("m"|"l"|"c"|"z", points...)"""

    def __init__(self, font, name, flex=True, standard=None):
        self.font, self.flex, self.standard = font, flex, standard or standardvector()
        self.ops = []
        self.width = None
        self.used = set()
        self.usedglyphs = set()
        self.dx = self.dy = 0
        self.glyph(name)

    def glyph(self, name):
        self.usedglyphs.add(name)
        self.stack, self.ps, self.inflex = [], [], None
        self.x = self.y = 0
        self.done = False
        self.run(self.font.glyphs[name])

    def pt(self, x, y):
        return (x+self.dx, y+self.dy)

    def move(self, dx, dy):
        self.x += dx
        self.y += dy
        if self.inflex is not None:
            return
        self.ops.append(("m", self.pt(self.x, self.y)))

    def line(self, dx, dy):
        self.x += dx
        self.y += dy
        self.ops.append(("l", self.pt(self.x, self.y)))

    def curve(self, a, b, c, d, e, f):
        p = self.pt(self.x+a, self.y+b)
        q = self.pt(self.x+a+c, self.y+b+d)
        self.x += a+c+e
        self.y += b+d+f
        self.ops.append(("c", p, q, self.pt(self.x, self.y)))

    def run(self, code):
        for t in decode(code):
            if self.done:
                return
            if not isinstance(t, str):
                self.stack.append(t)
                continue
            s = self.stack
            if t == "div":
                b = s.pop()
                a = s.pop()
                s.append(a/b)
                continue
            if t == "callsubr":
                n = s.pop()
                self.used.add(n)
                self.run(self.font.subrs[n])
                continue
            if t == "return":
                return
            if t == "pop":
                s.append(self.ps.pop())
                continue
            if t == "callothersubr":
                o = s.pop()
                n = s.pop()
                args = s[len(s)-n:]
                del s[len(s)-n:]
                if o == 1:
                    self.inflex = []
                elif o == 2:
                    self.inflex.append((self.x, self.y))
                elif o == 0:
                    pts = self.inflex
                    assert len(pts) == 7, "flex with %d points" % len(pts)
                    self.inflex = None
                    pts = [self.pt(*p) for p in pts]
                    if self.flex:
                        self.ops.append(("c", pts[1], pts[2], pts[3]))
                        self.ops.append(("c", pts[4], pts[5], pts[6]))
                    else:
                        self.ops.append(("l", pts[6]))
                    self.ps = [args[2], args[1]]
                elif o == 3:
                    self.ps = [args[0]]
                elif o in (12, 13):
                    pass
                else:
                    self.ps = args[::-1]
                continue
            if t == "hsbw":
                if self.width is None:
                    self.width = (s[1], 0)
                    self.sbx = s[0]
                self.x, self.y = s[0], 0
            elif t == "sbw":
                if self.width is None:
                    self.width = (s[2], s[3])
                    self.sbx = s[0]
                self.x, self.y = s[0], s[1]
            elif t == "rmoveto":
                self.move(s[0], s[1])
            elif t == "hmoveto":
                self.move(s[0], 0)
            elif t == "vmoveto":
                self.move(0, s[0])
            elif t == "rlineto":
                self.line(s[0], s[1])
            elif t == "hlineto":
                self.line(s[0], 0)
            elif t == "vlineto":
                self.line(0, s[0])
            elif t == "rrcurveto":
                self.curve(*s[:6])
            elif t == "hvcurveto":
                self.curve(s[0], 0, s[1], s[2], 0, s[3])
            elif t == "vhcurveto":
                self.curve(0, s[0], s[1], s[2], s[3], 0)
            elif t == "closepath":
                self.ops.append(("z",))
            elif t == "setcurrentpoint":
                self.x, self.y = s[0], s[1]
            elif t == "seac":
                asb, adx, ady, b, a = s
                dx = self.sbx+adx-asb
                self.glyph(self.standard[b])
                self.dx, self.dy = self.dx+dx, self.dy+ady
                self.glyph(self.standard[a])
                self.done = True
                return
            elif t == "endchar":
                self.done = True
            self.stack = []


# ------------------------------------------------------------ building fonts
def build(name, glyphs, subrs=(), leniv=4, encoding=None, container="pfb", rd=("RD", "ND", "NP"), matrix=(0.001, 0, 0, 0.001, 0, 0),
          uniqueid=None, subrsfirst=True, nosubrs=False, eol="\n", width=64, upper=False, segments=None, long=False, extra="", lead=b"abcd"):
    """glyphs: name -> list of commands; subrs: list of command lists"""
    R, N, P = rd
    clear = "%%!PS-AdobeFont-1.0: %s 001.001\n11 dict begin\n/FontInfo 2 dict dup begin\n/version (1) readonly def\nend readonly def\n/FontName /%s def\n" % (name, name)
    if encoding is None:
        clear += "/Encoding StandardEncoding def\n"
    else:
        clear += "/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} for\n"
        clear += "".join("dup %d /%s put\n" % (i, g) for i, g in encoding)
        clear += "readonly def\n"
    clear += "/PaintType 0 def\n/FontType 1 def\n/FontMatrix [%s] readonly def\n" % " ".join("%g" % m for m in matrix)
    if uniqueid is not None:
        clear += "/UniqueID %d def\n" % uniqueid
    clear += "/FontBBox{-10 -20 1000 900}readonly def\n"+extra+"currentdict end\ncurrentfile eexec\n"
    clear = clear.replace("\n", eol).encode("latin1")

    def cs(cmds):
        data = cmds if isinstance(cmds, bytes) else encode(cmds, long)
        return encrypt(data, 4330, bytes(range(7, 7+leniv)))

    priv = b"dup /Private 8 dict dup begin\n"
    priv += ("/%s {string currentfile exch readstring pop} executeonly def\n/%s {noaccess def} executeonly def\n/%s {noaccess put} executeonly def\n" % (R, N.split()[0] if " " not in N else "ND", P.split()[0] if " " not in P else "NP")).encode()
    if leniv != 4:
        priv += b"/lenIV %d def\n" % leniv
    if uniqueid is not None:
        priv += b"/UniqueID %d def\n" % uniqueid
    priv += b"/BlueValues [] def\n/password 5839 def\n"
    s = b""
    if not nosubrs:
        s += b"/Subrs %d array\n" % len(subrs)
        for i, c in enumerate(subrs):
            c = cs(c)
            s += b"dup %d %d %s " % (i, len(c), R.encode()) + c + b" " + P.encode() + b"\n"
        s += b"ND\n" if rd[0] == "RD" else b"|-\n"
    g = b"2 index /CharStrings %d dict dup begin\n" % len(glyphs)
    for n, c in glyphs.items():
        c = cs(c)
        g += b"/%s %d %s " % (n.encode(), len(c), R.encode()) + c + b" " + N.encode() + b"\n"
    g += b"end\n"
    priv += (s+g if subrsfirst else g+s)
    priv += b"end\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n"
    enc = encrypt(priv, 55665, lead)
    trail = (("0"*64+"\n")*8+"cleartomark\n").replace("\n", eol).encode()
    if container == "pfa":
        h = binascii.b2a_hex(enc)
        if upper:
            h = h.upper()
        body = b"".join(h[i:i+width]+eol.encode() for i in range(0, len(h), width))
        return clear+body+trail
    def seg(k, d):
        return b"\x80"+bytes([k])+struct.pack("<L", len(d))+d
    n = segments or len(enc)
    return seg(1, clear) + b"".join(seg(2, enc[i:i+n]) for i in range(0, len(enc), n)) + seg(1, trail) + b"\x80\x03"
