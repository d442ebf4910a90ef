"""P35: writing a file puts a complete result under the right name or fails."""
import io, itertools, json, os, pathlib, re, resource, shutil, signal, subprocess, sys, tempfile
import xml.etree.ElementTree
from mc import core
from mc.core import Space, require, TRACE, Violation
from pyx import bbox, bitmap, canvas, color, config, deco, document, graph, path, style, text, trafo, unit

PROPERTY = "P35"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of write methods, file arguments, script names and prior directory contents, with fault injection at every output call, every file size limit and every behaviour of a stand-in for Ghostscript; directory contents and streams afterwards are compared with the documented naming rule and an independent completeness test"
LEVEL_NOTE = "The real write methods run in scratch directories; faults come from streams failing at the n-th call, from RLIMIT_FSIZE at every byte and from the answers of a program standing in for Ghostscript."
RULE = "A case is a write call with its environment (script name, file argument, fault); distinct outcomes are the resulting directory listings and exceptions."
ASSUMPTIONS = ["Streams passed to the write methods accept all bytes given to write() or raise.",
               "Ghostscript reports failures by its return code."]

SUFFIX = {"writeEPSfile": "eps", "writePSfile": "ps", "writePDFfile": "pdf", "writeSVGfile": "svg"}
METHODS = list(SUFFIX)


def drawing(kind):
    if kind == "small":
        c = canvas.canvas()
        c.stroke(path.line(1, 2, 4, 3), [style.linewidth.thick, color.rgb.red])
    elif kind == "empty":
        c = canvas.canvas()
    elif kind == "rich":
        c = canvas.canvas()
        c.layer("top").fill(path.circle(2, 1, 0.7), [color.cmyk.Green])
        c.stroke(path.curve(0, 0, 2, 1, 1, 5, 4, 4), [style.linestyle.dashed, deco.earrow.large, trafo.rotate(20)])
        img = bitmap.image(9, 7, "RGB", bytes((i*37) % 256 for i in range(9*7*3)))
        c.insert(bitmap.bitmap(3, 1, img, height=2))
        c.fill(path.rect(0, 0, 1, 2), [color.rgb(.2, .3, .4), color.transparency(0.5)] if False else [color.rgb(.2, .3, .4)])
        for i in range(40):
            c.stroke(path.line(i, 0, i*.7, 3+i % 5))
    elif kind == "graph":
        c = graph.graphxy(width=5, x=graph.axis.lin(min=0, max=1, painter=None), y=graph.axis.lin(min=0, max=2, painter=None))
        c.plot(graph.data.values(x=[.1, .5, .8], y=[.3, 1.7, .8]), [graph.style.symbol(), graph.style.line()])
    return c


def complete(suffix, data, what=""):
    """whether the data is a complete file, by the rules of its format"""
    if suffix in ("eps", "ps"):
        require(data.startswith(b"%!PS-Adobe-3.0"), "%sstarts with %r", what, data[:20])
        require(data.endswith(b"%%EOF\n"), "%sends with %r", what, data[-20:])
        require(data.startswith(b"%!PS-Adobe-3.0 EPSF-3.0\n") == (suffix == "eps"), "%sheader line %r", what, data[:30])
        require(data.count(b"\nshowpage\n") >= (suffix == "eps"), "%sno page is shown", what)
    elif suffix == "pdf":
        require(data.startswith(b"%PDF-1."), "%sstarts with %r", what, data[:20])
        m = re.search(rb"startxref\n(\d+)\n%%EOF\n$", data)
        require(m, "%send of the PDF file %r", what, data[-30:])
        pos = int(m.group(1))
        require(data[pos:pos+5] == b"xref\n", "%sxref is not at %d", what, pos)
        head = re.match(rb"xref\n0 (\d+)\n", data[pos:])
        n, at = int(head.group(1)), pos+len(head.group(0))
        for i in range(1, n):
            off = int(data[at+20*i:at+20*i+10])
            require(data[off:].startswith(b"%d 0 obj\n" % i), "%sobject %d is not at %d", what, i, off)
        require(b"trailer\n" in data[at+20*n:], "%sno trailer", what)
    else:
        root = xml.etree.ElementTree.fromstring(data)
        require(root.tag == "{http://www.w3.org/2000/svg}svg", "%sroot element %r", what, root.tag)


_ref = {}


def reference(kind, method, **kwargs):
    key = (kind, method, repr(sorted(kwargs.items())))
    if key not in _ref:
        f = io.BytesIO()
        getattr(drawing(kind), method)(f, **kwargs)
        complete(SUFFIX[method], f.getvalue(), "stream: ")
        _ref[key] = f.getvalue()
    return _ref[key]


class Scratch:

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p35")
        self.old, self.argv, self.stdout, self.env, self.tmp = os.getcwd(), list(sys.argv), sys.stdout, dict(os.environ), tempfile.tempdir
        os.mkdir(self.dir+"/cwd")
        os.mkdir(self.dir+"/cwd/d")
        os.mkdir(self.dir+"/tmp")
        tempfile.tempdir = self.dir+"/tmp"
        os.chdir(self.dir+"/cwd")
        os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
        return self

    def __exit__(self, *args):
        os.chdir(self.old)
        sys.argv[:] = self.argv
        sys.stdout = self.stdout
        os.environ.clear()
        os.environ.update(self.env)
        tempfile.tempdir = self.tmp
        shutil.rmtree(self.dir)

    def files(self):
        out = {}
        for root, dirs, names in os.walk(self.dir):
            for n in names:
                full = os.path.join(root, n)
                with open(full, "rb") as f:
                    out[os.path.relpath(full, self.dir)] = f.read()
        return out


def normal(data, suffix):
    return data


class WriteOnly:

    def __init__(self):
        self.data = b""

    def write(self, b):
        self.data += b
        return len(b)


class Recorder(io.BytesIO):

    def close(self):
        raise Violation("the stream passed was closed")


def equal(suffix, got, want, what):
    complete(suffix, got, what)
    require(got == want, "%scontent differs from that written to a stream: %r... instead of %r...", what, got[:200], want[:200])


NAMES = ["x", "x.eps", "x.ps", "x.pdf", "x.svg", "x.eps.pdf", "x.EPS", "xeps", "", ".eps", ".svg", "d/y", "d/y.pdf", "./x.y", "d/", "ABS/z", "ABS/z.ps", "a b", "ä.svg", "nodir/x", "d", "-x", "--", "%d"]
ARGV = ["foo.py", "DIR/bar.py", "foo", "", "-c", "foo.pyc", ".py", "foo.py.py", "x.PY", "d/sub.py", "nodir/foo.py"]
OBJECTS = ["bytesio", "recorder", "buffered", "raw", "appended", "writeonly", "stdout", "text", "textfile", "readonly", "closed", "path", "int", "bytes", "list", "pipe"]


def space_names(tier):
    kinds = ["small", "rich", "graph"] + (["empty"] if tier == "thorough" else [])

    def gen():
        for kind in kinds:
            for owner in ("canvas", "document"):
                for m in METHODS:
                    for prior in ("", "longer"):
                        for n in NAMES:
                            yield kind, owner, m, "name", n, prior
                        for a in ARGV:
                            yield kind, owner, m, "argv", a, prior
                    for o in OBJECTS:
                        yield kind, owner, m, "object", o, ""

    def run(case):
        kind, owner, m, what, arg, prior = case
        suffix = SUFFIX[m]
        with Scratch() as sc:
            if kind == "graph":
                want = None
            else:
                want = reference(kind, m)
            c = drawing(kind)
            if want is None:
                f = io.BytesIO()
                getattr(c, m)(f)
                want = f.getvalue()
                complete(suffix, want)
            write = getattr(c if owner == "canvas" else document.document([document.page(c)]), m)
            sys.argv[:] = ["script.xyz"]
            if what in ("name", "argv"):
                a = arg.replace("ABS", sc.dir+"/tmp").replace("DIR", sc.dir+"/tmp")
                if what == "name":
                    full = a if a.endswith("."+suffix) else a+"."+suffix
                    call = lambda: write(a)
                else:
                    sys.argv[:] = [a, "other.py"]
                    full = a[:-3]+"."+suffix if a.endswith(".py") else None
                    call = (lambda: write()) if owner == "canvas" else (lambda: write(None))
                rel = full is not None and os.path.relpath(os.path.join(sc.dir, "cwd", full), sc.dir)
                fails = full is None or "nodir" in full
                if prior and not fails:
                    with open(full, "wb") as f:
                        f.write(b"%%EOF\n"*50000)
                try:
                    call()
                except Exception as e:
                    require(fails, "failed with %r", e)
                    require(sc.files() == {}, "failed, but left %r", list(sc.files()))
                    return type(e).__name__
                require(not fails, "no exception")
                files = sc.files()
                require(set(files) == {rel}, "wrote %r instead of %r", sorted(files), rel)
                equal(suffix, files[rel], want, "file: ")
                return suffix, sorted(files) if "ABS" not in arg else 0
            # objects
            get = None
            if arg == "bytesio":
                f = io.BytesIO()
                get = f.getvalue
            elif arg == "recorder":
                f = Recorder()
                get = f.getvalue
            elif arg in ("buffered", "raw", "appended"):
                f = open("file.dat", "wb", buffering=0 if arg == "raw" else -1)
                if arg == "appended":
                    f.write(b"prefix\n")

                def get():
                    f.flush()
                    with open("file.dat", "rb") as g:
                        d = g.read()
                    if arg == "appended":
                        require(d.startswith(b"prefix\n"), "earlier content is lost")
                        d = d[7:]
                    return d
            elif arg == "writeonly":
                f = WriteOnly()
                get = lambda: f.data
            elif arg == "stdout":
                class Out:
                    buffer = Recorder()
                sys.stdout = Out()
                f = "-"
                get = Out.buffer.getvalue
            elif arg == "pipe":
                r, w = os.pipe()
                f = os.fdopen(w, "wb")
                import fcntl
                fcntl.fcntl(w, 1031, 1 << 20)

                def get():
                    f.flush()
                    os.set_blocking(r, False)
                    d = b""
                    while True:
                        try:
                            x = os.read(r, 1 << 20)
                        except BlockingIOError:
                            return d
                        if not x:
                            return d
                        d += x
            elif arg == "text":
                f = io.StringIO()
            elif arg == "textfile":
                f = open("file.txt", "w")
            elif arg == "readonly":
                open("file.dat", "wb").close()
                f = open("file.dat", "rb")
            elif arg == "closed":
                f = io.BytesIO()
                f.close()
            elif arg == "path":
                f = pathlib.Path("x")
            elif arg == "int":
                f = 12345
            elif arg == "bytes":
                f = b"x"
            else:
                f = ["x"]
            try:
                if owner == "canvas":
                    write(file=f)
                else:
                    write(f)
            except Violation:
                raise
            except Exception as e:
                require(get is None, "failed with %r", e)
                return type(e).__name__
            finally:
                sys.stdout = sc.stdout
            if arg == "path":
                # accepting paths would be fine as well
                files = sc.files()
                require(list(files) == ["cwd/x."+suffix], "wrote %r", list(files))
                equal(suffix, files["cwd/x."+suffix], want, "file: ")
                return "path"
            require(get is not None, "no exception")
            equal(suffix, get(), want, "stream: ")
            if hasattr(f, "closed"):
                require(not f.closed, "the stream passed is closed")
                f.write(b"more")
                if arg == "pipe":
                    f.close()
                    os.close(r)
            return suffix, "stream"
    return Space("names", gen, run, "%d drawings, two kinds of callers, four methods, %d names, %d script names (both with and without an existing file) and %d kinds of other arguments" % (len(kinds), len(NAMES), len(ARGV), len(OBJECTS)), cpu=60)


def space_suffix(tier):
    """writetofile chooses the format by the file name"""
    names = [b+s for b in ("x", "", "d/y", "x.eps", "x.pdf", "x.y") for s in (".eps", ".ps", ".pdf", ".svg", ".EPS", ".png", ".", "", "eps", ".epsi", ".svgz", ".pdf ")]

    def gen():
        for kind in ("small", "rich"):
            for owner in ("canvas", "document"):
                for n in names:
                    for prior in ("", "longer"):
                        yield kind, owner, n, prior

    def run(case):
        kind, owner, n, prior = case
        with Scratch() as sc:
            c = drawing(kind)
            suffix = n.rsplit(".", 1)[-1] if "." in n else ""
            ok = suffix in ("eps", "ps", "pdf", "svg")
            bad = n in ("", "d/y/", ".")
            if prior and not bad:
                with open(n, "wb") as f:
                    f.write(b"%%EOF\n"*50000)
            before = sc.files()
            try:
                (c if owner == "canvas" else document.document([document.page(c)])).writetofile(n)
            except Exception as e:
                require(not ok, "failed with %r", e)
                require(isinstance(e, ValueError), "failed with %r", e)
                require(sc.files() == before, "failed, but changed %r", list(sc.files()))
                return "error"
            require(ok, "no exception")
            files = sc.files()
            require(list(files) == ["cwd/"+n], "wrote %r", list(files))
            m = {v: k for k, v in SUFFIX.items()}[suffix]
            equal(suffix, files["cwd/"+n], reference(kind, m), "file: ")
            return n
    return Space("suffix", gen, run, "%d names with each of two drawings, callers and prior contents" % len(names))


class Failing:
    """stream failing at the n-th call"""

    def __init__(self, at, mode):
        self.at, self.mode, self.n, self.data, self.failed = at, mode, 0, b"", False

    def write(self, b):
        self.n += 1
        if self.n == self.at or self.failed and self.mode != "once":
            self.failed = True
            if self.mode == "partial":
                self.data += bytes(b[:len(b)//2])
            if self.mode == "value":
                raise ValueError("write to closed file")
            raise OSError(28, "No space left on device")
        self.data += bytes(b)
        return len(b)

    def flush(self):
        if self.failed and self.mode != "once":
            raise OSError(28, "No space left on device")


def space_faults(tier):
    """a stream failing at each of its calls; a file system full at each byte"""
    step = dict(small=1, rich=61 if tier == "quick" else 7)
    SIZE = {}

    def gen():
        with Scratch():
            for kind in ("small", "rich"):
                for m in METHODS:
                    f = Failing(0, "")
                    getattr(drawing(kind), m)(f)
                    for mode in ("stay", "once", "partial", "value"):
                        for at in range(0, f.n+2):
                            yield kind, m, "stream", mode, at
                    SIZE[kind, m] = len(f.data)
                    for limit in list(range(0, len(f.data)+2, step[kind]))+[len(f.data)-1, len(f.data)]:
                        yield kind, m, "limit", "", limit
                        if kind == "small":
                            yield kind, m, "limit-stream", "", limit
                    yield kind, m, "full", "", 0

    def run(case):
        kind, m, what, mode, at = case
        with Scratch() as sc:
            c = drawing(kind)
            suffix = SUFFIX[m]
            want = reference(kind, m)
            if what == "stream":
                f = Failing(at, mode)
                try:
                    getattr(c, m)(f)
                except Exception as e:
                    require(f.failed, "failed with %r without any failing call", e)
                    return type(e).__name__
                require(not f.failed, "write call %d failed, but no exception was raised", at)
                equal(suffix, f.data, want, "stream: ")
                return "ok"
            if what == "full":
                try:
                    with open("/dev/full", "wb") as f:
                        getattr(c, m)(f)
                except OSError:
                    return "full"
                raise Violation("no exception on a full device")
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            error = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, old[1]))
            try:
                try:
                    if what == "limit":
                        getattr(c, m)("out")
                    else:
                        with open("out."+suffix, "wb") as f:
                            getattr(c, m)(f)
                except Exception as e:
                    error = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
                signal.signal(signal.SIGXFSZ, sig)
            if at < len(want):
                require(error is not None, "no exception for a file limited to %d of %d bytes", at, len(want))
                require(isinstance(error, OSError), "failed with %r", error)
                return "limit"
            require(error is None, "failed with %r", error)
            equal(suffix, sc.files()["cwd/out."+suffix], want, "file: ")
            return "ok", suffix
    return Space("faults", gen, run, "failures at every output call in four ways, and file size limits at every byte (each %d-th byte of the larger drawing)" % step["rich"], cpu=60)


PAGE = dict(pagename=[None, "first"], paperformat=[None, "A4"], rotated=[0, 1], centered=[1, 0], fittosize=[0, 1], bboxenlarge=[None, "5"], margin=[None, "2"])
WRITE = {"writeEPSfile": dict(title=[None, "T"], textaspath=[False, True]), "writePSfile": dict(title=[None, "T"], writebbox=[False, True]),
         "writePDFfile": dict(title=[None, "T"], compress=[True, False], writebbox=[False, True]), "writeSVGfile": dict(textaspath=[True, False])}


def space_arguments(tier):
    """page and write arguments given to canvas methods mean the same as for a document"""
    def gen():
        for m in METHODS:
            for wk in itertools.product(*WRITE[m].values()):
                for pk in itertools.product(*PAGE.values()):
                    yield m, pk, wk, "page"
            for pk in itertools.product(*PAGE.values()):
                yield m, pk, [v[0] for v in WRITE[m].values()], "implicit"
                yield m, pk, [v[1] for v in WRITE[m].values()], "tofile"
            for bad in ("page_nothing", "write_nothing", "nothing"):
                yield m, [], [], bad

    def run(case):
        m, pk, wk, how = case
        c = drawing("small")
        with Scratch() as sc:
            if not pk:
                f = io.BytesIO()
                try:
                    getattr(c, m)(f, **{how: 1})
                except TypeError:
                    require(not f.getvalue(), "failed, but wrote something")
                    return how
                raise Violation("unknown argument %r accepted" % how)
            page = {}
            for k, v in zip(PAGE, pk):
                if v is not None:
                    page[k] = document.paperformat.A4 if k == "paperformat" else 1*unit.t_mm*float(v) if k == "bboxenlarge" else float(v)*unit.t_cm if k == "margin" else v
            write = {k: v for k, v in zip(WRITE[m], wk) if v is not None}
            f = io.BytesIO()
            getattr(document.document([document.page(c, **page)]), m)(f, **write)
            want = f.getvalue()
            complete(SUFFIX[m], want)
            kw = {("page_" if how != "implicit" else "")+k: v for k, v in page.items()}
            kw.update({"write_"+k: v for k, v in write.items()})
            if how == "tofile":
                c.writetofile("x."+SUFFIX[m], **kw)
                got = sc.files()["cwd/x."+SUFFIX[m]]
            else:
                f = io.BytesIO()
                getattr(c, m)(f, **kw)
                got = f.getvalue()
            equal(SUFFIX[m], got, want, "arguments: ")
            return m, how, hash(want)
    return Space("arguments", gen, run, "all combinations of seven page arguments and the write arguments of each method")


def space_documents(tier):
    """numbers of pages"""
    def gen():
        for m in METHODS:
            for n in range(5):
                for how in ("constructor", "append", "both"):
                    for names in (0, 1):
                        for pf in range(3):
                            yield m, n, how, names, pf

    def run(case):
        m, n, how, names, pf = case
        with Scratch() as sc:
            pages = []
            for i in range(n):
                c = canvas.canvas()
                c.stroke(path.line(i, 2*i, 1+3*i, 7))
                pages.append(document.page(c, pagename="p%d" % (7*i+1) if names else None, paperformat=[None, document.paperformat.A4, [document.paperformat.A5, document.paperformat.A3][i % 2]][pf], rotated=i % 2))
            if how == "constructor":
                d = document.document(pages)
            elif how == "append":
                d = document.document()
                for p in pages:
                    d.append(p)
            else:
                d = document.document(pages[:n//2])
                for p in pages[n//2:]:
                    d.append(p)
            f = io.BytesIO()
            try:
                getattr(d, m)(f)
            except ValueError as e:
                require(m in ("writeEPSfile", "writeSVGfile") and n != 1, "failed with %r", e)
                require(not f.getvalue(), "failed, but wrote something")
                return "error"
            require(n == 1 or m in ("writePSfile", "writePDFfile"), "%d pages in one %s file", n, SUFFIX[m])
            data = f.getvalue()
            complete(SUFFIX[m], data)
            require(not document.document().pages, "pages of another document")
            if m == "writePSfile":
                require(re.findall(rb"%%Pages: (\d+)", data) == [b"%d" % n], "number of pages")
                require(data.count(b"\nshowpage\n") == n, "%d pages are shown", data.count(b"\nshowpage\n"))
                require(re.findall(rb"%%Page: (\S+) (\d+)", data) == [(b"p%d" % (7*i+1) if names else b"%d" % (i+1), b"%d" % (i+1)) for i in range(n)], "page comments")
            elif m == "writePDFfile":
                require(re.findall(rb"/Count (\d+)", data) == [b"%d" % n], "number of pages")
                require(len(re.findall(rb"/Type /Page\n", data)) == n, "page objects")
            return m, n, pf, names
    return Space("documents", gen, run, "documents of up to four pages built in three ways")


GS = """#!/bin/sh
out=; last=
for a in "$@"; do
  printf '%%s\\n' "$a" >> %(dir)s/args
  case "$a" in -sOutputFile=*) out="${a#-sOutputFile=}";; esac
  last="$a"
done
case "%(when)s" in
  before) exec 0<&-; %(end)s;;
esac
if [ "$last" = "-" ]; then cat > %(dir)s/input; else cp "$last" %(dir)s/input; fi
case "%(when)s" in
  read) %(end)s;;
esac
if [ "$out" = "-" ]; then printf 'RESULT\\0\\377%%s' "$(wc -c < %(dir)s/input)"; else printf 'RESULT\\0\\377%%s' "$(wc -c < %(dir)s/input)" > "$out"; fi
echo noise >&2
%(end)s
"""
ENDS = {"ok": "exit 0", "one": "exit 1", "255": "exit 255", "kill": "kill -9 $$", "term": "kill -TERM $$"}


def space_ghostscript(tier):
    """converting by Ghostscript (a stand-in recording its call)"""
    def gen():
        for kind in ("small", "rich"):
            for inp in ("eps", "pdf", None, "ps"):
                for when in ("before", "read", "after"):
                    for end in ENDS:
                        if end == "ok" and when != "after":
                            continue
                        for call in ("pipe", "file"):
                            yield kind, inp, when, end, call, "png16m", "o.png", 0, "foo.py"
        for device in ("png16m", "pngalpha", "pngmono", "jpeg", "jpeggray", "tiff24nc", "pdfwrite", None):
            for name in (None, "o.png", "o.jpg", "o", "d/o.png", "-", "o.x.jpg", "png", "o.PNG"):
                for argv in ("foo.py", "d/bar.py", "foo", ""):
                    yield "small", "eps", "after", "ok", "file", device, name, 0, argv
        for o in range(1, 64):
            for inp in ("eps", "pdf"):
                for call in ("pipe", "file"):
                    yield "small", inp, "after", "ok", call, "png16m", "o.png", o, "foo.py"

    def run(case):
        kind, inp, when, end, call, device, name, opts, argv = case
        with Scratch() as sc:
            os.mkdir(sc.dir+"/gs")
            with open(sc.dir+"/gs/mygs", "w") as f:
                f.write(GS % dict(dir=sc.dir+"/gs", when=when, end=ENDS[end]))
            os.chmod(sc.dir+"/gs/mygs", 0o755)
            sys.argv[:] = [argv]
            c = drawing(kind)
            kw = dict(gs=sc.dir+"/gs/mygs")
            wk = {}
            require(opts < 64, "bounds")
            if opts & 1:
                kw["resolution"] = 217
            if opts & 2:
                kw["gsoptions"] = ["-dFirst", "-sSecond=a b"]
            if opts & 4:
                kw["textalphabits"] = None
            if opts & 8:
                kw["graphicsalphabits"] = None if opts & 4 else 2
            if opts & 16:
                kw["ciecolor"] = True
            if opts & 32:
                wk = {"page_bboxenlarge": 1*unit.t_cm, "write_title": "T"}
                kw.update(wk)
            if inp is not None:
                kw["input"] = inp
            gsopts = list(kw.get("gsoptions", []))
            # documented results
            wantname = name
            error = inp == "ps"
            if call == "file":
                if name is None:
                    if not argv.endswith(".py") or device is None:
                        error = True
                    else:
                        wantname = argv[:-3]+"."+("png" if device.startswith("png") else "jpg" if device.startswith("jpeg") else device)
                if device is None and not error:
                    if not wantname.endswith((".png", ".jpg")):
                        error = True
                wantdevice = device or ("png16m" if str(wantname).endswith(".png") else "jpeg")
            else:
                wantname, wantdevice = "-", device
            data = None
            wantbytes = io.BytesIO()
            m = "writePDFfile" if inp == "pdf" else "writeEPSfile"
            getattr(drawing(kind), m)(wantbytes, **wk)
            wantbytes = wantbytes.getvalue()
            result = b"RESULT\0\377%d" % len(wantbytes)
            saved = os.dup(1)
            if call == "file" and wantname == "-" and not error:
                fd = os.open("captured", os.O_WRONLY | os.O_CREAT, 0o644)
                os.dup2(fd, 1)
                os.close(fd)
            err = os.dup(2)
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 2)
            try:
                try:
                    if call == "pipe":
                        data = c.pipeGS(device, **kw)
                    elif name is None:
                        c.writeGSfile(device=device, **kw)
                    else:
                        c.writeGSfile(name, device, **kw)
                finally:
                    os.dup2(saved, 1)
                    os.dup2(err, 2)
                    for fd in (saved, err, null):
                        os.close(fd)
            except Exception as e:
                require(error or end != "ok", "failed with %r", e)
                if error:
                    require("gs/args" not in sc.files(), "Ghostscript was called")
                return "error", type(e).__name__
            require(not error, "no exception for invalid arguments")
            require(end == "ok", "Ghostscript failed, but no exception was raised")
            files = sc.files()
            require(gsopts == list(kw.get("gsoptions", [])), "list of options was changed")
            args = files.pop("gs/args").decode().splitlines()
            require("-sDEVICE="+wantdevice in args, "device in %r", args)
            require("-r%d" % kw.get("resolution", 100) in args, "resolution in %r", args)
            for o, k in (("-dTextAlphaBits=", "textalphabits"), ("-dGraphicsAlphaBits=", "graphicsalphabits")):
                v = kw.get(k, 4)
                require([a for a in args if a.startswith(o)] == ([] if v is None else [o+str(v)]), "%s in %r", o, args)
            require(("-dUseCIEColor" in args) == bool(kw.get("ciecolor")), "-dUseCIEColor in %r", args)
            if gsopts:
                require(any(args[i:i+2] == gsopts for i in range(len(args))), "options in %r", args)
            got = files.pop("gs/input")
            complete("pdf" if inp == "pdf" else "eps", got, "input of Ghostscript: ")
            require(got == wantbytes, "input of Ghostscript differs from the file written directly")
            del files["gs/mygs"]
            if call == "pipe":
                require(isinstance(data, io.BytesIO) and data.tell() == 0 and data.read() == result, "result %r", data)
                require(files == {}, "files left: %r", list(files))
            else:
                want = "cwd/captured" if wantname == "-" else os.path.normpath("cwd/"+wantname)
                require(list(files) == [want], "wrote %r instead of %r", list(files), want)
                require(files[want] == result, "content %r", files[want][:100])
            return case[1:]
    return Space("ghostscript", gen, run, "all inputs, moments and kinds of failure; all devices, names and script names; all combinations of options", cpu=60)


SCRIPT = """
import sys, io
sys.path.insert(0, sys.argv.pop(1))
from pyx import *
c = canvas.canvas()
c.stroke(path.line(1, 2, 4, 3), [style.linewidth.thick, color.rgb.red])
c.insert(bitmap.bitmap(3, 1, bitmap.image(9, 7, "RGB", bytes((i*37) % 256 for i in range(9*7*3))), height=2))
todo = sys.argv.pop(1)
b = io.BytesIO()
exec(todo)
"""


def space_processes(tier):
    """complete processes with standard output being a file, a pipe or closed"""
    todos = {}
    for m in METHODS:
        todos["c.%s('-')" % m] = "c.%s(b)" % m
        todos["document.document([document.page(c)]).%s('-')" % m] = "c.%s(b)" % m
    todos["c.writeGSfile('-', 'png16m')"] = "b = c.pipeGS('png16m')"
    todos["c.writeGSfile('-', 'jpeg', input='pdf', resolution=30)"] = "b = c.pipeGS('jpeg', input='pdf', resolution=30)"
    todos["sys.stdout.buffer.write(c._repr_png_())"] = "b = c.pipeGS('png16m', page_bboxenlarge=1*unit.t_pt)"
    todos["sys.stdout.buffer.write(c._repr_svg_().encode('utf-8'))"] = "c.writeSVGfile(b, page_bboxenlarge=1*unit.t_pt)"
    todos["c.writeGSfile('q.png'); sys.stdout.buffer.write(open('q.png', 'rb').read())"] = "b = c.pipeGS('png16m')"
    todos["c.writeGSfile(device='jpeg'); sys.stdout.buffer.write(open('-.jpg', 'rb').read())"] = None
    bad = ["c.pipeGS('nosuchdevice')", "c.writeGSfile('a.png', 'nosuchdevice')", "c.writeGSfile('nodir/a.png')", "c.writeGSfile('a.png', input='pdf', device='nosuchdevice')", "c.pipeGS('png16m', gs='/nonexistent/gs')", "c.pipeGS('png16m', gsoptions=['-c', 'undefinedcommand'])"]

    def gen():
        for t in todos:
            for out in ("file", "pipe", "append", "closed"):
                yield t, out
        for t in bad:
            yield t, "error"

    def run(case):
        todo, out = case
        with Scratch() as sc:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TMPDIR=sc.dir+"/tmp")

            def call(todo, **kw):
                return subprocess.run([sys.executable, "-c", SCRIPT, core.REPO, todo], env=e, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, **kw)
            if out == "error":
                r = call(todo, stdout=subprocess.PIPE)
                require(r.returncode == 1 and b"Traceback" in r.stderr, "returned %d and %r", r.returncode, r.stderr[-200:])
                return todo
            if todos[todo] is None:
                r = call(todo, stdout=subprocess.PIPE)
                require(r.returncode == 1 and b"could not auto-guess filename" in r.stderr, "returned %d and %r", r.returncode, r.stderr[-200:])
                return todo
            if out == "closed":
                r, w = os.pipe()
                os.close(r)
                p = call(todo, stdout=w)
                os.close(w)
                require(p.returncode != 0, "no failure for a closed output")
                return todo, out
            want = call(todos[todo]+"; open('want', 'wb').write(b.getvalue())", stdout=subprocess.PIPE)
            require(want.returncode == 0, "failed: %s", want.stderr[-300:])
            with open("want", "rb") as f:
                want = f.read()
            require(len(want) > 100, "content is missing")
            if out == "pipe":
                r = call(todo, stdout=subprocess.PIPE)
                got = r.stdout
            else:
                with open("got", "ab") as f:
                    if out == "append":
                        f.write(b"earlier")
                        f.flush()
                    r = call(todo, stdout=f)
                with open("got", "rb") as f:
                    got = f.read()
                if out == "append":
                    require(got.startswith(b"earlier"), "earlier output lost")
                    got = got[7:]
            require(r.returncode == 0, "failed: %s", r.stderr[-300:])
            require(got == want, "output %r... instead of %r...", got[:100], want[:100])
            require(not os.listdir(sc.dir+"/tmp"), "temporary files left")
            return todo, out
    return Space("processes", gen, run, "%d output statements with four kinds of standard output, and %d failing ones" % (len(todos), len(bad)), cpu=120)


def spaces(tier):
    return [space_names(tier), space_suffix(tier), space_faults(tier), space_arguments(tier), space_documents(tier), space_ghostscript(tier), space_processes(tier)]
