"""P10: canvas layers draw in the declared order."""
import io, itertools
from mc import core
from mc.core import Space, require, Violation
from pyx import canvas, path, baseclasses, bbox, trafo, style

PROPERTY = "P10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all sequences of layer, repositioning, insert and clear calls up to a depth, in lockstep with an ordered-tree model"
LEVEL_NOTE = "Every sequence over the stated alphabets, and every reachable model state of the deep alphabet, runs on the real canvas; the paint order is read from the PostScript, PDF and SVG processing of recording items, and for a subset from complete files."
RULE = "A case is a sequence of calls (or a model state with one further call); non-trivial if at least one mark was painted; outcomes are the final paint orders with the results of all calls."


class Mark(baseclasses.canvasitem):
    def __init__(self, n):
        self.n = n

    def bbox(self):
        return bbox.empty()

    def processPS(self, file, writer, context, registry, bbox):
        file.write("%d " % self.n)

    def processPDF(self, file, writer, context, registry, bbox):
        file.write("%d " % self.n)

    def processSVG(self, xml, writer, context, registry, bbox):
        xml.write("%d " % self.n)


class Ctx:
    trafo = trafo.identity
    fillstyles = []
    selectedfont = None

    def __call__(self):
        return self


class Writer:
    textaspath = True
    textaspathed = True


class Out(io.StringIO):
    def startSVGElement(self, *a): pass
    def endSVGElement(self, *a): pass


def painted(c, kind):
    f = Out()
    getattr(c, "process" + kind)(f, Writer(), Ctx(), None, bbox.empty())
    return tuple(int(x) for x in f.getvalue().split() if x.isdigit())


# ------------------------------------------------------------ model
class Node:
    def __init__(self):
        self.entries = []      # marks (int) or names (str)
        self.sub = {}

    def order(self):
        out = []
        for e in self.entries:
            if isinstance(e, str):
                out.extend(self.sub[e].order())
            else:
                out.append(e)
        return out

    def shape(self):
        return tuple((e, self.sub[e].shape()) if isinstance(e, str) else 0 for e in self.entries)


def mlayer(root, name, above, below):
    """the node of the layer, or None if the call is to be rejected (nothing changed)"""
    if above is not None and below is not None:
        return None
    ref = above if above is not None else below
    parts = name.split(".")
    if ref is not None:
        rp = ref.split(".")
        # the reference has to be an existing other layer of the same group
        if len(rp) != len(parts) or rp[:-1] != parts[:-1] or rp == parts:
            return None
        n = root
        for p in rp:
            if p not in n.sub:
                return None
            n = n.sub[p]
    n = root
    for p in parts[:-1]:
        if p not in n.sub:
            n.sub[p] = Node()
            n.entries.append(p)
        n = n.sub[p]
    last = parts[-1]
    new = last not in n.sub
    if new:
        n.sub[last] = Node()
    if ref is None:
        if new:
            n.entries.append(last)
    else:
        if not new:
            n.entries.remove(last)
        i = n.entries.index(rp[-1])
        n.entries.insert(i + (1 if above is not None else 0), last)
    return n.sub[last]


class Run:
    def __init__(self, base=canvas.canvas):
        self.c = base()
        self.m = Node()
        self.k = 0
        self.log = []
        self.objs = {}

    def step(self, op, mark=True):
        self.k += 1
        kind = op[0]
        if kind == "layer":
            _, name, above, below = op
            node = mlayer(self.m, name, above, below)
            before = painted(self.c, "PS")
            n = len(self.c)
            try:
                kw = {}
                if above is not None:
                    kw["above"] = above
                if below is not None:
                    kw["below"] = below
                l = self.c.layer(name, **kw)
            except Exception as e:
                require(node is None, "%r rejected: %s %s", op, type(e).__name__, e)
                require(painted(self.c, "PS") == before and len(self.c) == n, "the rejected call %r changed the canvas", op)
                self.log.append("rejected")
            else:
                require(node is not None, "%r accepted", op)
                if name in self.objs:
                    require(self.objs[name] is l, "another object for the layer %s", name)
                self.objs[name] = l
                require(self.c.layer(name) is l, "asking again for %s gives another layer", name)
                if mark:
                    l.insert(Mark(self.k))
                    node.entries.append(self.k)
                self.log.append("ok")
        elif kind == "insert":
            self.c.insert(Mark(self.k))
            self.m.entries.append(self.k)
        elif kind == "wrap":
            self.c.insert(Mark(self.k), [style.linewidth.Thick])
            self.m.entries.append(self.k)
        elif kind == "sub":
            s = canvas.canvas([trafo.translate(1, 1)])
            s.layer("a").insert(Mark(self.k))
            s.layer("b", below="a").insert(Mark(self.k+1000))
            self.c.insert(s)
            self.m.entries.extend([self.k+1000, self.k])
        elif kind == "clear":
            self.c.clear()
            self.m = Node()
            self.objs = {}
        core.TRACE.step(self.m.shape())

    def verify(self, probe=True):
        want = tuple(self.m.order())
        for kind in ("PS", "PDF", "SVG"):
            got = painted(self.c, kind)
            require(got == want, "%s paints %r, expected %r", kind, got, want)
        if probe:
            # every layer is still there, reachable by its name
            def walk(node, prefix):
                for name, sub in sorted(node.sub.items()):
                    yield prefix + name, sub
                    yield from walk(sub, prefix + name + ".")
            for name, node in list(walk(self.m, "")):
                self.k += 1
                self.c.layer(name).insert(Mark(self.k))
                node.entries.append(self.k)
            want2 = tuple(self.m.order())
            got = painted(self.c, "PS")
            require(got == want2, "after drawing into every layer %r is painted, expected %r", got, want2)
        return want


def run_seq(case):
    r = Run()
    for op in case:
        r.step(op)
    w = r.verify()
    return (w, tuple(r.log)) if w or r.log else None


def layerops(names, refs):
    for n in names:
        yield ("layer", n, None, None)
        for ref in refs:
            yield ("layer", n, ref, None)
            yield ("layer", n, None, ref)


FULL = list(layerops(["a", "b", "a.x", "a.y", "b.x", "a.x.u"], ["a", "b", "a.x", "a.y", "b.x", "a.x.u", "q"])) + \
    [("layer", "a", "b", "b"), ("layer", "a.x", "a.y", "a.y"), ("insert",), ("wrap",), ("sub",), ("clear",)]
FLAT = list(layerops(["a", "b", "c"], ["a", "b", "c"])) + [("insert",)]
GROUP = list(layerops(["a", "a.x", "a.y"], ["a.x", "a.y"])) + [("insert",)]


def gen_states(alphabet, depth):
    """all model states reachable within depth calls, by one shortest history each,
    times every further call"""
    seen = {}
    frontier = [()]
    for d in range(depth + 1):
        nxt = []
        for h in frontier:
            for op in alphabet:
                yield h + (op,)
            if d == depth:
                continue
            for op in alphabet:
                m, ok = replay(h + (op,))
                if not ok:
                    continue
                s = m.shape()
                s = strip(s)
                if s not in seen:
                    seen[s] = 1
                    nxt.append(h + (op,))
        frontier = nxt


def strip(s):
    # marks do not influence the order: keep names, and whether marks precede
    out = []
    for e in s:
        if e == 0:
            if not out or out[-1] != 0:
                out.append(0)
        else:
            out.append((e[0], strip(e[1])))
    return tuple(out)


def replay(h):
    m = Node()
    ok = True
    for k, op in enumerate(h):
        ok = True
        if op[0] == "layer":
            n = mlayer(m, *op[1:])
            if n is None:
                ok = False
            else:
                n.entries.append(k)
        elif op[0] == "clear":
            m = Node()
        else:
            m.entries.append(k)
    return m, ok


# complete files: strokes with the number of the call as line width
def run_files(case):
    c = canvas.canvas()
    m = Node()
    for k, op in enumerate(case):
        if op[0] == "insert":
            t, n = c, m
        else:
            n = mlayer(m, *op[1:])
            try:
                t = c.layer(op[1], above=op[2], below=op[3])
            except Exception:
                require(n is None, "%r rejected", op)
                continue
            require(n is not None, "%r accepted", op)
        t.stroke(path.line(k+1, 0, k+1, 1))
        n.entries.append(k+1)
        core.TRACE.step(m.shape())
    want = m.order()
    if not want:
        return None
    import re
    from pyx import unit
    pt = 72/2.54
    f = io.BytesIO(); c.writeEPSfile(f)
    got = [round(float(x)/pt) for x in re.findall(r"([-\d.]+) [-\d.]+ moveto", f.getvalue().decode("latin1"))]
    require(got == want, "the EPS file paints %r, expected %r", got, want)
    f = io.BytesIO(); c.writeSVGfile(f)
    got = [round(float(x)/pt) for x in re.findall(r'd="M ?([-\d.]+)', f.getvalue().decode("utf-8"))]
    require(got == want, "the SVG file paints %r, expected %r", got, want)
    f = io.BytesIO(); c.writePDFfile(f, write_compress=False)
    got = [round(float(x)/pt) for x in re.findall(r"([-\d.]+) [-\d.]+ m\s", f.getvalue().decode("latin1"))]
    require(got == want, "the PDF file paints %r, expected %r", got, want)
    return tuple(want)


def seqs(ops, n):
    def g():
        for d in range(n + 1):
            yield from itertools.product(ops, repeat=d)
    return g


def spaces(tier):
    t = tier == "thorough"
    return [Space("all-calls", seqs(FULL, 3 if t else 2), run_seq, "all sequences of up to %d of %d calls: six layer names of three levels, seven references above and below, inserts, nested canvases, clear" % (3 if t else 2, len(FULL))),
            Space("flat", seqs(FLAT, 5 if t else 4), run_seq, "all sequences of up to %d of %d calls on three layers of one group" % (5 if t else 4, len(FLAT))),
            Space("group", seqs(GROUP, 6 if t else 4), run_seq, "all sequences of up to %d of %d calls on two layers of a group" % (6 if t else 4, len(GROUP))),
            Space("states", lambda: gen_states([o for o in FULL if o[0] == "layer" or o[0] in ("insert", "clear")], 4 if t else 3), run_seq, "every call in every model state reachable within %d calls" % (4 if t else 3)),
            Space("files", seqs(GROUP, 3 if t else 2), run_files, "complete EPS, PDF and SVG files of all sequences of up to %d calls" % (3 if t else 2))]
