"""A text engine without TeX, and drawn marks of graph components."""
import io, re
from pyx import box, baseclasses, text, unit, canvas, attr, trafo
from mc import machines


def flat(t):
    """the text of a label"""
    if isinstance(t, text.MultiEngineText):
        t = t.tex
    return t if isinstance(t, str) else repr(t)


class Label(box.rect_pt, baseclasses.canvasitem):
    """a box standing for a typeset text; its size depends on the text only"""

    def __init__(self, x_pt, y_pt, t, attrs, kwargs):
        self.text = flat(t)
        self.attrs = attrs
        self.kwargs = kwargs
        self.at = (x_pt, y_pt)
        w = 4.3*len(self.text)+1.7
        rel = 0
        for a in attrs:
            rel = getattr(a, "boxhalign", rel)
        box.rect_pt.__init__(self, x_pt-rel*w, y_pt-3.1, w, 6.2, relcenter=(rel, 0.5))
        for a in attrs:
            if isinstance(a, trafo.trafo_pt):
                box.rect_pt.transform(self, trafo.translate_pt(-x_pt, -y_pt), a, trafo.translate_pt(x_pt, y_pt))

    def processPS(self, file, writer, context, registry, bbox):
        bbox += self.bbox()
        pts = [[0.5*(self.corners[0][i]+self.corners[2][i]) for i in (0, 1)]]+list(self.corners)
        file.write("%% LABEL %s\ngsave [7777 1] 0 setdash newpath " % self.text)
        for i, p in enumerate(pts):
            file.write("%.6f %.6f %s " % (p[0], p[1], "lineto" if i else "moveto"))
        file.write("stroke grestore\n")

    def processPDF(self, file, writer, context, registry, bbox):
        bbox += self.bbox()

    def processSVG(self, xml, writer, context, registry, bbox):
        bbox += self.bbox()


class Engine:
    def __init__(self):
        self.labels = []

    def text_pt(self, x_pt, y_pt, t, textattrs=[], **kwargs):
        l = Label(x_pt, y_pt, t, list(textattrs), kwargs)
        self.labels.append(l)
        return l

    def text(self, x, y, t, textattrs=[], **kwargs):
        return self.text_pt(unit.topt(x), unit.topt(y), t, textattrs, **kwargs)

    def preamble(self, *args, **kwargs):
        pass


def eps(c):
    f = io.BytesIO()
    c.writeEPSfile(f)
    return f.getvalue()


LABEL = re.compile(rb"^% LABEL (.*)$", re.M)


def draw(c):
    """(marks, labels) of a canvas; a label is its text with its centre and first corner as transformed"""
    data = eps(c)
    texts = [m.group(1).decode() for m in LABEL.finditer(data)]
    marks, labels = [], []
    for m in machines.psmarks(data):
        if m.op == "stroke" and m.dash and 7777 in tuple(m.dash[0]):
            p = [m.path[0][1][0][0]]+[seg[-1] for seg in m.path[0][1]]
            labels.append((texts[len(labels)],)+tuple(p[0])+tuple(p[1]))
        else:
            marks.append(m)
    assert len(labels) == len(texts)
    return marks, labels
