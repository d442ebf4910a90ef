"""P21: TeX output scanning removes exactly what it recognises."""
import itertools, logging, os, re, shutil, tempfile
from mc import core, sched, faketex
from mc.core import Space, require, Violation
from pyx import text
from pyx.text import texmessage as tm

PROPERTY = "P21"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all strings up to a length over bracket, quote, newline and file name alphabets and of all fragment sequences, each parser compared with a hand-written scanner; parser chains run inside the real engine"
LEVEL_NOTE = "Exhaustive within the stated alphabets and lengths. The reference scanners work on characters and lines, without regular expressions for the bracket parsers."
RULE = "A case is one output text (and parser); non-trivial if the text is not empty; outcomes are the returned texts or the error."

FILES = ["a", "ab", "b.fd", "a.fd", "c.def", "g.eps", "h.eps", "x y", "a.aux", "p(q)"]
DIR = None


def setup():
    global DIR
    DIR = tempfile.mkdtemp(prefix="p21-")
    os.chdir(DIR)
    for f in FILES:
        with open(f, "w"):
            pass
    os.mkdir("dir")


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


# ------------------------------------------------------------ references
def quoted_spans(s):
    """positions protected by a quoted string starting right after an opening bracket"""
    prot = set()
    i = 0
    while i < len(s):
        if s[i] == "(" and s[i+1:i+2] == '"':
            j = s.find('"', i+2)
            if j >= 0:
                prot.update(range(i+1, j+1))
                i = j
        i += 1
    return prot


def levels(s):
    """[(open, close, level)] of all bracket pairs, or None when unbalanced"""
    prot = quoted_spans(s)
    stack, out = [], []
    for i, c in enumerate(s):
        if i in prot:
            continue
        if c == "(":
            stack.append(i)
        elif c == ")":
            if not stack:
                return None
            o = stack.pop()
            out.append((o, i, len(stack)+1))
    return None if stack else out


def ref_nested(s):
    l = levels(s)
    if l is None:
        return s
    cut = set()
    for o, c, lev in l:
        if lev == 2:
            cut.update(range(o, c+1))
    return "".join(c for i, c in enumerate(s) if i not in cut)


def ref_load(s):
    """None when the text is unbalanced (no documented result)"""
    l = levels(s)
    if l is None:
        return None
    drop = set()
    for o, c, lev in l:
        if lev != 1:
            continue
        # the text of the group without nested groups
        body = s[o+1:c]
        for o2, c2, lev2 in sorted(l, reverse=True):
            if lev2 == 2 and o < o2 and c2 < c:
                body = body[:o2-o-1] + body[c2-o:]
        flat = body.replace("\n", "")
        if flat.startswith('"'):
            j = flat.find('"', 1)
            if j <= 1:
                # not a file name
                return "unclear"
            if not os.path.isfile(flat[1:j]):
                return s
            drop.update(range(o, c+1))
        else:
            name = body.split(" ")[0]
            parts = name.split("\n")
            if not any(os.path.isfile("".join(parts[:k])) for k in range(1, len(parts)+1)):
                return s if name else "unclear"
            drop.update(range(o, c+1))
    return "".join(ch for i, ch in enumerate(s) if i not in drop)


def subsequence(a, b):
    it = iter(b)
    return all(c in it for c in a)


def run_brackets(s):
    got = text.remove_nested_brackets(s)
    require(got == ref_nested(s), "remove_nested_brackets gives %r, expected %r", got, ref_nested(s))
    got = tm.load(s)
    want = ref_load(s)
    require(subsequence(got, s), "load invents text: %r", got)
    if want is None or want == "unclear":
        i = s.find("(")
        require(got == s if i < 0 else got[:i] == s[:i], "load changes text outside of brackets: %r", got)
        return ("free", got)
    require(got == want, "load gives %r, expected %r", got, want)
    return got if s else None


def gen_strings(alphabet, n):
    for d in range(n+1):
        for t in itertools.product(alphabet, repeat=d):
            yield "".join(t)


# file names broken by newlines at every position
def gen_broken():
    for name in ("a", "ab", "x y", "p(q)", "nofile"):
        for quote in ("", '"'):
            if not quote and (" " in name or "(" in name):
                continue
            for tail in ("", " more", " (a)", ' ("ab" x)', "\n(a)\nz", " (a (ab)) y"):
                full = "(" + quote + name + quote + tail + ")"
                for k in range(0, 3):
                    for pos in itertools.combinations(range(1, len(full)), k):
                        s = full
                        for p in reversed(pos):
                            s = s[:p] + "\n" + s[p:]
                        for pre, post in (("", ""), ("u ", " v"), ("(a)", "(ab)")):
                            yield pre + s + post


# ---- .fd/.def and graphics messages
def ref_ending(s, opening, closing, endings, stops):
    """scanner for <opening>name<closing> with one of the endings"""
    for quoted in (True, False):
        pos = 0
        while True:
            flat = [(i, c) for i, c in enumerate(s) if c != "\n"]
            t = "".join(c for _, c in flat)
            hit = None
            for i in range(pos, len(t)):
                if t[i] != opening:
                    continue
                if quoted:
                    if t[i+1:i+2] != '"':
                        continue
                    j = t.find('"', i+2)
                    if j < 0 or t[j+1:j+2] != closing:
                        continue
                    name, end = t[i+2:j], j+1
                    if any(name.endswith(e) and len(name) > len(e) for e in endings):
                        hit = (i, end, name)
                        break
                else:
                    if i+1 >= len(t) or t[i+1] == '"':
                        continue
                    j = i+2
                    while j < len(t) and t[j] not in stops:
                        j += 1
                    if j < len(t) and t[j] == closing:
                        name = t[i+1:j]
                        if any(name.endswith(e) and len(name) > len(e) for e in endings):
                            hit = (i, j, name)
                            break
            if hit is None:
                break
            if not os.path.isfile(hit[2]):
                return None
            s = s[:flat[hit[0]][0]] + s[flat[hit[1]][0]+1:]
    return s


def run_def(s):
    want = ref_ending(s, "(", ")", (".fd", ".def"), " )")
    got = tm.load_def(s)
    want = s if want is None else want
    require(got == want, "load_def gives %r, expected %r", got, want)
    return got if s else None


def run_graphics(s):
    want = ref_ending(s, "<", ">", (".eps",), ">")
    got = tm.load_graphics(s)
    want = s if want is None else want
    require(got == want, "load_graphics gives %r, expected %r", got, want)
    return got if s else None


# ---- line oriented warnings
def ref_box(s):
    lines = s.split("\n")
    out, n, i = [], 0, 0
    while i < len(lines):
        if re.match(r"(Over|Under)full \\[hv]box", lines[i]):
            j = i+1
            while j < len(lines) and lines[j]:
                j += 1
            if j < len(lines)-1:
                n += 1
                i = j+1
                continue
        out.append(lines[i])
        i += 1
    return "\n".join(out), n


def ref_blocks(s, first, cont):
    """blocks of a first line and continuation lines; the lines are removed up to the last newline"""
    lines = s.split("\n")
    out, n, i = [], 0, 0
    while i < len(lines):
        k = first(lines[i])
        if k is not None:
            n += 1
            i += 1
            while i < len(lines) and cont(k, lines[i]):
                i += 1
            out.append("")
            continue
        out.append(lines[i])
        i += 1
    return "\n".join(out), n


def font_first(l):
    return "" if l.startswith("LaTeX Font Warning: ") else None


def pkg_first(l):
    w = l.split()
    if len(w) >= 3 and l[:7].lower() == "package" and w[0].lower() == "package" and w[2].lower().startswith("warning"):
        rest = l.lower().split("warning", 1)[1].lstrip()
        if rest.startswith(":") and len(rest) > 1:
            return w[1].lower()
    return None


def pkg_cont(k, l):
    l = l.lower()
    return l.startswith(k) or l.startswith("(" + k)


RERUN = "LaTeX Warning: Label(s) may have changed. Rerun to get cross-references right."


def ref_rerun(s):
    lines = s.split("\n")
    return "\n".join("" if l == RERUN else l for l in lines), sum(l == RERUN for l in lines)


PARSERS = {"box": (tm.box_warning, ref_box),
           "font": (tm.font_warning, lambda s: ref_blocks(s, font_first, lambda k, l: l.startswith("(Font)"))),
           "package": (tm.package_warning, lambda s: ref_blocks(s, pkg_first, pkg_cont)),
           "rerun": (tm.rerun_warning, ref_rerun)}

LINES = {"box": ["Overfull \\hbox (1pt)", "Underfull \\vbox x", "Overfull \\xbox", " Overfull \\hbox", "", "\\x []", "! error"],
         "font": ["LaTeX Font Warning: no shape", "(Font)   more", "(Font", " LaTeX Font Warning: x", "LaTeX Font Warning:", "", "! error"],
         "package": ["Package foo Warning: x", "PACKAGE foo warning : y", "(foo)   more", "foo more", "(bar) z", "Package foo Warning:", "Package bar Warning: q", "", "! error"],
         "rerun": [RERUN, " " + RERUN, RERUN + " x", "", "! error"]}


def run_warning(case):
    name, s = case
    h = Log()
    lg = logging.getLogger("pyx")
    lv = lg.level
    lg.setLevel(logging.WARNING)
    lg.addHandler(h)
    prop = lg.propagate
    lg.propagate = False
    try:
        got = PARSERS[name][0](s)
    finally:
        lg.removeHandler(h)
        lg.propagate = prop
        lg.setLevel(lv)
    want, n = PARSERS[name][1](s)
    require(got == want, "%s_warning gives %r, expected %r", name, got, want)
    require(len(h.msgs) == n, "%d warnings logged for %d removed messages", len(h.msgs), n)
    return (name, got) if s else None


def gen_warning(n):
    for name in sorted(LINES):
        for d in range(n+1):
            for t in itertools.product(LINES[name], repeat=d):
                yield (name, "\n".join(t))


# ---- fixed messages
FRAG = ["No file texput.aux.", "No file ./texput.aux.", "No file texput.nav.", "No file texput.", "aux.", "\n", "! e", "*", "No file x.bbl.", " "]


def run_fixed(s):
    for parser, names in ((tm.no_aux, ("No file texput.aux.", "No file ./texput.aux.")), (tm.no_nav, ("No file texput.nav.", "No file ./texput.nav."))):
        want = s
        for n in names:
            want = want.replace(n, "")
        require(parser(s) == want, "%s gives %r, expected %r", parser, parser(s), want)
    require(tm.ignore(s) == "", "ignore")
    require(tm.warn(s) == "", "warn")
    for p in ("No file", "\n", "! e", "aux"):
        i = s.find(p)
        got = text.remove_string(p, s)
        require(got == ((s[:i] + s[i+len(p):], True) if i >= 0 else (s, False)), "remove_string(%r) gives %r", p, got)
    # bibliography messages: leave the rest
    got = tm.nobbl_warning(s)
    require("No file x.bbl." not in got or any(not set(l.split("No file x.bbl.")[0]) <= set("* ") for l in s.split("\n") if "No file x.bbl." in l), "nobbl leaves %r", got)
    junk = lambda t: re.sub(r"[\s*]", "", t)
    if junk(got) != junk(s):
        lines = s.split("\n")
        k = [l for l in lines if re.match(r"[\s*]*No file .*\.bbl.", l)]
        require(k, "nobbl removed %r from %r", got, s)
        want = junk(s)
        for l in k:
            want = want.replace(junk(re.match(r"[\s*]*(No file .*\.bbl.)", l).group(1)), "", 1)
        require(junk(got) == want, "nobbl gives %r", got)
    return s or None


STARTS = ["This is TeX, V", "This is e-TeX", "This is pdfTeX x", "XTeX", "*! Undefined control sequence.\n<*> \\raiseerror\n               %\n",
          "*! Undefined control sequence.\n<*> \\raiseerror\n", "\n", "! other", "               %\n"]
PROBE = STARTS[4]


def run_start(s):
    banner = any(b in s for b in STARTS[:3])
    i = s.find(PROBE)
    try:
        got = tm.start(s)
    except text.TexResultError as e:
        require(not (banner and i >= 0), "start rejects a proper start: %s", e)
        return ("rejected", banner, i >= 0) if s else None
    require(banner and i >= 0, "start accepts %r", s)
    require(got == s[i+len(PROBE):], "start gives %r, expected %r", got, s[i+len(PROBE):])
    return got


ENDS = ["(./texput.aux)", '("/a b/texput.aux")', "(see the transcript file for additional information)", "Transcript written on texput.log.",
        "Transcript written on /tmp/x\ny/texp\nut.log.", 'Transcript written on "/a b/texput.log".', "Transcript written on x.log.", "\n", "! error", "(aux)", ")"]


def run_end(t):
    s = "".join(t)
    has = [x for x in t if x in ENDS[3:6]]
    try:
        got = tm.end(s)
    except text.TexResultError:
        require(not has, "end rejects %r", s)
        return ("rejected",)
    require(has, "end accepts a text without log file message")
    if len(has) == 1:
        # exactly the known messages disappear
        if len([x for x in t if x == ENDS[6]]) == 0 or t.index(ENDS[6]) > t.index(has[0]):
            want = "".join(x for x in t if x not in ENDS[:6])
            if ")" not in t and "(aux)" not in t:
                require(got == want, "end gives %r, expected %r", got, want)
    first = t.index(has[0])
    last = len(t) - 1 - list(reversed(t)).index(has[-1])
    if "Transcript written on x.log." not in t:
        require(got.count("! error") >= t[:first].count("! error") + t[last:].count("! error"), "end drops an error message: %r", got)
    return got


# ---- remove_pattern
PATS = [("ab", r"ab"), ("a.*b", r"a.*b"), ("a[^b]", r"a[^b]"), ("^a", r"^a"), ("b$", r"b$"), ("(a|b)b", r"(a|b)b")]


def run_pattern(s):
    sig = []
    for name, p in PATS:
        for ignore in (True, False):
            r = re.compile(p)
            got, m = text.remove_pattern(r, s, ignore)
            idx = [i for i, c in enumerate(s) if not ignore or c != "\n"]
            t = "".join(s[i] for i in idx)
            w = r.search(t)
            if w is None:
                require(m is None and got == s, "%s: changed a text without match", name)
            else:
                want = s[:idx[w.start()]] + s[idx[w.end()-1]+1:]
                require(got == want, "%s (ignore_nl=%s) gives %r, expected %r", name, ignore, got, want)
                require(m is not None and m.group(0) == w.group(0), "wrong match")
            sig.append(got)
    return tuple(sig) if s else None


# ---- chains within the engine
SAY = ["! Undefined control sequence.\n", "Overfull \\hbox (1pt) x\n[]\n\n", "LaTeX Font Warning: a\n(Font) b\n", "(a.fd)", "(nofile.fd)", "<g.eps>", "<h.eps>",
       "Package foo Warning: x\n(foo) y\n", "\n", "*", "junk\n", "(a)\n", "Overfull \\hbox unterminated\n", " "]


def run_chain(case):
    saying = "".join(case)
    from checks import p22
    out = {}

    def f(s):
        p22.scenario(("tex", "T", ((2, "say:" + saying),), "line", ()), s, out)
    sched.run(f)
    r = out["results"][0][1]
    # reference: the chain of the reference scanners
    left = "*\n" + saying + "*\n*\n\n*\n\n"
    left = PARSERS["font"][1](left)[0]
    left = ref_box(left)[0]
    left = PARSERS["package"][1](left)[0]
    x = ref_ending(left, "(", ")", (".fd", ".def"), " )")
    left = left if x is None else x
    x = ref_ending(left, "<", ">", (".eps",), ">")
    left = left if x is None else x
    bad = left.replace(" ", "").replace("*\n", "").replace("\n", "")
    if bad:
        require(r[0] == "error" and isinstance(r[1], text.TexResultError), "the message %r was dropped silently", saying)
    else:
        require(r[0] == "box", "the harmless message %r was reported: %s", saying, r[1])
    return (bad, r[0])


def spaces(tier):
    t = tier == "thorough"
    out = [Space("brackets", lambda: gen_strings('()"a\n ', 8 if t else 7), run_brackets, "all strings up to length %d over brackets, quote, letter, newline, blank" % (8 if t else 7), setup=setup),
           Space("nested", lambda: gen_strings('()"a', 10 if t else 9), run_brackets, "all strings up to length %d over brackets, quote, letter" % (10 if t else 9), setup=setup),
           Space("names", lambda: gen_broken(), run_brackets, "file load messages broken by up to two newlines at every position", setup=setup),
           Space("fd", lambda: gen_strings(["(", ")", '"', "a.fd", "c.def", "b", ".fd", "\n", " "], 6 if t else 5), run_def, "all sequences of up to %d fragments" % (6 if t else 5), setup=setup),
           Space("graphics", lambda: gen_strings(["<", ">", '"', "g.eps", "h.eps", "<g.eps>", "b", ".eps", "\n", '("ab")'], 6 if t else 5), run_graphics, "all sequences of up to %d fragments" % (6 if t else 5), setup=setup),
           Space("warnings", lambda: gen_warning(6 if t else 5), run_warning, "all texts of up to %d lines over the line kinds of each parser" % (6 if t else 5), setup=setup),
           Space("fixed", lambda: gen_strings(FRAG, 5 if t else 4), run_fixed, "all sequences of up to %d fragments" % (5 if t else 4), setup=setup),
           Space("start", lambda: gen_strings(STARTS, 5), run_start, "all sequences of up to five start-up fragments", setup=setup),
           Space("end", lambda: (c for d in range(6 if t else 5) for c in itertools.product(ENDS, repeat=d)), run_end, "all sequences of up to %d end fragments" % (5 if t else 4), setup=setup),
           Space("pattern", lambda: gen_strings("ab\nc", 9 if t else 8), run_pattern, "all strings up to length %d, six patterns, newlines ignored or not" % (9 if t else 8), setup=setup),
           Space("chain", lambda: (c for d in range(4 if t else 3) for c in itertools.product(SAY, repeat=d)), run_chain, "all sequences of up to %d messages in the answer to a text, through the engine" % (3 if t else 2), setup=setup)]
    return out
