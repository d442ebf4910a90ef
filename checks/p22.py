"""P22: the TeX dialogue gives each text its own result or an error."""
import atexit, itertools, logging, os, shutil, sys, tempfile
from mc import core, sched, faketex
from mc.core import Space, require, Violation
from pyx import text, config, unit, canvas, trafo

PROPERTY = "P22"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real engine under a controlled scheduler: all thread schedules up to a preemption bound, times all faults of a TeX stand-in at all exchange positions, times all request histories up to a depth"
LEVEL_NOTE = "The real SingleEngine, MultiEngine, MonitorOutput and DVI reader run; only the TeX process is replaced, and threads, queues, events, locks and time are under scheduler control. Start-up of the interpreter is explored for faults and schedules alike. The stand-in produces the messages recorded from a real TeX; a real TeX is run for a few histories as a conformance check of the stand-in."
RULE = "A case is a request history with an engine kind, faults at exchange positions, and an output chunking; each runs under all schedules within the preemption bound. Non-trivial if a request reached the process; outcomes are the results of all requests."
ASSUMPTIONS = ["atomicity between scheduling points (queue, event, lock, thread and pipe operations) as the interpreter lock gives it",
               "time passes only when every thread waits; slow answers are modelled by release times"]

WAIT, SHOW = 60, 5
BAD = {"nobanner", "err", "hang", "hangstubborn", "hangmid", "exit", "exitmid", "badid", "nobox", "badpage", "noship", "badnum", "slow90"}
BENIGN = {"warnbox", "crlf", "slow12", "hangafter", "exitafter", "late"}
FAULTS = sorted(BAD | BENIGN)
PAGEONLY = {"nobox", "badpage", "noship", "badnum", "warnbox"}


def dims(k):
    return (10.0 + 3*k, 4.0 + k, 0.5*k)


class Quiet:
    def write(self, *a): pass
    def flush(self): pass


def make(kind, world):
    kw = {}
    if kind.endswith("ipc"):
        kw["texipc"] = True
        kind = kind[:-3]
    if kind == "tex":
        return text.TexEngine(lfs=None, **kw)
    if kind == "latex":
        return text.LatexEngine(pyxgraphics=False, **kw)
    if kind == "single":
        return text.SingleTexEngine(lfs=None, **kw)
    raise ValueError(kind)


def scenario(case, s, out):
    """one run under scheduler s; fills out with observations"""
    kind, ops, faults, chunking, startfail = case
    world = faketex.World(faults, chunking, startfail)
    tmp = tempfile.mkdtemp(prefix="p22-")
    saved = config.Popen
    config.Popen = world.popen
    had = config.config.has_section("text")
    if not had:
        config.config.add_section("text")
    config.config.set("text", "tmpdir", tmp)
    config.config.set("text", "wait", str(WAIT))
    config.config.set("text", "showwait", str(SHOW))
    err = sys.stderr
    sys.stderr = Quiet()
    clean = False
    try:
        engines = [make(kind, world)]
        e = engines[0]
        boxes = []
        results = []
        for k, op in enumerate(ops):
            t0 = s.now
            first = world.exchange
            try:
                if op in ("T", "H", "U"):
                    w, h, d = dims(k)
                    expr = "BOX(%g,%g,%g)" % (w, h, d)
                    if op == "U":
                        expr = "\u20ac" + expr
                    b = e.text_pt(0, 0, expr, [text.halign.center] if op == "H" else [])
                    boxes.append((k, op, b))
                    r = ("box", b)
                elif op == "P":
                    r = ("ok", e.preamble("\\def\\x%s{}" % "abcdefgh"[k]))
                elif op == "A":
                    r = ("none", None)
                    for kk, oo, b in boxes[-1:]:
                        r = ("content", check_content(kk, oo, b))
                elif op == "R":
                    r = ("ok", e.reset())
                elif op == "F":
                    inst = getattr(e, "instance", e)
                    r = ("ok", inst.do_finish() if inst.state > 0 else None)
            except (sched.Abort, Violation):
                raise
            except Exception as x:
                r = ("error", x)
            results.append((op, r, s.now - t0, [f for n, f in world.fired if n >= first], first, world.exchange))
        # use of every box after all
        final = []
        for k, op, b in boxes:
            t0 = s.now
            try:
                final.append(("content", check_content(k, op, b), s.now - t0))
            except (sched.Abort, Violation):
                raise
            except Exception as x:
                final.append(("error", x, s.now - t0))
        t0 = s.now
        closing = None
        hook = sys.unraisablehook
        raised = []
        sys.unraisablehook = lambda a: raised.append(a.exc_value)
        try:
            atexit._run_exitfuncs()
        except (sched.Abort, Violation):
            raise
        except Exception as x:
            raised.append(x)
        finally:
            sys.unraisablehook = hook
        if any(isinstance(x, sched.Abort) for x in raised):
            raise sched.Abort
        closing = " / ".join("%s: %s" % (type(x).__name__, x) for x in raised) or None
        out["closetime"] = s.now - t0
        s.point(lambda: all(t.done for t in s.tasks if t is not s.tasks[0]), 10)
        out.update(results=results, final=final, closing=closing, world=world,
                   waiting=[t.name for t in s.tasks[1:] if not t.done],
                   left=os.listdir(tmp), running=[p for p in world.procs if not p.exited], boxes=boxes)
    finally:
        sys.stderr = err
        config.Popen = saved
        if had:
            for o in ("tmpdir", "wait", "showwait"):
                config.config.remove_option("text", o)
        else:
            config.config.remove_section("text")
        try:
            atexit._clear()
        except Exception:
            pass
        shutil.rmtree(tmp, ignore_errors=True)


CONV = 72/72.27


def check_content(k, op, b):
    w, h, d = dims(k)
    left = w/2 if op == "H" else 0
    bb = b.dvicanvas.bbox()
    got = (bb.left_pt(), bb.bottom_pt(), bb.right_pt(), bb.top_pt())
    want = (-left*CONV, -d*CONV, (w-left)*CONV, h*CONV)
    require(all(abs(x-y) < 0.01 for x, y in zip(got, want)), "request %d got the contents %r, expected %r", k, got, want)
    return True


def judge(case, s, out):
    kind, ops, faults, chunking, startfail = case
    require(s.deadlock is None, "deadlock: %s", s.deadlock)
    world = out["world"]
    latched = any(f.startswith("hang") or f.startswith("exit") or f in ("slow90",) for n, f in world.fired)
    broken = False       # a fault happened in the current instance
    anylate = False
    reported = False
    sig = []
    for k, (op, r, t, fired, first, last) in enumerate(out["results"]):
        execs = max(1, last - first)
        require(t <= (execs + 5)*WAIT + 1, "request %d took %g s", k, t)
        if r[0] == "error":
            x = r[1]
            # a preamble after a text is a misuse
            require(str(x) or op == "P" and any(o in "THUAF" for o, *_ in out["results"][:k]), "request %d: %s without a message", k, type(x).__name__)
            require(not isinstance(x, (AttributeError, TypeError, NameError)) or op == "A", "request %d: %s: %s", k, type(x).__name__, x)
            if isinstance(x, text.TexResultError):
                reported = True
        if op in ("T", "H", "U"):
            if r[0] == "box":
                require(op != "U", "text which cannot be encoded was accepted")
                require(not any(f in BAD for f in fired), "request %d returned a box although TeX failed with %r", k, fired)
                w, h, d = dims(k)
                b = r[1]
                left = w/2 if op == "H" else 0
                got = [unit.topt(x) for x in (b.left, b.right, b.height, b.depth)]
                want = [x*CONV for x in (left, w-left, h, d)]
                require(all(abs(x-y) < 1e-3 for x, y in zip(got, want)), "request %d got the extents %r, expected %r", k, got, want)
            elif op != "U" and not startfail:
                # a fault was necessary
                require(broken or any(f in BAD or f in ("late", "exitafter", "hangafter") for f in fired) or done_before(kind, out["results"], k) or preamble_failed(out["results"], k),
                        "request %d failed without reason: %s", k, r[1])
        elif op == "P":
            if r[0] == "ok":
                require(not any(f in BAD for f in fired), "preamble %d reported success although TeX failed with %r", k, fired)
        if any(f in BAD or f in BENIGN and f not in ("warnbox", "crlf", "slow12") for f in fired):
            # after a reported error message the interpreter goes on
            if not all(f in ("err",) for f in fired):
                broken = True
            elif first == 0 or k and all(o == "P" or q[0] == "error" for o, q, _, _, _, _ in out["results"][:k+1]):
                broken = True
        if r[0] == "error" and op in ("A", "F"):
            broken = True
        if op == "R" and not startfail:
            broken = False
        anylate = anylate or "late" in fired
        sig.append((op, r[0], type(r[1]).__name__ if r[0] == "error" else "", tuple(fired)))
    for i, (k, op, b) in enumerate(out["boxes"]):
        f = out["final"][i]
        require(f[2] <= 8*WAIT, "using box %d took %g s", k, f[2])
        if f[0] == "error":
            require(str(f[1]), "using box %d: %s without a message", k, type(f[1]).__name__)
            require(world.fired, "box %d unusable without reason: %s", k, f[1])
            if isinstance(f[1], text.TexResultError):
                reported = True
        elif f[0] == "content":
            pass
        sig.append((f[0],))
    # faults which only concern one request leave the other boxes usable
    if out["boxes"] and world.fired and all(f in ("err", "warnbox", "crlf", "slow12") for n, f in world.fired) and not startfail:
        ends = world.ends
        if not any(n in ends for n, f in world.fired if f == "err"):
            for (k, op, b), f in zip(out["boxes"], out["final"]):
                require(f[0] == "content", "box %d cannot be used: %r", k, f[1])
    if out["closing"] is not None and "TexResultError" in out["closing"]:
        reported = True
    if anylate:
        require(reported or latched or len(world.fired) > 1,
                "an error message arriving late was dropped silently")
    require(out["closetime"] <= 7*WAIT*max(1, len(world.procs)), "closing took %g s", out["closetime"])
    require(not out["running"], "%d TeX process(es) still running after closing", len(out["running"]))
    require(not out["left"], "temporary files left: %r", out["left"])
    require(not out["waiting"], "threads still waiting: %r", out["waiting"])
    return tuple(sig)


def done_before(kind, results, k):
    # a single engine cannot be used after it was finished
    return kind.startswith("single") and any(o in ("A", "F") for o, *_ in results[:k])


def preamble_failed(results, k):
    # failing preambles are repeated (and fail again) at a restart; preambles after a text are forbidden
    return any(o == "P" and r[0] == "error" for o, r, *_ in results[:k])


def run_case(case):
    case = tuple(case)
    case, bound = case[:5], case[5]
    sigs = set()

    def visit(s):
        sig = judge(case, s, visit.out)
        sigs.add(sig)
        core.TRACE.step((case, sig))

    def f(s):
        visit.out = {}
        scenario(case, s, visit.out)

    runs, complete = sched.explore(f, bound, visit, 30000)
    require(complete, "more than %d schedules", runs)
    core.TRACE.transitions += runs
    return (case, tuple(sorted(sigs)))


def dry(kind, ops):
    out = {}
    sched.run(lambda s: scenario((kind, ops, (), "whole", ()), s, out))
    return out["world"].exchange


def faultsat(pos):
    for f in FAULTS:
        if f == "nobanner" and pos:
            continue
        yield f


def histories(alphabet, n):
    for d in range(1, n + 1):
        for ops in itertools.product(alphabet, repeat=d):
            yield "".join(ops)


def gen_single(kinds, alphabet, n, chunkings, bound, minlen=1):
    def g():
        for kind in kinds:
            for ops in histories(alphabet, n):
                if len(ops) < minlen or kind.startswith("single") and "R" in ops:
                    continue
                total = dry(kind, ops)
                for chunking in chunkings:
                    yield (kind, ops, (), chunking, (), bound)
                    for pos in range(total):
                        for f in faultsat(pos):
                            yield (kind, ops, ((pos, f),), chunking, (), bound)
    return g


def gen_double(kinds, opslist, bound):
    def g():
        for kind in kinds:
            for ops in opslist:
                total = dry(kind, ops)
                for p1, p2 in itertools.combinations(range(total), 2):
                    for f1 in faultsat(p1):
                        for f2 in FAULTS:
                            if f2 != "nobanner":
                                yield (kind, ops, ((p1, f1), (p2, f2)), "line", (), bound)
    return g


def gen_start():
    for kind in ("tex", "latex", "single", "texipc"):
        for ops in histories("TPAR" if kind != "single" else "TPA", 4):
            for sf in ((1,), (2,), (1, 2), (1, 3)):
                yield (kind, ops, (), "whole", sf, 0)


# conformance of the stand-in: the input of a history is given to a real TeX too
def lines(out):
    res = []
    import re
    out = out.replace("\r", "")
    i = out.find("Output written on")
    if i >= 0:       # TeX breaks long lines
        out = out[:i] + out[i:].replace("\n", "").replace("Transcript", "\nTranscript")
    for l in out.replace("*", "").split("\n"):
        l = l.strip()
        if not l or l.startswith("This is") or l.startswith("(see the transcript"):
            continue
        l = re.sub(r"on .*texput", "on texput", l)
        l = re.sub(r"\d+ ?bytes", "N bytes", l)
        l = re.sub(r"-?\d+\.\d+", lambda m: "%.3f" % float(m.group(0)), l)
        res.append(l)
    return res


def run_conformance(case):
    import io, subprocess
    ops, = case
    tmp = tempfile.mkdtemp(prefix="p22c-")
    saved = config.Popen
    copy = io.StringIO()
    copy.close = lambda: None
    emitted = []

    def f(s):
        world = faketex.World({})
        config.Popen = world.popen
        config.config.has_section("text") or config.config.add_section("text")
        config.config.set("text", "tmpdir", tmp)
        try:
            e = text.SingleTexEngine(lfs=None, copyinput=copy)
            e.preamble("\\def\\BOX(#1,#2,#3){\\vrule width#1pt height#2pt depth#3pt}")
            for k, op in enumerate(ops):
                w, h, d = dims(k)
                if op == "P":
                    e.preamble("\\def\\x%s{}" % "abcdefgh"[k])
                else:
                    e.text_pt(0, 0, "\\BOX(%g,%g,%g)" % (w, h, d), [text.halign.center] if op == "H" else [])
            e.do_finish()
            emitted.extend(p.said for p in world.procs)
        finally:
            config.Popen = saved
            config.config.remove_option("text", "tmpdir")
    try:
        sched.run(f)
        d = os.path.join(tmp, "real")
        os.mkdir(d)
        p = subprocess.run(["tex", "--output-directory", d], input=copy.getvalue().encode("ascii"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100, cwd=d)
        real, fake = lines(p.stdout.decode("latin1")), lines(emitted[0])
        require(real == fake, "the stand-in says %r, TeX says %r", fake, real)
        return (ops, tuple(fake))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_conformance():
    for n in range(0, 4):
        for ops in itertools.product("PTH", repeat=n):
            ops = "".join(ops)
            if "P" not in ops.lstrip("P"):
                yield (ops,)


def spaces(tier):
    t = tier == "thorough"
    out = [Space("histories", gen_single(["tex", "single"], "THUPARF" if t else "TPARF", 4 if t else 3, ["line"], 0), run_case, "all histories of up to %d requests, every fault of %d kinds at every exchange, one schedule" % (4 if t else 3, len(FAULTS))),
           Space("engines", gen_single(["latex", "texipc", "latexipc"], "THAR" if t else "TA", 4 if t else 3, ["line"], 0), run_case, "the same for LaTeX and for the page-wise mode"),
           Space("chunks", gen_single(["tex"], "TP", 2, ["whole", "split"], 1), run_case, "output arriving at once or in half lines, schedules with one preemption"),
           Space("schedules", gen_single(["tex"], "T" if not t else "TPA", 2, ["line"], 2), run_case, "all schedules with up to two preemptions"),
           Space("start", gen_start, run_case, "interpreters which cannot be started, all histories of up to four requests"),
           Space("double", gen_double(["tex", "latex"] if t else ["tex"], ["T", "TT", "TAT", "TRT"] if t else ["TT"], 0), run_case, "all pairs of faults at all pairs of exchanges")]
    if shutil.which("tex"):
        out.append(Space("conformance", gen_conformance, run_conformance, "the messages of the stand-in equal those of a real TeX given the same input, all histories of up to three requests"))
    if t:
        out.append(Space("schedules3", gen_single(["tex"], "T", 1, ["line", "split"], 3), run_case, "all schedules with up to three preemptions"))
    return out
