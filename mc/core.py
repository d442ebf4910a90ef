"""Bounded-exhaustive explorer: enumerates every case of declared finite spaces on
the real PyX code, compares each with an independent reference, and reports.

A check module defines PROPERTY, LEVEL, RULE and spaces(tier) -> [Space...].
"""
import os, sys, json, time, signal, hashlib, traceback, importlib, itertools, pickle, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYX_REPO", "/repo")


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, eps=1e-6):
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b))


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Space:
    """gen() yields cases (JSON-able); run(case) returns an outcome signature
    (any repr-able value; None = trivial) or raises Violation."""

    def __init__(self, name, gen, run, bounds="", exhaustive=True, cpu=120, serial=False, setup=None):
        self.name = name
        self.gen = gen
        self.run = run
        self.bounds = bounds
        self.exhaustive = exhaustive
        self.cpu = cpu
        self.serial = serial
        self.setup = setup


class Result:
    def __init__(self):
        self.evaluations = 0
        self.trivial = 0
        self.outcomes = set()
        self.violations = []   # (index, case, message)
        self.nviol = 0
        self.known = {}
        self.samples = []
        self.states = set()
        self.transitions = 0
        self.traces = 0


class Trace:
    """What a stateful run reports besides its outcome: model states visited and
    transitions taken."""
    def __init__(self):
        self.states = set()
        self.transitions = 0

    def visit(self, state):
        self.states.add(digest(state))

    def step(self, state):
        self.transitions += 1
        self.states.add(digest(state))


TRACE = Trace()


def _alarm(signum, frame):
    raise CaseTimeout()


def case_key(case):
    return json.dumps(case, sort_keys=True, default=repr)


MAXVIOL = 5


def run_cases(space, stride, offset, known, limit_violations=MAXVIOL):
    global TRACE
    res = Result()
    if space.setup:
        space.setup()
    signal.signal(signal.SIGVTALRM, _alarm)
    for index, case in enumerate(space.gen()):
        if index % stride != offset:
            continue
        TRACE.states = res.states
        TRACE.transitions = 0
        res.evaluations += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, space.cpu)
        msg = None
        try:
            sig = space.run(case)
        except Violation as e:
            msg = str(e) or "violation"
        except CaseTimeout:
            msg = "no result within %d s of CPU time" % space.cpu
        except (KeyboardInterrupt, SystemExit):
            raise
        except MemoryError:
            msg = "out of memory"
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb][-4:]
            msg = "unexpected %s: %s [%s]" % (type(e).__name__, e, " > ".join(where))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        res.transitions += TRACE.transitions
        res.traces += 1
        if msg is not None:
            k = (space.name, case_key(case))
            if k in known:
                res.known[k] = msg
                continue
            res.nviol += 1
            if len(res.violations) < limit_violations:
                res.violations.append((index, case, msg))
            if res.nviol >= 200:
                break
        elif sig is None:
            res.trivial += 1
        else:
            res.outcomes.add(digest(sig))
            if len(res.samples) < 2:
                res.samples.append((index, case, repr(sig)[:200]))
    return res


def run_space(space, known, procs):
    if space.serial:
        procs = 1
    if procs == 1:
        return [run_cases(space, 1, 0, known)]
    tmp = tempfile.mkdtemp(prefix="mc-")
    pids = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(procs):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                r = run_cases(space, procs, w, known)
                with open(os.path.join(tmp, str(w)), "wb") as f:
                    pickle.dump(r, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    out = []
    failed = []
    for w, pid in enumerate(pids):
        _, status = os.waitpid(pid, 0)
        fn = os.path.join(tmp, str(w))
        if status == 0 and os.path.exists(fn):
            with open(fn, "rb") as f:
                out.append(pickle.load(f))
        else:
            failed.append((w, status))
        if os.path.exists(fn):
            os.unlink(fn)
    os.rmdir(tmp)
    if failed:
        r = Result()
        r.nviol = 1
        r.violations.append((0, None, "exploration worker(s) died: %r" % failed))
        out.append(r)
    return out


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(fn):
        with open(fn) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop:
                    out[(e["space"], case_key(e["case"]))] = e["what"]
    return out


def main(modname, argv):
    mod = importlib.import_module("checks." + modname)
    import logging
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(prop)
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        for s in mod.spaces(rep.get("tier", "quick")):
            if s.name == rep["space"]:
                class One(Space): pass
                case = rep["case"]
                s1 = Space(s.name, lambda: iter([tuplify(case)]), s.run, cpu=s.cpu, setup=s.setup)
                r = run_cases(s1, 1, 0, {})
                for _, c, m in r.violations:
                    print("REPRODUCED", json.dumps(c, default=repr), m)
                if not r.violations:
                    print("held: ", r.samples)
                return 1 if r.violations else 0
        print("no such space")
        return 1
    only = argv[argv.index("--space") + 1] if "--space" in argv else None
    procs = int(os.environ.get("MC_PROCS", "0")) or (os.cpu_count() or 1)
    t0 = time.time()
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    total = Result()
    perspace = []
    exhaustive = True
    nviol = 0
    allknown = {}
    vlines = []
    for s in mod.spaces(tier):
        if only and s.name != only:
            continue
        ts = time.time()
        parts = run_space(s, known, procs)
        ev = sum(p.evaluations for p in parts)
        outc = set().union(*[p.outcomes for p in parts])
        states = set().union(*[p.states for p in parts])
        viol = sorted(itertools.chain(*[p.violations for p in parts]), key=lambda v: v[0])
        nv = sum(p.nviol for p in parts)
        for p in parts:
            allknown.update(p.known)
        nviol += nv
        trivial = sum(p.trivial for p in parts)
        trans = sum(p.transitions for p in parts)
        samples = sorted(itertools.chain(*[p.samples for p in parts]), key=lambda v: v[0])[:2]
        exhaustive = exhaustive and s.exhaustive and nv == 0
        if ev == 0:
            nviol += 1
            viol = [(0, None, "space enumerated no case")]
        perspace.append(dict(space=s.name, bounds=s.bounds, cases=ev, trivial=trivial,
                             distinct_outcomes=len(outc), model_states=len(states),
                             model_transitions=trans, violations=nv,
                             wall_s=round(time.time() - ts, 2),
                             samples=[dict(case=c, outcome=o) for _, c, o in samples]))
        total.evaluations += ev
        total.trivial += trivial
        total.outcomes |= {s.name.encode() + o for o in outc}
        total.states |= {s.name.encode() + o for o in states}
        total.transitions += trans
        sys.stdout.flush()
        print("%s %-28s cases=%d distinct=%d trivial=%d states=%d trans=%d viol=%d %.1fs" %
              (prop, s.name, ev, len(outc), trivial, len(states), trans, nv, time.time() - ts))
        for i, (index, case, msg) in enumerate(viol[:MAXVIOL]):
            fn = os.path.join(edir, "replay", "%s-%s-%d.json" % (prop, s.name, i))
            with open(fn, "w") as f:
                json.dump(dict(property=prop, tier=tier, space=s.name, index=index, case=case, message=msg),
                          f, default=repr, indent=1)
            vlines.append("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  case %s: %s" % (json.dumps(case, default=repr)[:600], msg[:1500]))
    for k, what in sorted(known.items()):
        if only is None or only == k[0]:
            if k in allknown:
                print("KNOWN-FINDING: property=%s %s (space %s, case %s)" % (prop, what, k[0], k[1]))
    level = mod.LEVEL
    samples = []
    for p in perspace:
        samples.extend([dict(space=p["space"], **smp) for smp in p["samples"][:1]])
    cov = dict(rule=mod.RULE, samples=json.loads(json.dumps(samples, default=repr)),
               spaces=json.loads(json.dumps(perspace, default=repr)), exhaustive=exhaustive)
    if level == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.evaluations,
                   distinct_outcomes=len(total.outcomes))
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.outcomes))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    tmp = os.path.join(edir, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, prop + ".json"))
    if nviol:
        for l in vlines or ["VIOLATION property=%s replay=none" % prop]:
            print(l)
        return 1
    print("%s held on %d cases (%d distinct outcomes) in %.1f s" %
          (prop, total.evaluations, len(total.outcomes), time.time() - t0))
    return 0


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x
