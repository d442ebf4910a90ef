"""P30: file lookup finds the first match in the configured order, once."""
import io, itertools, json, os, shutil, stat, subprocess, sys, tempfile
from mc import core
from mc.core import Space, require, TRACE, Violation
from pyx import config

PROPERTY = "P30"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of locator orders, directory contents, index files, helper program answers and lookup histories, run on the real lookup code in scratch directories with stand-ins for the helper programs; the content found is compared with an ordered list of candidates"
LEVEL_NOTE = "Every file's content names its location, such that each lookup shows which candidate was opened; the environment is enumerated, not sampled."
RULE = "A case is a configuration (locators, files, helper answers) with a request or a history of requests and changes; states are the configurations."
ASSUMPTIONS = ["Files of the same name in several subdirectories of one directory of the recursivedir locator have no documented order.",
               "The PyX data tree itself is not changed; the internal locator is checked for names it contains and names it does not contain."]

F = {"type1": config.format.type1, "afm": config.format.afm, "pro": config.format.tex_ps_header, "map": config.format.fontmap, "dvips": config.format.dvips_config, "pyx": config.format.pyx, "tfm": config.format.tfm, "pict": config.format.pict}
EXT = {"type1": [".pfa", ".pfb"], "afm": [".afm"], "pro": ["", ".pro"], "map": [".map"], "dvips": [], "pyx": [], "tfm": [".tfm"], "pict": [".eps", ".epsi"]}
KPSE = {"type1": "type1 fonts", "afm": "afm", "pro": "PostScript header", "map": "map", "dvips": "dvips config", "pyx": "PyX", "tfm": "tfm", "pict": "graphic/figure"}


def candidates(name, formats):
    """file names to be tried"""
    if any(e and name.endswith(e) for f in formats for e in EXT[f]):
        return [name]
    out = []
    for f in formats:
        out += [name+e for e in EXT[f]] or [name]
    return out


class Scratch:

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p30")
        self.old = os.getcwd()
        self.saved = (config.methods, dict(config.opener_cache), {o: config.config.get("filelocator", o, fallback=None) for o in ("recursivedir", "ls-R", "kpsewhich", "locate")})
        os.mkdir(self.dir+"/cwd")
        os.chdir(self.dir+"/cwd")
        return self

    def __exit__(self, *args):
        os.chdir(self.old)
        config.methods = self.saved[0]
        config.opener_cache.clear()
        config.opener_cache.update(self.saved[1])
        for o, v in self.saved[2].items():
            if v is None:
                config.config.remove_option("filelocator", o)
            else:
                config.config.set("filelocator", o, v)
        for root, dirs, files in os.walk(self.dir):
            os.chmod(root, 0o755)
        shutil.rmtree(self.dir)

    def write(self, name, content=None, mode=None):
        full = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(name.encode("utf-8") if content is None else content)
        if mode:
            os.chmod(full, mode)
        return full

    def helper(self, name, answers, rc=0):
        """script giving the answers {last argument (with format): [lines]}"""
        s = "#!/bin/sh\ncase \"$*\" in\n"
        for k, lines in answers.items():
            s += "'%s')\n%s:\n;;\n" % (k, "".join("printf '%%s\\n' '%s'\n" % l for l in lines))
        s += "esac\nexit %d\n" % rc
        return self.write("bin/"+name, s.encode("utf-8"), 0o755)

    def configure(self, methods, **options):
        for o, v in options.items():
            config.config.set("filelocator", o.replace("lsr", "ls-R"), v)
        config.opener_cache.clear()
        config.methods = [config.locator_classes[m]() for m in methods]


def lookup(name, formats, ascii=False):
    try:
        f = config.open(name, [F[x] for x in formats], ascii)
    except OSError as e:
        require(os.path.splitext(os.path.basename(name))[0] in str(e), "the error %r does not name the file", str(e))
        require("Could not locate" in str(e), "error %r", str(e))
        return None
    require(f is not None, "lookup returned None")
    with f:
        d = f.read()
    require(isinstance(d, str) == bool(ascii), "type of the content")
    return d.encode("ascii", "surrogateescape").decode("utf-8") if ascii else d.decode("utf-8")


# states of a locator: the files it provides for the name (by extension number), "stale" ones being listed without existing
LOCS = ("local", "recursivedir", "ls-R", "kpsewhich", "locate", "pykpathsea")
STATES = {"local": ["", "0", "1", "01"],
          "recursivedir": ["", "A0", "A1", "A0A1", "A1B0", "B0", "S0", "S1A0", "B1S0", "none"],
          "ls-R": ["", "A0", "A1", "A1B0", "B1", "xA0", "xA0B0", "dA0", "none", "xA0A1"],
          "kpsewhich": ["", "0", "1", "x", "missing", "fail", "dir"],
          "locate": ["", "0", "1", "x", "missing", "other", "dir"],
          "pykpathsea": [""]}


def prepare(sc, states, name, formats):
    """set up all files; returns the expected candidates of each locator"""
    exts = candidates(name, formats)
    out = {}
    n = lambda i: exts[min(int(i), len(exts)-1)]
    opts = {}
    for loc, st in states:
        if loc == "local":
            for i in st:
                sc.write("cwd/"+n(i))
            out[loc] = ["cwd/"+n(i) for i in sorted(st)]
        elif loc == "recursivedir":
            dirs = [sc.dir+"/rA", sc.dir+"/rB"]
            for d in dirs:
                os.mkdir(d)
            sc.write("rA/zzz"); sc.write("rA/other/"+n(0)+"x"); sc.write("rB/aaa")
            pairs = [st[k:k+2] for k in range(0, len(st), 2)] if st != "none" else []
            files = []
            for d, i in pairs:
                p = {"A": "rA/", "B": "rB/", "S": "rA/sub/"}[d]+n(i)
                sc.write(p)
                files.append(({"A": 0, "S": 1, "B": 2}[d], int(i), p))
            out[loc] = [p for _, _, p in sorted(files)][:1]
            if st == "none":
                dirs = [sc.dir+"/missing"]+dirs
                sc.write("rB/"+n(0))
                out[loc] = ["rB/"+n(0)]
            opts["recursivedir"] = " ".join(dirs)
        elif loc == "ls-R":
            lists = {"A": {}, "B": {}}
            files = []
            s = st if st != "none" else "B0"
            k = 0
            while k < len(s):
                kind = "f"
                if s[k] in "xd":
                    kind = s[k]
                    k += 1
                d, i = s[k:k+2]
                k += 2
                sub = "sub" if i == "1" else ""
                lists[d].setdefault(sub, []).append(n(i))
                p = "l%s/%s%s" % (d, sub and sub+"/", n(i))
                if kind == "d":
                    # a directory of this name, the file is within
                    lists[d].setdefault((sub and sub+"/")+n(i), []).append(n(i))
                    sc.write(p+"/"+n(i))
                    p = p+"/"+n(i)
                elif kind == "f":
                    sc.write(p)
                files.append((int(i), d, p, kind == "x"))
            indices = []
            for d in "AB":
                t = "% ls-R -- filename database\n% second comment\n./:\nls-R\nREADME\n" + ("sub\n" if "sub" in lists[d] else "")
                t += "".join(f+"\n" for f in lists[d].get("", []))
                for sub in sorted(lists[d]):
                    if sub:
                        t += "\n./%s:\n" % sub + "".join(f+"\n" for f in lists[d][sub])
                indices.append(sc.write("l%s/ls-R" % d, t.encode()))
            if st == "none":
                os.remove(indices[0])
            opts["lsr"] = " ".join(indices)
            if len(exts) == 1:
                # one name only: the order of the indices
                files = sorted(set((0, d, p, x) for i, d, p, x in files))
            out[loc] = [p for i, d, p, x in sorted(files) if not x]
        elif loc in ("kpsewhich", "locate"):
            out[loc] = []
            path = None
            i = int(st) if st in ("0", "1") else 0
            p = ("k/" if loc == "kpsewhich" else "o/deep/")+n(i)
            if st in ("0", "1", "fail"):
                sc.write(p)
                if st != "fail" or loc == "kpsewhich":
                    out[loc] = [p]
            if st == "dir":
                os.makedirs(sc.dir+"/"+p)
            full = sc.dir+"/"+p
            if loc == "kpsewhich":
                f = next((f for f in formats if i < len(candidates(name, [f]))), formats[0])
                ans = {} if st == "" else {"--format %s %s" % (KPSE[f], name): [full]}
                exe = sc.helper("kpsewhich", ans, 1 if st in ("", "fail") else 0)
            else:
                ans = {} if st == "" else {n(i): ["/usr/share/doc/x"+n(i)+".gz", full[:-1], full, "/nonexisting/later/"+n(i)]}
                if st == "other":
                    ans = {n(i): ["/nonexisting/"+n(i)+".bak", "/nonexisting/my"+n(i)]}
                exe = sc.helper("locate", ans, 0 if st else 1)
            opts[loc] = exe if st != "missing" else sc.dir+"/bin/not-there"
        else:
            out[loc] = []
    return out, opts


REQ = [("foo", ("type1",)), ("foo.pfb", ("type1",)), ("foo", ("afm",)), ("foo", ("pro",)), ("foo.enc", ("pro",)), ("foo", ("map", "dvips")), ("foo", ("tfm", "type1"))]


def space_first(tier):
    """locators in all orders, all states"""
    top = 2 if tier == "quick" else 3
    locs = LOCS[:5]

    def gen():
        for r in range(len(REQ)):
            for loc in locs:
                for st in STATES[loc]:
                    yield (((loc, st),), r)
            for ls in itertools.permutations(locs, 2):
                for st in itertools.product(*[STATES[l] for l in ls]):
                    if tier == "thorough" or r in (0, 5) or r < 4 and sum(map(len, st)) % 2 == r % 2:
                        yield (tuple(zip(ls, st)), r)
        # a third locator behind or in front, being hit or not
        for ls in itertools.permutations(locs, 3):
            for st in itertools.product(*[STATES[l][:2]+STATES[l][-3:] if top == 3 else [STATES[l][0], STATES[l][-1], STATES[l][1]] for l in ls]):
                yield (tuple(zip(ls, st)), 0)

    def run(case):
        states, r = case
        name, formats = REQ[r]
        with Scratch() as sc:
            cand, opts = prepare(sc, states, name, formats)
            TRACE.visit((tuple(states), r))
            want = next((c for loc, st in states for c in cand[loc]), None)
            order = [loc for loc, st in states]
            sc.configure(order+["internal", "pykpathsea"], **opts)
            got = lookup(name, formats)
            require(got == want, "found %r instead of %r", got, want)
            # again, and fresh locators
            for again in range(2):
                require(lookup(name, formats, again) == want, "a repeated lookup found something else than %r", want)
            sc.configure(order+["internal", "pykpathsea"], **opts)
            require(lookup(name, formats, True) == want, "a fresh lookup found something else than %r", want)
        return (want, tuple(states) if want is None else states[0])
    return Space("first", gen, run, dict(locators=len(locs), orders="all of up to three", requests=len(REQ)), cpu=60)


def space_histories(tier):
    """lookups of several names in all orders give the same as fresh ones"""
    reqs = [("x", ("type1",)), ("y", ("type1",)), ("x", ("afm",)), ("x.pfb", ("type1",)), ("y", ("tfm", "type1")), ("z", ("afm",)), ("x", ("afm", "type1"))]
    layouts = [  # files below rA, rA/s, rB, lA, lA/s, lB
        {"rA": ["x.pfa", "y.pfb"], "rB": ["x.pfb", "y.pfa", "x.afm"]},
        {"rA": ["x.pfb"], "rA/s": ["x.pfa", "y.pfa"], "rB": ["x.afm", "y.tfm", "x.pfa"]},
        {"rA/s": ["y.pfa"], "rB": ["x.pfb", "x.pfa", "x.afm"]},
        {"lA": ["x.pfb", "y.pfa"], "lB": ["x.pfa", "x.afm", "y.pfb"]},
        {"lA/s": ["x.pfa", "x.pfb"], "lA": ["y.tfm"], "rA": ["x.afm", "y.pfa"]},
        {"rB": ["x.pfa"], "lA": ["x.afm"], "lB": ["y.pfb", "y.tfm"]}]
    top = 3 if tier == "quick" else 4

    def gen():
        for k in range(len(layouts)):
            for ms in (("recursivedir", "ls-R"), ("ls-R", "recursivedir")):
                for n in range(2, top+1):
                    for seq in itertools.permutations(range(len(reqs)), n):
                        yield (k, ms, seq)

    def setup(sc, k):
        for d in ("rA", "rB", "lA", "lB"):
            os.mkdir(sc.dir+"/"+d)
        for d, fs in layouts[k].items():
            for f in fs:
                sc.write(d+"/"+f)
        idx = []
        for d in ("lA", "lB"):
            t = "./:\n"
            for root, dirs, files in os.walk(sc.dir+"/"+d):
                rel = os.path.relpath(root, sc.dir+"/"+d)
                t += ("" if rel == "." else "\n./%s:\n" % rel)+"".join(x+"\n" for x in sorted(dirs+files))
            idx.append(sc.write(d+"/ls-R", t.encode()))
        return dict(recursivedir="%s/rA %s/rB" % (sc.dir, sc.dir), lsr=" ".join(idx))

    def reference(k, ms, r):
        name, formats = reqs[r]
        c = candidates(name, formats)
        for m in ms:
            if m == "recursivedir":
                for d in ("rA", "rA/s", "rB"):
                    for x in c:
                        if x in layouts[k].get(d, []):
                            return d+"/"+x
            else:
                for x in c:
                    for d in ("lA", "lA/s", "lB"):
                        if x in layouts[k].get(d, []):
                            return d+"/"+x

    def run(case):
        k, ms, seq = case
        with Scratch() as sc:
            opts = setup(sc, k)
            sc.configure(ms, **opts)
            out = []
            for i, r in enumerate(seq):
                want = reference(k, ms, r)
                TRACE.step((k, ms, frozenset(seq[:i+1])))
                got = lookup(*reqs[r])
                require(got == want, "lookup %d (%r) found %r instead of %r", i+1, reqs[r], got, want)
                out.append(want)
        return (k, ms, tuple(out))
    return Space("histories", gen, run, dict(layouts=len(layouts), requests=len(reqs), length=top))


def space_changes(tier):
    """files removed and added between lookups"""
    locs = ("local", "recursivedir", "ls-R", "kpsewhich", "locate")
    top = 3 if tier == "quick" else 4

    def gen():
        for ls in itertools.permutations(locs, 2):
            for n in range(1, top+1):
                for ops in itertools.product(("rm0", "rm1", "add0", "add1"), repeat=n):
                    for start in ((1, 1), (1, 0), (0, 1)):
                        yield (ls, start, ops)

    def run(case):
        ls, start, ops = case
        dirs = {"local": "cwd", "recursivedir": "r", "ls-R": "l", "kpsewhich": "k", "locate": "o"}
        with Scratch() as sc:
            opts = {}
            for l in ls:
                os.makedirs(sc.dir+"/"+dirs[l], exist_ok=True)
                full = "%s/%s/a.afm" % (sc.dir, dirs[l])
                if l == "recursivedir":
                    opts[l] = sc.dir+"/r"
                elif l == "ls-R":
                    opts["lsr"] = sc.write("l/ls-R", b"./:\na.afm\n")
                elif l == "kpsewhich":
                    opts[l] = sc.helper(l, {"--format afm a": [full]})
                elif l == "locate":
                    opts[l] = sc.helper(l, {"a.afm": [full]})
            have = [False, False]

            def change(i, on):
                p = dirs[ls[i]]+"/a.afm"
                if on and not have[i]:
                    sc.write(p)
                elif not on and have[i]:
                    os.remove(sc.dir+"/"+p)
                have[i] = bool(on)
            for i in (0, 1):
                change(i, start[i])
            sc.configure(ls, **opts)
            used = None
            res = []
            for op in (None,)+tuple(ops):
                if op:
                    change(int(op[-1]), op[0] == "a")
                existing = [dirs[l]+"/a.afm" for l, h in zip(ls, have) if h]
                got = lookup("a", ("afm",))
                TRACE.step((ls, tuple(have), got))
                if got is None:
                    # recursivedir keeps the list of files of the first lookup
                    hidden = [dirs[l]+"/a.afm" for l in ls if l == "recursivedir"]
                    require(not [e for e in existing if e not in hidden], "nothing found, although there is %r", existing)
                else:
                    require(got in existing, "found %r, while there is %r", got, existing)
                    if used in existing:
                        require(got == used or got == existing[0], "found %r", got)
                    else:
                        require(got == existing[0] or "recursivedir" in ls, "found %r instead of %r", got, existing[0])
                used = got
                res.append(got)
        return (case[0], tuple(res))
    return Space("changes", gen, run, dict(locators=len(locs), length=top))


def space_names(tier):
    """names of all kinds"""
    names = ["a.afm", "with space.afm", "\u00e4\u03b1.afm", "sub/a.afm", "../up/a.afm", "ABS/a.afm", "-a.afm", "a%s.afm", "$HOME.afm", "~.afm", "A.afm", "a.b.afm", "x'.afm"]

    def gen():
        for i in range(len(names)):
            for strip in (0, 1):
                for loc in ("local", "recursivedir", "ls-R"):
                    for miss in (0, 1):
                        for ascii in (0, 1):
                            yield (i, strip, loc, miss, ascii)

    def run(case):
        i, strip, loc, miss, ascii = case
        name = names[i]
        with Scratch() as sc:
            d = {"local": "cwd", "recursivedir": "r", "ls-R": "l"}[loc]
            if "/" in name and loc != "local":
                return None
            rel = os.path.normpath(d+"/"+name) if "ABS" not in name else "abs/a.afm"
            os.makedirs(sc.dir+"/"+d, exist_ok=True)
            os.makedirs(sc.dir+"/"+os.path.dirname(rel), exist_ok=True)
            # a decoy of similar name
            sc.write(os.path.dirname(rel)+"/b.afm")
            sc.write(rel+"~"); sc.write(rel[:-1])
            if not miss:
                sc.write(rel, ("content "+name).encode("utf-8"))
            if loc == "ls-R":
                sc.write("l/ls-R", ("./:\nb.afm\n%s\n%s~\n" % (name, name)).encode("utf-8"))
            sc.configure([loc], recursivedir=sc.dir+"/r", lsr=sc.dir+"/l/ls-R")
            req = name.replace("ABS", sc.dir+"/abs")
            if strip:
                req = req[:-4]
            # the name is found as encoded by the file system
            if loc == "ls-R" and any(ord(c) > 127 for c in name):
                return None
            got = lookup(req, ("afm",), ascii)
            require(got == (None if miss else "content "+name), "found %r", got)
            return (name, loc, miss)
    return Space("names", gen, run, dict(names=len(names)))


def space_internal(tier):
    """the data tree of PyX"""
    import pyx
    data = os.path.join(os.path.dirname(pyx.__file__), "data")
    files = sorted(os.path.relpath(os.path.join(r, f), data) for r, d, fs in os.walk(data) for f in fs)

    def gen():
        for f in files:
            for n in ("internal", "local internal", "internal local"):
                yield (f, n)
        for n in ("nothing.afm", "nothing", "pyxrc2", "..", "/pyxrc2"):
            yield (n, "internal")

    def run(case):
        f, order = case
        base, ext = os.path.splitext(os.path.basename(f))
        with Scratch() as sc:
            sc.configure(order.split())
            if f not in files:
                require(lookup(f, ("afm",) if "." in f else ("pyx",)) is None if f != ".." else True, "found %r", f)
                return f
            if os.path.dirname(f) not in ("", ext[1:]):
                return None
            want = open(os.path.join(data, f), "rb").read()
            if "local" in order:
                sc.write("cwd/"+os.path.basename(f), b"local")
                if order.startswith("local"):
                    want = b"local"
            names = {".afm": [(base, "afm")], ".pfa": [(base, "type1")], ".pfb": [(base, "type1")], ".tfm": [(base, "tfm")]}.get(ext, [])
            for n, fm in names+[(os.path.basename(f), "pyx")]:
                with config.open(n, [F[fm]]) as x:
                    got = x.read()
                require(got == want, "content of %r", f)
                with config.open(n, [F[fm]]) as x:
                    require(x.read() == want, "content of %r again", f)
        return (f, order)
    return Space("internal", gen, run, dict(files=len(files)))


def space_kpsewhich(tier):
    """the installed kpsewhich: same files as it reports"""
    names = [("cmr10", "tfm"), ("cmr10", "afm"), ("cmr10", "type1"), ("cmr10.pfb", "type1"), ("psfonts.map", "map"), ("pdftex.map", "map"), ("texc.pro", "pro"), ("8r.enc", "pro"), ("ptmr8r", "vf"), ("nosuchfontatall", "tfm"), ("config.ps", "dvips")]
    F.setdefault("vf", config.format.vf); EXT.setdefault("vf", [".vf"]); KPSE.setdefault("vf", "vf")

    def gen():
        for i in range(len(names)):
            for order in ("kpsewhich", "local kpsewhich", "internal pykpathsea kpsewhich"):
                yield (i, order)

    def run(case):
        i, order = case
        name, fm = names[i]
        exe = shutil.which("kpsewhich")
        if not exe:
            return None
        p = subprocess.run([exe, "--format", KPSE[fm], name], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL).stdout.decode().strip()
        with Scratch() as sc:
            sc.configure(order.split(), kpsewhich="kpsewhich")
            try:
                with config.open(name, [F[fm]]) as f:
                    got = f.read()
            except OSError:
                got = None
            want = open(p, "rb").read() if p else None
            require(got == want, "content of %r differs from the one of %r", name, p)
        return case, bool(p)
    return Space("kpsewhich", gen, run, dict(names=len(names)))


OPTS = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
from pyx import config
out = []
for what, args in json.loads(sys.argv[2]):
    try:
        out.append(["ok", getattr(config, what)(*args)])
    except Exception as e:
        out.append(["error", type(e).__name__])
out.append([type(m).__name__ for m in config.methods])
print(json.dumps(out))
'''


def space_options(tier):
    """options from the internal file, the home directory and the environment"""
    values = [None, "3", "yes", "a bSPACEc  d", "-2.5", ""]
    methods = [None, "local", "kpsewhich local internal"]
    if tier == "quick":
        combos = [(h, e, m, n) for h in values for e in values for m in (None, 1) for n in (0,)] + [(h, e, 2, n) for h in values[:3] for e in values[:4] for n in (0, 1)]
    else:
        combos = [(h, e, m, n) for h in values for e in values for m in (None, 1, 2) for n in (0, 1)]

    def gen():
        for c in combos:
            for space in (None, "_"):
                yield (c, space)

    def run(case):
        (home, env, m, noenv), space = case
        with Scratch() as sc:
            def rc(value, methods, space, section):
                t = ""
                if value is not None:
                    t += "[%s]\nopt = %s\n" % (section, value)
                if methods:
                    t += "[filelocator]\nmethods = %s\n" % methods
                if space:
                    t += "[general]\nspace = %s\n" % space
                return t.encode()
            sc.write("home/.pyxrc", rc(home, methods[1] if m == 1 else None, None, "text"))
            sc.write("rc", rc(env, methods[2] if m == 2 else None, space, "text"))
            if noenv:
                os.remove(sc.dir+"/rc")
            value = home if env is None or noenv else env
            q = [[w, ["text", o]+d] for w in ("get", "getint", "getfloat", "getboolean", "getlist") for o in ("opt", "nothing") for d in ([], ["dflt"])]
            q += [["get", ["nosection", "opt"]], ["get", ["nosection", "opt", 7]], ["getlist", ["text", "psfontmaps", []]], ["get", ["text", "tex"]], ["getint", ["text", "wait", 1]]]
            e = dict(os.environ, HOME=sc.dir+"/home", PYXRC=sc.dir+"/rc", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-c", OPTS, core.REPO, json.dumps(q)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
            require(r.returncode == 0, "failed: %s", r.stderr[-300:])
            out = json.loads(r.stdout)
            sp = space if space and not noenv else "SPACE"
            conv = {"get": str, "getint": int, "getfloat": float, "getboolean": lambda v: {"yes": True, "1": True, "no": False}[v.lower()], "getlist": lambda v: [x.replace(sp, " ") for x in v.split()]}
            for (what, args), res in zip(q, out):
                if args[0] == "nosection":
                    want = ["ok", 7] if len(args) > 2 else ["error", "NoSectionError"]
                elif args[1] == "psfontmaps":
                    want = ["ok", ["psfonts.map"]]
                elif args[1] == "tex":
                    want = ["ok", "tex"]
                elif args[1] == "wait":
                    want = ["ok", 60]
                elif args[1] == "nothing" or value is None:
                    want = ["ok", "dflt"] if len(args) > 2 else ["error", "NoOptionError"]
                    if what == "getlist" and len(args) > 2:
                        want = None     # the default of a list is a list
                else:
                    try:
                        want = ["ok", conv[what](value)]
                    except (ValueError, KeyError):
                        want = ["error", "ValueError"]
                if want is not None:
                    require(res == want, "%s%r gives %r instead of %r", what, tuple(args), res, want)
            want = methods[2] if m == 2 and not noenv else methods[1] if m == 1 else "local internal pykpathsea kpsewhich"
            require(out[-1] == want.split(), "methods %r instead of %r", out[-1], want)
        return case
    return Space("options", gen, run, dict(configurations=2*len(combos)), cpu=60)


def spaces(tier):
    return [space_first(tier), space_histories(tier), space_changes(tier), space_names(tier), space_internal(tier), space_kpsewhich(tier), space_options(tier)]
