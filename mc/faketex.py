"""A TeX process stand-in speaking the dialogue PyX relies on, with faults, for
use under mc.sched; writes real DVI files with one rule per page."""
import io, os, re, struct
from mc import sched

PT = 65536          # DVI units per TeX pt


def dvi(pages, post=True, mag=1000):
    out = bytearray([247, 2]) + struct.pack(">III", 25400000, 473628672, mag) + bytes([4]) + b"fake"
    last = 0xffffffff
    for number, lt, wd, ht, dp in pages:
        pos = len(out)
        out += bytes([139]) + struct.pack(">10i", 80, 121, 88, number, 0, 0, 0, 0, 0, 0) + struct.pack(">I", last)
        last = pos
        # shift left by the part left of the anchor, down by the depth, put the rule
        out += bytes([141]) + bytes([146]) + struct.pack(">i", round(-lt*PT))
        out += bytes([160]) + struct.pack(">i", round(dp*PT))
        out += bytes([137]) + struct.pack(">ii", round((ht+dp)*PT), round(wd*PT)) + bytes([142, 140])
    if post:
        pos = len(out)
        out += bytes([248]) + struct.pack(">IIIIII", last, 25400000, 473628672, mag, 0, 0) + struct.pack(">HH", 2, len(pages))
        out += bytes([249]) + struct.pack(">I", pos) + bytes([2]) + bytes([223]*4)
    return bytes(out)


class Out(io.RawIOBase):
    def __init__(self):
        self.chunks = []      # (release time, bytes)
        self.eof = None       # release time of the end

    def readable(self):
        return True

    def readinto(self, b):
        s = sched.S
        while True:
            s.point(lambda: self.chunks or self.eof is not None)
            if self.chunks:
                t, data = self.chunks[0]
            else:
                t, data = self.eof, b""
            if t <= s.now:
                break
            s.point(lambda: False, t - s.now)
        if not data:
            return 0
        n = min(len(b), len(data))
        b[:n] = data[:n]
        if n < len(data):
            self.chunks[0] = (t, data[n:])
        else:
            self.chunks.pop(0)
        return n


class In(io.RawIOBase):
    def __init__(self, proc):
        self.proc = proc

    def writable(self):
        return True

    def write(self, data):
        sched.S.point()
        data = bytes(data)
        if self.proc.exited:
            raise BrokenPipeError(32, "Broken pipe")
        self.proc.feed(data)
        return len(data)

    def close(self):
        if not self.closed:
            super().close()
            self.proc.stdin_closed()


class World:
    """what all TeX processes of a run share: numbering of exchanges, faults, chunking"""
    def __init__(self, faults, chunking="whole", startfail=()):
        self.faults = dict(faults)
        self.chunking = chunking
        self.exchange = 0
        self.starts = 0
        self.startfail = startfail
        self.procs = []
        self.fired = []       # (exchange, fault)
        self.ends = set()     # exchanges which were the end of a process

    def popen(self, cmd, *args, **kwargs):
        self.starts += 1
        if self.starts in self.startfail:
            raise FileNotFoundError(2, "No such file or directory", cmd[0])
        p = Proc(self, cmd)
        self.procs.append(p)
        return p


class Proc:
    def __init__(self, world, cmd):
        self.world = world
        self.dir = cmd[cmd.index("--output-directory")+1]
        self.ipc = "--ipc" in cmd
        self.stdout = Out()
        self.stdin = In(self)
        self.buf = ""
        self.exited = False
        self.returncode = None
        self.pid = 4242
        self.hung = False
        self.stubborn = False
        self.pages = []
        self.started = False
        self.killed = []
        self.said = ""

    # -------------------------------------------------- Popen interface
    def poll(self):
        sched.S.point()
        return self.returncode

    def wait(self, timeout=None):
        if not sched.S.point(lambda: self.exited, timeout):
            import subprocess
            raise subprocess.TimeoutExpired("tex", timeout)
        return self.returncode

    def terminate(self):
        sched.S.point()
        self.killed.append("terminate")
        if not self.exited and not self.stubborn:
            self.exit(-15)

    def kill(self):
        sched.S.point()
        self.killed.append("kill")
        if not self.exited:
            self.exit(-9)

    # -------------------------------------------------- process
    def exit(self, code=0, delay=0):
        self.exited = True
        self.returncode = code
        self.stdout.eof = sched.S.now + delay

    def emit(self, text, delay=0):
        self.said += text
        data = text.encode("ascii")
        c = self.world.chunking
        if c == "line":
            parts = [x for x in re.split(rb"(?<=\n)", data) if x]
        elif c == "split":
            parts = []
            for x in re.split(rb"(?<=\n)", data):
                if x:
                    k = len(x)//2
                    parts += [y for y in (x[:k], x[k:]) if y]
        else:
            parts = [data]
        for x in parts:
            self.stdout.chunks.append((sched.S.now + delay, x))

    def stdin_closed(self):
        if not self.exited and not self.hung:
            self.emit("*! Emergency stop.\n<*> \n    \nNo pages of output.\nTranscript written on %s/texput.log.\n" % self.dir)
            self.exit(1)

    END = re.compile(r"\\PyXInput\{(\d+)\}%\n|\\end(?:\{document\})?%?\n|\\@@end\n")

    def feed(self, data):
        if self.hung:
            return
        self.buf += data.decode("ascii")
        while not self.exited and not self.hung:
            m = self.END.search(self.buf)
            if not m:
                break
            chunk = self.buf[:m.start()]
            self.buf = self.buf[m.end():]
            if m.group(1):
                self.respond(chunk, m.group(1))
            else:
                self.finish()

    def writedvi(self, post, data=None):
        with open(os.path.join(self.dir, "texput.dvi"), "wb") as f:
            f.write(dvi(self.pages, post) if data is None else data)

    def fault(self):
        n = self.world.exchange
        self.world.exchange += 1
        f = self.world.faults.get(n, "")
        return n, f

    def fire(self, n, f):
        self.world.fired.append((n, f))

    def respond(self, chunk, ident):
        n, f = self.fault()
        pre = ""
        if not self.started:
            self.started = True
            if f == "nobanner":
                self.fire(n, f)
                pre = "sh: something else entirely\n"
            else:
                pre = "This is TeX, Version 3.141592653 (fake) (preloaded format=tex)\n**\n\n"
            pre += "*! Undefined control sequence.\n<*> \\raiseerror\n               %\n\n"
        body = "*\n"
        page = re.search(r"\\ProcessPyXBox\{(.*?)%\n\}\{(\d+)\}%", chunk, re.S)
        if page:
            expr, number = page.group(1), int(page.group(2))
            wd, ht, dp = [float(x) for x in re.search(r"BOX\(([\d.]+),([\d.]+),([\d.]+)\)", expr).groups()]
            h = re.search(r"\\gdef\\PyXBoxHAlign\{([-\d.]+)\}", expr)
            lt = wd*float(h.group(1)) if h else 0.0
            rt = wd - lt
            line = "*PyXBox:page=%d,lt=%.5fpt,rt=%.5fpt,ht=%.5fpt,dp=%.5fpt:\n" % (number, lt, rt, ht, dp)
            ship = "[80.121.88.%d]\n" % number
            if f == "nobox":
                self.fire(n, f); line = ""
            elif f == "badpage":
                self.fire(n, f); line = line.replace("page=%d" % number, "page=%d" % (number+1))
            elif f == "noship":
                self.fire(n, f); ship = ""
            elif f == "badnum":
                self.fire(n, f); line = line.replace("rt=", "rt=x")
            elif f == "warnbox":
                self.fire(n, f); line = "*\nOverfull \\hbox (10.0pt too wide) detected at line 3\n\\hbox(0.0+0.0)x10.0\n\n" + line
            self.pages.append((number, lt, wd, ht, dp))
            body += line + ship
        if f == "err":
            self.fire(n, f); body = "*\n*! Undefined control sequence.\n<argument> \\what\n" + body
        if f.startswith("say:"):
            self.fire(n, f); body = "*\n" + f[4:] + body
        marker = "*PyXInputMarker:executeid=%s:\n\n" % ident
        if f == "badid":
            self.fire(n, f); marker = "*PyXInputMarker:executeid=%d:\n\n" % (int(ident)+7)
        elif f == "late":
            self.fire(n, f); marker += "! LATEJUNK error.\n"
        text = pre + body + marker
        if f == "crlf":
            self.fire(n, f); text = text.replace("\n", "\r\n")
        delay = 0
        if f.startswith("slow"):
            self.fire(n, f); delay = float(f[4:])
        if f in ("hang", "hangstubborn"):
            self.fire(n, f); self.hung = True; self.stubborn = f != "hang"
            return
        if f == "hangmid":
            self.fire(n, f); self.hung = True
            text = pre + body
        if f == "hangafter":
            self.fire(n, f); self.hung = True
        if f == "exit":
            self.fire(n, f); self.exit(1)
            return
        if f == "exitmid":
            self.fire(n, f)
            self.emit(pre + body); self.exit(1)
            return
        if self.ipc:
            self.writedvi(False)
        self.emit(text, delay)
        if f == "exitafter":
            self.fire(n, f); self.exit(1)

    def finish(self):
        n, f = self.fault()
        self.world.ends.add(n)
        np = len(self.pages)
        text = "*"
        if f in ("hang", "hangstubborn"):
            self.fire(n, f); self.hung = True; self.stubborn = f != "hang"
            return
        if f in ("exit", "hangmid", "exitmid", "exitafter"):
            self.fire(n, f)
            self.exit(1)
            return
        if f == "err":
            self.fire(n, f); text += "! Something odd happened.\n"
        if np:
            text += "\nOutput written on %s/texput.dvi (%d page%s, 284 bytes).\n" % (self.dir, np if f != "badpage" else np+1, "s" if np > 1 else "")
        else:
            text += "\nNo pages of output.\n"
        if f == "badpage":
            self.fire(n, f)
        if f != "nobox":
            text += "Transcript written on %s/texput.log.\n" % self.dir
        else:
            self.fire(n, f)
        if f == "late":
            self.fire(n, f); text += "LATEJUNK\n"
        if f == "crlf":
            self.fire(n, f); text = text.replace("\n", "\r\n")
        if np:
            if f == "noship":
                self.fire(n, f)
            elif f == "badnum":
                self.fire(n, f)
                d = dvi(self.pages)
                self.writedvi(True, d[:20 + (len(d)-20)//3])
            else:
                self.writedvi(True)
        delay = 0
        if f.startswith("slow"):
            self.fire(n, f); delay = float(f[4:])
        self.emit(text, delay)
        self.exit(0, delay)
