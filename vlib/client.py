"""Client of harness/driver: runs cases against the real pipeline."""
import os
import shutil
import signal
import struct
import subprocess
import tempfile

QUIET, CBACK, DEBUG, WERROR, O1, O2, O3, NOVERIFY, COLOR, RUN, WANT, ASM, OBJ = (
    1 << i for i in range(13))


class Result:
    __slots__ = ("rc", "have", "rs", "msgs", "err", "art", "runs", "crash", "runtext")

    def __init__(self):
        self.rc = self.have = self.rs = None
        self.msgs = self.err = ""
        self.art = b""
        self.runs = []
        self.runtext = ""
        self.crash = None

    @property
    def errors(self):
        return [m for m in self.msgs.split("\n") if ": Compilation error: " in m]

    @property
    def warnings(self):
        return [m for m in self.msgs.split("\n") if ": Warning: " in m]

    def brief(self):
        if self.crash:
            return f"CRASH {self.crash}"
        return f"rc={self.rc} artifact={self.have} run={self.rs} msgs={self.msgs!r} stderr={self.err[:200]!r} runs={self.runs[:4]!r}"


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Driver:
    def __init__(self, exe, limit=10, files=None, symbolize=False, env=None):
        self.env = env or {}
        self.symbolize = symbolize
        self.exe, self.limit = exe, limit
        self.dir = tempfile.mkdtemp(prefix="vsk", dir=scratch_root())
        for n, c in (files or {}).items():
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(c)
        self.p = None
        self.count = 0
        self.restarts = 0

    def start(self):
        r, w = os.pipe()
        env = dict(os.environ)
        env["LANG"] = env["LC_ALL"] = "C.UTF-8"
        env["ASAN_OPTIONS"] = (f"detect_leaks=0:abort_on_error=0:exitcode=77:symbolize={int(self.symbolize)}:"
                               "allocator_may_return_null=1:handle_segv=1")
        env["UBSAN_OPTIONS"] = f"print_stacktrace=1:exitcode=77:symbolize={int(self.symbolize)}"
        env.update(self.env)
        self.p = subprocess.Popen(
            ["bash", "-c", f"exec \"$0\" \"$@\" 3>&{w}", self.exe, self.dir,
             os.path.join(os.path.dirname(self.exe), "shim.ll"), str(self.limit)],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            pass_fds=(w,), env=env)
        os.close(w)
        self.r = os.fdopen(r, "rb")

    def _n(self, n):
        b = self.r.read(n) if n else b""
        if len(b) != n:
            raise EOFError
        return b

    def run(self, src, opts=0, depth=0, max_runs=1, name="m.sk"):
        if self.p is None:
            self.start()
        if isinstance(src, str):
            src = src.encode("utf-8", "surrogateescape")
        nb = name.encode()
        res = Result()
        self.count += 1
        try:
            self.p.stdin.write(struct.pack("<6I", 1, opts, len(nb), len(src), depth, max_runs) + nb + src)
            self.p.stdin.flush()
            h = struct.unpack("<8i", self._n(32))
            res.rc, res.have, res.rs = h[1], h[2], h[3]
            res.msgs = self._n(h[4]).decode("utf-8", "replace")
            res.err = self._n(h[5]).decode("utf-8", "replace")
            res.art = self._n(h[6])
            res.runtext = self._n(h[7]).decode("utf-8", "replace")
            if res.rs == 1:
                for line in res.runtext.split("\n"):
                    if line:
                        s, rv, t = line.split("|", 2)
                        res.runs.append((s, rv, t))
        except (EOFError, BrokenPipeError, OSError):
            try:
                self.p.stdin.close()
            except OSError:
                pass
            rc = self.p.wait()
            self.r.close()
            self.p = None
            self.restarts += 1
            if rc == 99:
                res.crash = "hang"
            elif rc == 77:
                res.crash = "sanitizer " + self.san()
            elif rc < 0:
                res.crash = "signal " + signal.Signals(-rc).name
            else:
                res.crash = f"exit {rc}"
            try:
                res.err = open(self.dir + "/err", errors="replace").read()[:2000]
            except OSError:
                pass
        return res

    def san(self):
        out = ""
        try:
            t = open(self.dir + "/err", errors="replace").read()
        except OSError:
            return out
        for line in t.split("\n"):
            if "ERROR: AddressSanitizer" in line:
                out = out or "AddressSanitizer" + line.split("AddressSanitizer", 1)[1].split(" on ")[0].split(" (")[0]
            elif "runtime error:" in line:
                out = out or line.split("/src/", 1)[-1].strip()
            if line.lstrip().startswith("#") and "/src/skull/" in line and " in " in line:
                w = line.split(" in ", 1)[1].split(" ")
                out += " @" + w[0] + ":" + w[-1].rsplit(":")[-1]
                if out.count("@") > 2:
                    break
        return out[:400]

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None
        shutil.rmtree(self.dir, ignore_errors=True)
