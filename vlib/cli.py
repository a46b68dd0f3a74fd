"""Runs the real command in a scratch directory of its own."""
import os
import shutil
import subprocess
import tempfile

from . import build
from .client import scratch_root

ENVIRONMENT = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8"}


class Ran:
    __slots__ = ("rc", "out", "err", "files", "cc")

    def brief(self):
        return f"rc={self.rc} stdout={self.out[:200]!r} stderr={self.err[:400]!r} files={ {k: len(v) for k, v in self.files.items()} } cc={self.cc}"


class Cli:
    def __init__(self, variant="plain"):
        self.exe = build.build("cli", variant)
        self.top = tempfile.mkdtemp(prefix="vcli", dir=scratch_root())
        self.dir = self.top + "/w"
        os.mkdir(self.top + "/bin")
        shutil.copy(build.tool("fakecc"), self.top + "/bin/cc")
        self.cache = {}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def populate(self, files):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        for n, c in files.items():
            p = os.path.join(self.dir, n)
            if c is None:
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(c, tuple):
                os.symlink(c[1], p)
                continue
            with open(p, "wb") as f:
                f.write(c if isinstance(c, bytes) else c.encode())

    def tree(self):
        out = {}
        for d, ds, fs in os.walk(self.dir):
            rel = os.path.relpath(d, self.dir)
            for n in fs:
                p = os.path.normpath(os.path.join(rel, n))
                if os.path.islink(os.path.join(d, n)):
                    out[p] = b"<link>"
                    continue
                with open(os.path.join(d, n), "rb") as f:
                    out[p] = f.read()
            for n in ds:
                out[os.path.normpath(os.path.join(rel, n))] = b"<dir>"
        return out

    def run(self, args, files, env=None, fake=True, cwd="", prefix=(), timeout=60, keep=False, stdout=None, exe=None):
        """files: name -> contents (None: a directory).  Returns what changed."""
        if not keep:
            self.populate(files)
        before = self.tree()
        log = self.top + "/cc.log"
        if os.path.exists(log):
            os.unlink(log)
        e = dict(ENVIRONMENT)
        if fake:
            e["PATH"] = self.top + "/bin:" + e["PATH"]
        e["FAKECC_LOG"] = log
        for k, v in (env or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        r = Ran()
        try:
            p = subprocess.run(list(prefix) + [exe or self.exe] + list(args), cwd=os.path.join(self.dir, cwd), env=e, stdin=subprocess.DEVNULL,
                               stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            r.rc, r.out, r.err = p.returncode, p.stdout or b"", p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            r.rc, r.out, r.err = "hang", b"", ""
        after = self.tree()
        r.files = {n: c for n, c in after.items() if before.get(n) != c}
        for n in before:
            if n not in after:
                r.files[n] = b"<removed>"
        r.cc = []
        if os.path.exists(log):
            with open(log, "rb") as f:
                for one in f.read().split(b"\x01")[:-1]:
                    r.cc.append([a.decode("utf-8", "surrogateescape") for a in one.split(b"\0")[:-1]])
        return r


def get(ctx, variant="plain"):
    c = ctx.local.get(("cli", variant))
    if c is None:
        c = ctx.local[("cli", variant)] = Cli(variant)
    return c
