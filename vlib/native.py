"""Links native objects made by the real compiler and runs them."""
import os
import shutil
import subprocess
import tempfile

from . import build
from .client import scratch_root


def run(cmd, cwd, timeout=120, env=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vnat", dir=scratch_root())

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, data):
        with open(self.path(n), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return self.path(n)

    def clear(self):
        for n in os.listdir(self.dir):
            p = self.path(n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def get(ctx):
    w = ctx.local.get("work")
    if w is None:
        w = ctx.local["work"] = Work()
    w.clear()
    return w


def parse(text):
    """name -> [(script, result, trace)] or an error text"""
    out, cur, name = {}, None, None
    for line in text.split("\n"):
        if line.startswith("@"):
            cur = out.setdefault(line[1:], [])
            name = line[1:]
        elif line == "." or not line:
            continue
        elif line.startswith("!"):
            # (nothing was run if this comes before the first name)
            if name is not None:
                out[name] = line
            cur = []
        elif cur is not None:
            cur.append(tuple(line.split("|", 2)))
    return out


def run_objects(w, arts, depth, max_runs, asm=False):
    """arts: {index: bytes of an object or assembly file of module m<index>}.
    Returns (results by index, None) or (None, error)."""
    objs = []
    for i, a in arts.items():
        if asm:
            w.write(f"m{i}.s", a)
            # (GNU as does not take the .file directives of older debug formats)
            r = run(["clang", "-c"] * (b".loc" in a) + ["as"] * (b".loc" not in a) + [f"m{i}.s", "-o", f"m{i}.o"], w.dir)
            if r.returncode:
                return None, f"m{i}.s does not assemble: {r.stdout[:500]}"
        else:
            w.write(f"m{i}.o", a)
        objs.append(f"m{i}.o")
    w.write("t.c", "#include <stdint.h>\n" + "".join(f'int64_t f{i}(void) __asm__(".m{i}");\n' for i in arts)
            + "const struct { const char *name; int64_t (*fn)(void); } table[] = {" + "".join(f'{{"{i}", f{i}}},' for i in arts) + "};\n"
            + f"const int table_len = {len(arts)};\n")
    r = run(["gcc", "-w", "-no-pie", "t.c", build.tool("nrun", True)] + objs + ["-o", "t", "-lm"], w.dir)
    if r.returncode:
        return None, "does not link: " + r.stdout[-700:]
    r = run(["./t", str(depth), str(max_runs), "20"], w.dir)
    res = parse(r.stdout)
    return {i: res.get(str(i), "no result: " + r.stdout[-200:]) for i in arts}, None
