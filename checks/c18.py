"""Compiling is a function of source and options: histories of compilations in
one process, environments (every answer to whatever the
compiler asks) and paths, each compared byte for byte with the same
compilation in a fresh process."""
import itertools
import os
import re
import subprocess

from vlib import build, cli, gen, judge, std
from vlib.client import ASM, CBACK, COLOR, DEBUG, Driver, O1, O2, O3, OBJ, QUIET, WANT, WERROR

BAD = ["x := nope\n", "x := 1\nx = 2\n", "f(a: Int) {\nnoop\n}\nf(true)\n", "if 1 {\nnoop\n}\n", "}\n", "(1\n", 'x := "abc\n', "#{\n", "x: N = 1\n", "f() Int {\nreturn true\n}\n",
       "N := Int\nN := Float\n", "namespace n {\nx := 1\n", "break\n", "x := 1 +\n", "@\n", "\u00e9 := \u2603\n", "import nope\n", "x := 99999999999999999999\n", "x := '\\q'\n", "", " \n",
       "namespace a {\nnamespace b {\nx := nope\n}\n}\n", "f() {\ng() {\nx := nope\n}\n}\n", "x := true\nif x {\ny := &x\nz := *y + 1\n}\n", "\xff"]
SMALL = ["noop\n", "x := 1\n", "return 7\n", "N := &Int\nx := 1\ny: N = &x\n", "export a := 1\n", "export a() {\nnoop\n}\n", "external a()\na()\n", "a() {\nnoop\n}\na()\n", "namespace a {\nb := 1\n}\n",
         'x := "a" is "b"\neB(x)\n', "eI(2 ^ 3)\n", "eF(2.0 ^ 3.0)\n", "while chB() {\nbreak\n}\n", "unreachable\n", "x := 1 # no line break", "# only a comment\n", "eR('\u00e9')\neR('\u5b57') # \u00ff\n", 'eS("\u00e9\u20ac\U0001f600") #{ \u00a4 #}\neS("\\xE9")\n']
SOURCES = gen.PROGRAMS + [judge.pre(s) for s in SMALL] + BAD
OPTS = [0, DEBUG, OBJ, ASM, CBACK, WERROR, QUIET | O2, O3 | DEBUG, COLOR, CBACK | DEBUG]
CONFIGS = [(i, 0) for i in range(len(SOURCES))] + [(i, o) for o in OPTS[1:] for i in range(len(SOURCES)) if o in (DEBUG, CBACK) or i % 4 == o % 3]
# a few of every kind, for longer histories
FEW = [(0, 0), (4, DEBUG), (7, 0), (10, CBACK), (10, 0), (12, OBJ), (15, O2), (18, CBACK | DEBUG), (28, WERROR)] + [
    (len(gen.PROGRAMS) + k, 0) for k in (1, 3, 9, 10)] + [(len(gen.PROGRAMS) + len(SMALL) + k, 0) for k in (0, 2, 5, 6, 10, 11, 20, 21, 22, 24)]
ENVS = [{"LANG": "C", "LC_ALL": "C"}, {"LANG": "POSIX", "LC_ALL": "POSIX"}, {"LC_ALL": "xx_XX", "LANG": "xx"}, {"LC_ALL": "", "LANG": ""}, {"MALLOC_PERTURB_": "165"},
        {"MALLOC_PERTURB_": "1", "MALLOC_ARENA_MAX": "1"}, {"MALLOC_TOP_PAD_": "0", "MALLOC_MMAP_THRESHOLD_": "64"}, {"TZ": "Asia/Tokyo"}, {"HOME": "/", "USER": "x", "TERM": "dumb", "NO_COLOR": "1"},
        {"X" * 500: "y" * 20000}]
# other encodings, and other UTF-8 locales (built for the check)
LOCALES = [("en_US", "ISO-8859-1"), ("ja_JP", "EUC-JP"), ("zh_CN", "GBK"), ("tr_TR", "UTF-8")]
LOCPATH = os.path.join(build.BUILD, "locales")
ENVS += [{"LOCPATH": LOCPATH, "LC_ALL": f"{a}.{b}"} for a, b in LOCALES] + [{"LOCPATH": LOCPATH, "LC_ALL": "", "LC_CTYPE": "en_US.ISO-8859-1", "LANG": "C.UTF-8"},
                                                                       {"LOCPATH": LOCPATH, "LC_ALL": "", "LANG": "ja_JP.EUC-JP"}]


def outcome(d, cfg):
    i, o = cfg
    r = d.run(SOURCES[i], o | WANT)
    art = r.art.replace(d.dir.encode(), b"<dir>")
    return (r.crash, r.rc, r.have, r.msgs.replace(d.dir, "<dir>"), r.err.replace(d.dir, "<dir>"), art)


class Base:
    def __init__(self, exe):
        self.exe, self.memo = exe, {}

    def __call__(self, cfg):
        if cfg not in self.memo:
            d = Driver(self.exe, 30, std.FILES)
            self.memo[cfg] = outcome(d, cfg)
            d.close()
        return self.memo[cfg]

    def close(self):
        pass


def diff(a, b):
    for n, x, y in zip(("crash", "status", "output file", "messages", "stderr", "output"), a, b):
        if x != y:
            if n == "output":
                k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                return f"{n}: fresh {x[max(0, k - 60):k + 60]!r}, here {y[max(0, k - 60):k + 60]!r}"
            return f"{n}: fresh {x!r}, here {y!r}"
    return "?"


def check(ctx, item):
    kind = item[0]
    if kind == "cli":
        return command(ctx, item)
    if kind == "asked":
        return asked(ctx, item)
    exe = ctx.exes["plain"]
    base = ctx.local.setdefault("base", None) or Base(exe)
    ctx.local["base"] = base
    if kind == "env":
        d = Driver(exe, 30, std.FILES, env=ENVS[item[1]])
        seq, tested = list(item[2]), None
    else:
        d = Driver(exe, 30, std.FILES)
        seq = list(item[1])
    try:
        for n, cfg in enumerate(seq):
            got = outcome(d, cfg)
            ctx.count("compilations")
            want = base(cfg)
            if got != want:
                hist = [(SOURCES[i], o) for i, o in seq[max(0, n - 3):n + 1]]
                return f"compilation {n + 1} depends on its {'environment ' + repr(ENVS[item[1]])[:100] if kind == 'env' else 'history'}: {diff(want, got)}\n   last compilations: {hist!r:.1200}"
    finally:
        d.close()
    ctx.nontrivial()
    return None


def rows():
    """Every ordered pair (i, j) and (j, i), in one process per i."""
    for c in CONFIGS:
        seq = []
        for e in CONFIGS:
            seq += [c, e]
        yield ("history", tuple(seq))


def triples():
    for a, b in itertools.product(FEW, repeat=2):
        seq = []
        for c in FEW:
            seq += [a, b, c]
        yield ("history", tuple(seq))


def quads():
    for a, b, c in itertools.product(FEW, repeat=3):
        seq = []
        for d in FEW:
            seq += [a, b, c, d]
        yield ("history", tuple(seq))


def repeats():
    for c in CONFIGS:
        yield ("history", (c,) * 40)


def envs():
    for n in range(len(ENVS)):
        for k in range(0, len(CONFIGS), 20):
            yield ("env", n, tuple(CONFIGS[k:k + 20]))


# ------------------------------------------------------------- the command

FLAGS = {"E": ["-E"], "S": ["-S", "-o", "-"], "C": ["--c-backend", "-o", "-"], "c": ["-c"], "x": [], "O": ["-O2", "-E"], "CE": ["--c-backend", "-E"], "g": ["-g", "-E"]}
NOWHERE = {"g"}  # their output names the working directory
PATHS = [("", "m.sk"), ("", "./m.sk"), ("", "../w/m.sk"), ("sub", "../m.sk"), ("", "ABS"), ("sub/deep", "../../m.sk"), ("", "sub/../m.sk")]


def command(ctx, item):
    _, i, flags, cwd, path, env = item
    c = cli.get(ctx)
    files = {"m.sk": SOURCES[i].encode("utf-8", "surrogateescape"), "mod1.sk": "x := 1\n", "sub": None, "sub/deep": None}
    fixed = path.replace("ABS", c.dir + "/m.sk")

    def go(cwd, path, env):
        r = c.run([path] + FLAGS[flags], files, dict(env), cwd=cwd)
        ctx.count("commands")
        # the path the user gave is part of the output
        out = {n: b"" if v.startswith(b"\x7fELF") and item[4] != "m.sk" else v.replace(path.encode(), b"m.sk") for n, v in r.files.items()}
        return (r.rc, r.out.replace(path.encode(), b"m.sk"), r.err.replace(path, "m.sk"), out, len(r.cc))
    key = (i, flags, path == "m.sk")
    if key not in c.cache:
        c.cache[key] = go("", "m.sk", {})
    got = go(cwd, fixed, env)
    ctx.nontrivial()
    if got != c.cache[key]:
        return f"depends on the {'environment' if env else 'path'}: {c.cache[key]!r:.700} / {got!r:.700}"
    return None


VALUES = [None, "", "0", "1", "yes", "always", "C", "en_US.UTF-8", "/nonexistent", "-O2 -g --werror", "1234567890"]
CONTENTS = [b"", b"1\n", b"x := 1\n", b"--werror\n-g\n", b"\xff\0"]


def asked(ctx, item):
    """What the compiler asks its environment is found out by running it, and
    every answer is tried: variables, clocks, identities, other files."""
    _, i, flags = item
    c = cli.get(ctx)
    files = {"m.sk": SOURCES[i].encode("utf-8", "surrogateescape"), "mod1.sk": "x := 1\n"}
    log, other = c.top + "/asked", c.top + "/other"
    shim = {"LD_PRELOAD": build.tool("envshim", "so"), "ENVSHIM_LOG": log, "ENVSHIM_EXE": os.path.realpath(c.exe)}

    def go(env):
        if os.path.exists(log):
            os.unlink(log)
        r = c.run(["m.sk"] + FLAGS[flags], files, {**shim, **env})
        ctx.count("commands")
        qs = set()
        if os.path.exists(log):
            with open(log, errors="replace") as f:
                qs = {(l[0], l[1:].rstrip("\n")) for l in f}
        return (r.rc, r.out, r.err, r.files, r.cc), qs

    want, todo = go({})
    if (want[0], want[3]) != (lambda r: (r.rc, r.files))(c.run(["m.sk"] + FLAGS[flags], files)):
        return "the shim changes the outcome"
    ctx.nontrivial()
    done = set()
    while todo - done:
        kind, what = q = sorted(todo - done)[0]
        done.add(q)
        if kind == "E":
            tries = [({what: v}, f"variable {what} = {v!r}") for v in VALUES]
        elif kind == "T":
            tries = [({"ENVSHIM_SALT": str(k)}, f"answer {k} of {what}") for k in (1, 2, 3, 1001)]
        else:
            rel = os.path.relpath(os.path.join(c.dir, what), c.dir)
            base = os.path.basename(rel)
            if base.endswith(".sk") or base.lstrip(".").startswith("m.") or rel in want[3] or os.path.isdir(os.path.join(c.dir, what)) or base in ("m", "a.out"):
                continue  # its own business
            tries = [({"ENVSHIM_FROM": what, "ENVSHIM_TO": other + str(k)}, f"contents {v!r} of file {rel}") for k, v in enumerate(CONTENTS)]
            for k, v in enumerate(CONTENTS):
                with open(other + str(k), "wb") as f:
                    f.write(v)
            tries.append(({"ENVSHIM_FROM": what, "ENVSHIM_TO": other + "x"}, f"absence of file {rel}"))
        for env, name in tries:
            got, more = go(env)
            ctx.count("answers")
            if kind == "E" and what == "COLOR":
                # documented: colors the words Error and Warning
                got = got[:2] + (re.sub("\x1b\\[[0-9;]*m", "", got[2]),) + got[3:]
            todo |= more
            if got != want:
                return f"depends on the {name}: {want!r:.500} / {got!r:.500}"
    return None


def questions():
    for i in range(len(SOURCES)):
        if "\0" not in SOURCES[i]:
            for n, f in enumerate(FLAGS):
                if f in "Cx" or i % 3 == n % 3:
                    yield ("asked", i, f)


def paths():
    for i in range(len(SOURCES)):
        if "\0" in SOURCES[i] or not SOURCES[i]:
            continue
        for f in FLAGS:
            if f in NOWHERE:
                continue
            for cwd, p in PATHS[1:]:
                yield ("cli", i, f, cwd, p, ())


def cli_envs():
    for i in range(0, len(SOURCES), 3):
        for f in FLAGS:
            for e in ENVS:
                yield ("cli", i, f, "", "m.sk", tuple(sorted(e.items())))


def families(tier):
    q = tier == "quick"
    return [("every ordered pair", rows), ("every ordered triple of a few", triples), ("forty times the same", repeats), ("environments", envs), ("paths and working directories", paths),
            ("environments of the command", cli_envs),
            ("everything the command asks its environment", questions)] + ([] if q else [("every ordered quadruple of a few", quads)])


def make_locales():
    """Without localedef and its data the names stand for locales that are not installed."""
    os.makedirs(LOCPATH, exist_ok=True)
    for a, b in LOCALES:
        d = os.path.join(LOCPATH, f"{a}.{b}")
        if os.path.isdir(d):
            continue
        try:
            subprocess.run(["localedef", "-i", a, "-f", b, d + ".new"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            os.rename(d + ".new", d)
        except (OSError, subprocess.TimeoutExpired):
            pass


def run(rep, tier):
    make_locales()
    build.build("cli", "plain")
    build.tool("fakecc")
    build.tool("envshim", "so")
    std.sweep(rep, families(tier), check, rule="each history runs in a process of its own and every compilation in it is compared with the same one in a fresh process")


def replay(item):
    return std.replay_with(check, item)
