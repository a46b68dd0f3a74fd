"""The command line: every sequence of options up to a length, with the file
in every position, against a model of the command.  Real processes, in scratch
directories; cc is a stand-in that records how it is called, except in the last
family."""
import itertools

from vlib import build, cli, judge, ref, std
from vlib.client import QUIET, WERROR

OK = "f(a: Int) Int {\n\tif a is 0 {\n\t\treturn 1\n\t}\n\treturn a * f(a - 1)\n}\nreturn f(3)\n"
FILES = {
    "ok.sk": OK, "bad.sk": "x := nope\n", "warn.sk": "x := 1\nmut y := 2\nreturn y\n", "both.sk": "if true {\n\tnoop\n}\nx := 1 +\n", "empty.sk": "",
    "space.sk": " \n", "noext": OK, "dir.sk": OK, "dir": None, "sub/ok.sk": OK, "imp.sk": "import lib\nreturn 2\n", "lib.sk": "x := 1\n",
    "sub/imp.sk": "import lib\nreturn 2\n", "sub/imp2.sk": "import inner\nreturn 2\n", "sub/inner.sk": "x := 1\n", "ext.sk": "external nowhere(x: Int)\nnowhere(1)\n",
    "a b$x'y\".sk": OK, ".sk": OK, "x.skk": OK, "y.sk.txt": OK, "a.sk.sk": OK, ".sk.d/z.sk": OK, "sub/.sk": OK,
}
GOOD = [n for n in FILES if n.endswith(".sk") and n not in (".sk", "sub/.sk")]
MODULES = {"imp.sk": ("lib",), "sub/imp.sk": (), "sub/imp2.sk": ("inner",)}
FLAGS = [("-S",), ("-E",), ("-c",), ("--c-backend",), ("-g",), ("-q",), ("--werror",), ("-O1",), ("-O2",), ("-O3",), ("-o", "out"), ("-o", "-"), ("--llvm-no-verify",), ("--color",)]
ODD = [("-h",), ("-v",), ("--help",), ("--version",), ("-z",), ("-cS",), ("--nope",), ("-O4",), ("-O",), ("-O11",), ("-Ofast",), ("-",), ("",), ("-o",), ("--",), ("-o", "sub/out"),
       ("-o", "nodir/out"), ("-o", "sub"), ("-o", ""), ("--c",), ("--colors",), ("-gq",), ("--werro",), ("--", "-no-pie"), ("--", "x y", "$HOME", "a'b", "-lm"), ("-o", "-c"), ("other.sk",), ("-s",), ("-e",), ("-C",)]
USAGE = ("skull [-v|--version|-h|--help]\n\nskull file [-S|-E|-c|--c-backend]\n           [-gq]\n           [--werror]\n           [-O1|-O2|-O3]\n           [-o output]\n"
         "           [--llvm-no-verify]\n           [--color]\n           [-- args]\n")
VERSION = "\x1b[92mSkull\x1b[0m verif\n"
ANY = object()


class Pred:
    """rc; out: bytes, content key or None (nothing); err: text or ANY (some text);
    files: name -> content key; link: None or (object name, executable, extra arguments)"""

    def __init__(self, rc, err="", out=None, files=None, link=None):
        self.rc, self.err, self.out, self.files, self.link = rc, err, out, files or {}, link


def fail(text):
    return Pred(1, f"skull: {text}\n")


def default_name(f, ext):
    d, _, b = f.rpartition("/")
    return (d + "/" if d else "") + "." + b + "." + ext


def predict(args, env):
    if not args:
        return Pred(0, out=USAGE.encode())
    o = {}
    color = env.get("COLOR", "")[:1] == "1"
    name, out, extra = None, None, []
    names = {"-c": "c", "-S": "S", "-E": "E", "-g": "g", "-q": "q", "-O1": "O1", "-O2": "O2", "-O3": "O3", "--c-backend": "cb", "--werror": "werror",
             "--llvm-no-verify": "nv", "--color": "color"}
    i = 0
    while i < len(args):
        a = args[i]
        i += 1
        if not a.startswith("-"):
            if name:
                return fail("expected a single filename")
            name = a
        elif a in ("-h", "--help"):
            return Pred(0, out=USAGE.encode())
        elif a in ("-v", "--version"):
            return Pred(0, out=VERSION.encode())
        elif a == "--color" and env.get("COLOR") is not None:
            return fail("--color overrides COLOR environment variable")
        elif a in names:
            if names[a] in o:
                return fail(f"{a} cannot be used more then once")
            o[names[a]] = True
        elif a == "-o":
            if out is not None:
                return fail("-o cannot be used more then once")
            if i == len(args):
                return fail("expected filename after -o")
            out = args[i]
            i += 1
        elif a == "--":
            if i == len(args):
                return fail("expected arguments after --")
            extra = args[i:]
            break
        elif a.startswith("--"):
            return fail(f'unknown option "{a}"')
        elif a.startswith("-O"):
            return fail(f'unrecognized optimization level "{a[2:]}"')
        elif len(a) > 2:
            return fail("short option must be exactly one character")
        else:
            return fail(f'unknown option "{a}"')
    color = color or "color" in o
    if sum(x in o for x in ("O1", "O2", "O3")) > 1:
        return fail("cannot specify multiple optimization levels")
    if "cb" in o and "nv" in o:
        return fail("cannot specify llvm-specific flags when using C backend")
    if "q" in o and "werror" in o:
        return fail("warnings aren't suppressed with --werror, -q is ignored")
    if "S" in o and "cb" in o:
        return fail("cannot output assembly (-S) using C backend")
    if sum(x in o for x in "SEc") > 1:
        return fail("-S, -E, and -c cannot be used together")
    if name is None:
        return fail("expected filename")
    if not name.endswith(".sk"):
        return fail('missing required ".sk" extension, exiting')
    if name == ".sk" or name.endswith("/.sk"):
        return fail('".sk" is not a valid name, exiting')
    if name not in FILES:
        return fail(f'"{name}" was not found, exiting')
    src = FILES[name]
    bad, werror, quiet = False, "werror" in o, "q" in o
    if src == "":
        msgs = [] if quiet else [f"{name}: Warning: file is empty"]
        if msgs and werror:
            bad = True
        done = True
    else:
        v = judge.model(src, (WERROR if werror else 0) | (QUIET if quiet else 0), MODULES.get(name, ()))
        msgs, bad, done = v.lines(name), not v.ok, False
    if color:
        msgs = [m.replace(": Warning: ", ": \x1b[1m\x1b[93mWarning\x1b[0m: ", 1).replace(": Compilation error: ", ": \x1b[1m\x1b[91mCompilation error\x1b[0m: ", 1) for m in msgs]
    err = "".join(m + "\n" for m in msgs)
    if bad or done:
        return Pred(int(bad), err)
    opt = next((x for x in ("O1", "O2", "O3") if x in o), "")
    cg = (name, "g" in o, opt)
    nowhere = out is not None and (out in ("nodir/out", "sub", ""))
    if "cb" in o:
        key = ("c", name, "g" in o)
        target = out if out is not None else "-" if "E" in o else default_name(name, "c")
    elif "E" in o:
        key = ("ir",) + cg
        target = out if out is not None else "-"
    else:
        key = ("asm" if "S" in o else "obj",) + cg
        target = out if out is not None and ("S" in o or "c" in o) else default_name(name, "s" if "S" in o else "o")
        if out == "-" and "S" not in o:
            return Pred(1, err + "skull: cannot print binary file to stdout\n")
    exe = out if out is not None else name[:-3]
    if nowhere and ("cb" in o or "E" in o or "S" in o or "c" in o):
        return Pred(1, ANY)
    if "cb" in o or "E" in o or "S" in o or "c" in o:
        return Pred(0, err, out=key) if target == "-" else Pred(0, err, files={target: key})
    if FILES.get(exe, 0) is None or exe == "sub":
        return Pred(1, err + f'skull: "{exe}" is a directory not a file\n')
    made = exe
    for a, b in zip(extra, extra[1:]):
        if a == "-o":
            made = b
    if made in ("nodir/out", "sub", ""):
        return Pred(1, ANY, link=(target, exe, extra))
    return Pred(0, err, files={made: ("bin",) + cg if "ok.sk" not in extra else ANY}, link=(target, exe, extra))


CANON = {"ir": ["-E"], "asm": ["-S", "-o", "-"], "obj": ["-c", "-o", "o"], "c": ["--c-backend", "-o", "-"], "bin": ["-o", "o"]}


def content(c, key):
    """The bytes of an output, from the plainest command line that asks for it."""
    if key not in c.cache:
        kind, name, g = key[:3]
        args = [name] + CANON[kind] + (["-g"] if g else []) + (["-" + key[3]] if len(key) > 3 and key[3] else [])
        r = c.run(args, FILES)
        c.cache[key] = r.files.get("o", b"") if kind in ("obj", "bin") else r.out
    return c.cache[key]


def sane(c, key):
    b = content(c, key)
    kind, name, g = key[:3]
    if kind == "ir" and (b"ModuleID" not in b or (b"DILocation" in b) != g):
        return f"IR of {key} is not what was asked for: {b[:300]!r}"
    if kind == "asm" and (b".text" not in b or (b".loc" in b) != g):
        return f"assembly of {key} is not what was asked for: {b[:300]!r}"
    if kind in ("obj", "bin") and (not b.startswith(b"\x7fELF") or (b".debug_line" in b) != g):
        return f"object of {key} is not what was asked for"
    if kind == "bin" and b"_start" not in b:
        return f"object of {key} cannot be executed"
    if kind == "c" and (b"int main(void)" not in b or (b"#line" in b) != g):
        return f"C of {key} is not what was asked for: {b[:300]!r}"
    if kind != "c" and key[3] and name == "ok.sk" and b == content(c, key[:3] + ("",)):
        return f"-{key[3]} has no effect on {key}"
    return None


def same(c, key, got):
    if key is ANY:
        return None
    if isinstance(key, bytes):
        return None if got == key else f"expected output {key!r}, got {got[:300]!r}"
    if got != content(c, key):
        return f"output differs from that of the plain command for {key}: {got[:200]!r}"
    return sane(c, key)


def compare(c, p, r):
    if r.rc != p.rc:
        return f"expected status {p.rc}, got {r.brief()}"
    if p.err is ANY:
        if not r.err.strip():
            return f"fails without saying why: {r.brief()}"
    elif sorted(r.err.split("\n")) != sorted(p.err.split("\n")):
        return f"expected on stderr {p.err!r}, got {r.err!r}"
    if p.out is None:
        if r.out:
            return f"unexpected output {r.out[:300]!r}"
    else:
        bad = same(c, p.out, r.out)
        if bad:
            return "stdout: " + bad
    if p.rc and p.files:
        extra = set(r.files) - set(p.files)
    else:
        extra = set(r.files) ^ set(p.files)
    if extra:
        return f"files {sorted(r.files)}, expected {sorted(p.files)}"
    for n, k in p.files.items():
        if n in r.files:
            bad = same(c, k, r.files[n])
            if bad:
                return f"{n}: {bad}"
    if p.link is None:
        if r.cc:
            return f"cc was called: {r.cc}"
    else:
        if len(r.cc) != 1:
            return f"cc was called {len(r.cc)} times"
        a, (obj, exe, more) = r.cc[0], p.link
        if obj not in a or ["-o", exe] not in [a[i:i + 2] for i in range(len(a))] or more not in [a[i:i + len(more)] for i in range(len(a))]:
            return f"cc was called with {a}, expected {p.link}"
    return None


def check(ctx, item):
    args, env = list(item[0]), dict(item[1])
    c = cli.get(ctx)
    if len(item) > 2:
        return real(ctx, c, args, env, item[2])
    stale = STALE if env.pop("STALE", None) else {}
    p = predict(args, env)
    if p.link and (p.link[1].startswith("-") or p.link[2][-1:] == ["-o"]):
        ctx.outcome("unspecified")
        return None
    r = c.run(args, {**FILES, **stale}, env)
    ctx.outcome("help or version" if p.out in (USAGE.encode(), VERSION.encode()) else "refused" if p.rc else "executable" if p.link else "output")
    if p.rc == 0:
        ctx.nontrivial()
    return compare(c, p, r)


def real(ctx, c, args, env, want):
    """With the system's cc; want: exit status of the program, or None: linking fails."""
    r = c.run(args, FILES, env, fake=False)
    name = next(a for a in args if a.endswith(".sk"))
    exe = args[args.index("-o") + 1] if "-o" in args else name[:-3]
    ctx.nontrivial()
    if want is None:
        if r.rc == 0 or not r.err.strip() or r.files:
            return f"linking must fail: {r.brief()}"
        return None
    if r.rc or r.err or r.out or set(r.files) != {exe}:
        return f"should produce only {exe}: {r.brief()}"
    import subprocess
    got = subprocess.run([c.dir + "/" + exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
    if got.returncode != want or got.stdout:
        return f"{exe} exits with {got.returncode}, expected {want}"
    return None


def flat(units):
    return tuple(a for u in units for a in u)


def sequences(units, k, file, positions=None):
    for n in range(k + 1):
        for us in itertools.product(units, repeat=n):
            for pos in range(n + 1) if positions is None else sorted({p if p >= 0 else n + 1 + p for p in positions}):
                if pos <= n:
                    yield flat(us[:pos] + ((file,),) + us[pos:])


def short(env=()):
    for s in sequences(FLAGS + ODD, 2, "ok.sk"):
        yield (s, env)
    for us in itertools.product(FLAGS + ODD, repeat=2):
        yield (flat(us), env)


def all_files():
    for f in list(FILES) + ["missing.sk", "sub", "sub/missing.sk", "nodir/x.sk"]:
        for e in ((), (("COLOR", "1"),), (("COLOR", "0"),), (("COLOR", ""),)):
            for s in sequences(FLAGS + [("--", "-no-pie")], 1, f):
                yield (s, e)
        if f in ("warn.sk", "bad.sk", "empty.sk", "dir.sk", "sub/ok.sk", "imp.sk", "missing.sk"):
            for s in sequences(FLAGS + [("--", "-no-pie")], 2, f, (0,)):
                yield (s, ())


def longer(k):
    for s in sequences(FLAGS, k, "ok.sk", (0, -1)):
        yield (s, ())


def subsets():
    for mode in ((), ("-S",), ("-E",), ("-c",), ("--c-backend",), ("--c-backend", "-E"), ("-c", "--c-backend")):
        for rest in itertools.product(((), ("-O1",), ("-O2",), ("-O3",)), ((), ("-g",)), ((), ("-q",), ("--werror",)), ((), ("--llvm-no-verify",)), ((), ("--color",)),
                                      ((), ("-o", "out"), ("-o", "-"), ("-o", "sub/out"))):
            for f in ("ok.sk", "warn.sk", "bad.sk"):
                yield (mode + flat(rest) + (f,), ())


STALE = {n: b"old contents, longer than nothing\n" * 400 for n in ("ok", "bad", "warn", "sub/ok", "empty", ".ok.sk.s", ".ok.sk.c", ".warn.sk.s", ".bad.sk.c", "old.ll", "old.c", "old.s", "old.o")}


def stale():
    """Output files that exist already are replaced, and only by success."""
    for mode in ((), ("-S",), ("-S", "-o", "old.s"), ("-E", "-o", "old.ll"), ("-c", "-o", "old.o"), ("--c-backend",), ("--c-backend", "-o", "old.c")):
        for more in ((), ("-g",), ("-O2",), ("--werror",), ("-q",)):
            for f in ("ok.sk", "warn.sk", "bad.sk", "both.sk", "sub/ok.sk", "empty.sk", "space.sk", "missing.sk"):
                yield ((f,) + mode + more, (("STALE", "1"),))


def with_cc():
    for fl in [()] + FLAGS[4:10] + [("-o", "out"), ("--llvm-no-verify",), ("--color",), ("--", "-no-pie"), ("-g", "-O2")]:
        for f, want in (("ok.sk", 6), ("imp.sk", 2), ("sub/ok.sk", 6), ("a b$x'y\".sk", 6), ("ext.sk", None)):
            yield ((f,) + fl, (), want)


SIZES = [1, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 10000, 16384, 32768, 65535, 65536, 100000, 120000]


def sized():
    """Arguments, names and paths of all sizes."""
    for n in SIZES:
        for mode in ((), ("-g", "-O2"), ("-q",)):
            yield (("ok.sk",) + mode + ("--", "-D" + "x" * n), ())
            yield (("warn.sk",) + mode + ("--", "-lm", "a" * n, "-lc"), ())
            if n <= 65536:    # a command line has a limit of its own (128 KB)
                yield (("ok.sk",) + mode + ("--",) + ("-Dxyzxyz",) * (n // 9 + 1) + ("-lc",), ())
                yield (("ok.sk",) + mode + ("--",) + ("$x'\"",) * (n // 20 + 1) + ("-lc",), ())
        if n <= 255:
            for mode in ((), ("-c",), ("-S",), ("-E",), ("--c-backend",), ("-g",)):
                yield (("ok.sk",) + mode + ("-o", "o" * n), ())
                yield (("ok.sk",) + mode + ("-o", "'" * n), ())
                yield (("-o", "sub/" + "o" * n) + mode + ("warn.sk",), ())


def families(tier):
    q = tier == "quick"
    return [("no arguments", lambda: [((), ()), ((), (("COLOR", "1"),))]),
            ("options and oddities, two at a time", short),
            ("every file", all_files),
            ("option sequences", lambda: longer(3 if q else 4)),
            ("valid option sets", subsets), ("sizes", sized),
            ("outputs that exist already", stale),
            ("with the system's cc", with_cc)]


def run(rep, tier):
    build.build("cli", "plain")
    build.tool("fakecc")
    std.sweep(rep, families(tier), check, (),
              rule="each command line is run once in a scratch directory with the listed files; non-trivial: the command has to succeed")


def replay(item):
    return std.replay_with(check, item, ())
