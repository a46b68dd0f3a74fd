"""Every single failing operation of every kind of run of the real command."""
import errno
import os

from vlib import build, cli, std

WARN = "external puts(s: Str)\nputs(\"a\")\nx := 1\n"
CLEAN = "external puts(s: Str)\nputs(\"a\")\n"
POW = "external eI(x: Int)\neI(2 ^ 3)\nreturn 4\n"
IMPORT = "import mod1\nnoop\n"
BAD = "x := nope\n"
BIG = "external eI(x: Int)\n" + "eI(1)\n" * 3000
UTF = "external eS(x: Str)\neS(\"\u00e9\u2603\")\n"
FILES = {"mod1.sk": "x := 1\n"}
STALE = {"m": b"old executable", ".m.sk.o": b"old object", ".m.sk.s": b"old assembly", ".m.sk.ll": b"old ir", ".m.sk.c": b"old c", "out": b"old output"}

RUNS = {
    "executable": (CLEAN, [], {}), "executable, warning": (WARN, [], {}), "executable, -O2 -g": (POW, ["-O2", "-g"], {}), "executable, extra arguments": (CLEAN, ["--", "-no-pie", "-s"], {}),
    "executable over an old one": (CLEAN, [], STALE), "object": (CLEAN, ["-c"], {}), "object over an old one": (POW, ["-c"], STALE), "object -o": (WARN, ["-c", "-o", "out"], {}),
    "object -o over an old one": (CLEAN, ["-c", "-o", "out"], STALE), "assembly": (CLEAN, ["-S"], {}), "assembly, over an old one, -O1": (POW, ["-S", "-O1"], STALE), "assembly to stdout": (CLEAN, ["-S", "-o", "-"], {}),
    "IR": (CLEAN, ["-E"], {}), "IR over an old one": (WARN, ["-E"], STALE), "IR -o": (CLEAN, ["-E", "-o", "out"], {}), "IR to stdout": (CLEAN, ["-E", "-o", "-"], {}),
    "C": (CLEAN, ["--c-backend", "-E"], {}), "C over an old one": (POW, ["--c-backend", "-E"], STALE), "C -o": (WARN, ["--c-backend", "-E", "-o", "out"], {}), "C to stdout": (POW, ["--c-backend", "-E", "-o", "-"], {}),
    "C object": (CLEAN, ["--c-backend", "-c"], {}), "C executable": (CLEAN, ["--c-backend"], {}), "C executable over an old one": (CLEAN, ["--c-backend"], STALE),
    "import": (IMPORT, ["-c"], {}), "import executable": (IMPORT, [], {}), "rejected": (BAD, [], {}), "rejected, object": (BAD, ["-c"], STALE), "warnings as errors": (WARN, ["-c", "--werror"], {}),
    "empty": ("", ["-c"], {}), "large object": (BIG, ["-c"], {}), "large IR": (BIG, ["-E"], {}), "large C": (BIG, ["--c-backend", "-E"], {}), "large assembly to stdout": (BIG, ["-S", "-o", "-"], {}),
    "large C to stdout": (BIG, ["--c-backend", "-E", "-o", "-"], {}), "large IR to stdout": (BIG, ["-E", "-o", "-"], {}), "non-ASCII": (UTF, ["-c"], {}), "non-ASCII C": (UTF, ["--c-backend", "-E"], {}), "help": (None, ["-h"], {}), "version": (None, ["-v"], {}), "usage": (None, [], {}),
    "no such file": (None, ["nope.sk"], {}),
}
E_ = {"open": ["ENOENT", "EACCES", "EMFILE", "ENOSPC"], "read": ["EIO", "short"], "readv": ["EIO"], "write": ["ENOSPC", "EIO", "short"], "writev": ["ENOSPC"], "close": ["EIO", "ENOSPC"], "lseek": ["EIO"], "fstat": ["EIO"],
      "stat": ["EACCES"], "access": ["EACCES"], "unlink": ["EACCES"], "rename": ["ENOSPC"], "mkdir": ["ENOSPC"], "ftruncate": ["EIO"], "fsync": ["EIO"], "fallocate": ["ENOSPC"], "dup": ["EMFILE"], "pipe": ["EMFILE"], "getcwd": ["ENOENT"],
      "fork": ["EAGAIN", "ENOMEM"], "exec": ["ENOENT", "EACCES", "-9", "-11", "-13"], "wait": ["ECHILD"], "memory": []}


def argv(run):
    src, args, old = RUNS[run]
    return ([] if src is None else ["m.sk"]) + args, dict(FILES, **({} if src is None else {"m.sk": src}), **old)


def execute(c, run, fault="none:0", how="0", sticky=0):
    args, files = argv(run)
    log = c.top + "/log"
    exe = build.build("cli", "plain", ("marker.c",))
    code = how if how == "short" or how.lstrip("-").isdigit() else str(getattr(errno, how))
    r = c.run(args, files, prefix=[build.tool("faulter"), log, fault, code, str(sticky)], exe=exe)
    calls = []
    with open(log) as f:
        for line in f:
            w = line.rstrip("\n").split(" ", 4)
            if len(w) == 5:
                calls.append((w[0], int(w[1]), int(w[2]), w[3] == "1", w[4]))
    return r, calls


class Memo:
    def __init__(self):
        self.d = {}

    def close(self):
        pass


def plan(calls):
    """[(fault, how, sticky)] for the calls of a run"""
    for name, n, fd, parent, path in calls:
        for how in E_.get(name, ["EIO"]):
            if how.startswith("-") and parent:
                continue
            yield (f"{name}:{n}", how, 0, fd, path)
            if name in ("write", "open", "read", "close") and how not in ("short",) and fd not in (1, 2):
                yield (f"{name}:{n}", how, 1, fd, path)


def allocations(c, run, n=0, sticky=0):
    args, files = argv(run)
    cnt = c.top + "/count"
    if os.path.exists(cnt):
        os.unlink(cnt)
    r = c.run(args, files, exe=alloc_exe(), env={"ALLOC_FAIL": str(n), "ALLOC_STICKY": str(sticky), "ALLOC_COUNT": cnt})
    return r, int(open(cnt).read()) if os.path.exists(cnt) else -1


def alloc_exe():
    return build.build("cli", "plain", ("allocfault.c",), ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "strdup", "strndup"))])


def no_memory(ctx, run, n, sticky):
    c = cli.get(ctx)
    r, _ = allocations(c, run, n, sticky)
    ctx.nontrivial()
    ctx.outcome("allocation fails")
    if r.rc != 1 or not r.err.strip():
        return f"{run}: allocation {n} fails{' and all later ones' if sticky else ''}: {r.brief()}"
    return None


def memory(tier):
    c = cli.Cli()
    try:
        for run in RUNS:
            if RUNS[run][0] is BIG:
                continue
            _, n = allocations(c, run)
            for k in range(1, n + 1):
                for sticky in (0, 1):
                    yield ("memory", run, k, sticky)
    finally:
        c.close()


def child(ctx, run, env):
    """The C compiler fails, in every way a process can end."""
    c = cli.get(ctx)
    args, files = argv(run)
    r = c.run(args, files, env=env)
    ctx.nontrivial()
    ctx.outcome("cc fails")
    if r.rc == "hang" or not 1 <= r.rc < 128 or not r.err.strip():
        return f"{run}: cc ends with {env}: {r.brief()}"
    return None


def children(tier):
    runs = [r for r in RUNS if RUNS[r][0] not in (None, BIG) and "xecutable" in r and r[0] != "C"]
    for k, run in enumerate(runs):
        made = ({}, {"FAKECC_MADE": "1"})
        for code in range(1, 256) if k == 0 or tier != "quick" else (1, 2, 3, 4, 8, 126, 127, 128, 130, 139, 255):
            for m in made:
                yield ("child", run, dict(m, FAKECC_RC=str(code)))
        for sig in (1, 2, 3, 6, 8, 9, 11, 13, 14, 15):
            for m in made:
                yield ("child", run, dict(m, FAKECC_SIG=str(sig)))


def check(ctx, item):
    if item[0] == "child":
        return child(ctx, *item[1:])
    if item[0] == "memory":
        return no_memory(ctx, *item[1:])
    run, fault, how, sticky, fd, path = item
    c = cli.get(ctx)
    memo = ctx.local.setdefault("base", Memo())
    if run not in memo.d:
        memo.d[run] = execute(c, run)
    base, calls = memo.d[run]
    if fault == "none:0":
        return None
    r, calls = execute(c, run, fault, how, sticky)
    ctx.count("calls observed", len(calls))
    ctx.nontrivial()
    msg = judge(ctx, run, base, r, fault, how, fd)
    if msg:
        return f"{run}: {fault} ({path or fd}) {how}{' and all later ones' if sticky else ''}: {msg}: {r.brief()}"
    return None


def judge(ctx, run, base, r, fault, how, fd):
    if r.rc == "hang":
        return "hangs"
    if r.rc >= 128:
        return "crashes"
    to_user = fd == 2
    if r.rc == 0:
        if base.rc:
            return "reports success"
        ctx.outcome("no effect")
        if fault.startswith("unlink"):
            # the output is there, only a temporary file could not be removed
            if r.err.strip() == base.err.strip():
                return "does not say that a file could not be removed"
            return None if all(r.files.get(n) == b for n, b in base.files.items() if b != b"<removed>") else "reports success, but the files differ"
        if r.files != base.files:
            return f"reports success, but the files differ from those of the undisturbed run ({sorted(base.files)})"
        if r.out != base.out and not to_user:
            return "reports success, but stdout lacks output"
        if r.cc != base.cc:
            return "reports success, but cc ran differently"
        return None
    ctx.outcome("reported")
    if how == "short":
        return "a short transfer is not an error" if base.rc == 0 else None
    if not to_user and base.rc == 0 and r.err.strip() == base.err.strip() and r.out == base.out:
        return "fails without a message"
    if not to_user and not (r.err + r.out.decode("utf-8", "replace")).strip():
        return "fails without a message"
    return None


def faults(tier):
    c = cli.Cli()
    try:
        for run in RUNS:
            base, calls = execute(c, run)
            again, calls2 = execute(c, run)
            for f in plan(calls):
                yield (run,) + f
    finally:
        c.close()


def families(tier):
    items = list(faults(tier))
    mem = list(memory(tier))
    return [("failing system calls", lambda: iter(items)), ("failing allocations", lambda: iter(mem)), ("failing C compilers", lambda: children(tier))]


def run(rep, tier):
    build.build("cli", "plain", ("marker.c",))
    build.tool("faulter")
    alloc_exe()
    std.sweep(rep, families(tier), check, max_viol=1000 if os.environ.get("ALLV") else 3, rule="each system call of each run fails once with each error, alone and together with all later ones of its kind")


def replay(item):
    return std.replay_with(check, item)
