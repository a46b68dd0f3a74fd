"""Imports: every placement of files, directories and links around the
importing file, every spelling of its path, every place and order of imports;
real processes in scratch directories."""
import itertools

from vlib import build, cli, gen, judge, std

NONE = "No such file or directory"
# what can be found where a module is looked for: (entry of the world, what opening it says)
STATES = {
    "absent": ((), NONE), "file": (("x := 1\n",), None), "empty": (("",), None), "wrong": (("this is not (a program\n\xff",), None),
    "link": ((("link", "/dev/null"),), None), "dangling": ((("link", "nowhere.sk"),), NONE), "loop": ((("link", "{name}.sk"),), "Too many levels of symbolic links"),
    "through a file": ((("link", "{file}/x.sk"),), "Not a directory"),
}
DIRS = ["", "d", "d/e"]
# (working directory, path, directory the file is in)
PATHS = [("", "m.sk", ""), ("", "./m.sk", ""), ("", "d/m.sk", "d"), ("", "./d/m.sk", "d"), ("", "d//m.sk", "d"), ("", "d/../m.sk", ""), ("", "d/e/m.sk", "d/e"), ("", "d/./e/../m.sk", "d"),
         ("d", "m.sk", "d"), ("d", "../m.sk", ""), ("d", "e/m.sk", "d/e"), ("d/e", "../m.sk", "d"), ("d/e", "../../m.sk", ""), ("d/e", "../../d/m.sk", "d"), ("", "ABS/m.sk", ""), ("d", "ABS/m.sk", ""),
         ("", "ABS/d/m.sk", "d"), ("d/e", "ABS/d/../d/e/m.sk", "d/e"), ("", "s/m.sk", "d"), ("d", "../s/e/m.sk", "d/e")]
NAMES = ["lib", "m", "a", "lib2", "x1_y", "\u00e9", "\u2603x", "LIB", "sk", "n.a", "a.b.c", "Int", "l" * 252, "l" * 253, "l" * 251 + "\u00e9"]


def world(states, name):
    """files, and what importing says in each directory"""
    files, say = {"m.sk": "", "d/m.sk": "", "d/e/m.sk": "", "s": ("link", "d")}, {}
    for d, s in zip(DIRS, states):
        entry, why = STATES[s]
        p = (d + "/" if d else "") + name + ".sk"
        for e in entry:
            files[p] = ("link", e[1].format(name=name, file="m.sk")) if isinstance(e, tuple) else e
        say[d] = why
    return files, say


def check(ctx, item):
    if item[0] == "root":
        return root(ctx, *item[1:])
    path, files, say, src, opts = item
    cwd, p, d = path
    c = cli.get(ctx)
    files = dict(files)
    where = (d + "/" if d else "") + "m.sk"
    files = {k: (src if k == where else "noop\n" if k.endswith("m.sk") and v == "" else v) for k, v in files.items()}
    v = judge.model(src, 0, dict(say))
    if v is None:
        ctx.outcome("unspecified")
        return None
    p = p.replace("ABS", c.dir)
    r = c.run([p, "-o", "-"] + list(opts), files, cwd=cwd)
    ctx.nontrivial()
    ctx.outcome("accepted" if v.ok else "refused")
    want = "".join(x + "\n" for x in v.lines(p))
    if r.rc != (0 if v.ok else 1) or r.err != want or r.files or bool(r.out) != v.ok:
        return f"{p} in {cwd or '.'}: expected {want!r}, got {r.brief()}"
    return None


def root(ctx, name, module):
    """The file's directory is the root: nothing in the working directory counts."""
    src = f"import {module}\n"
    v = judge.model(src, 0, {})
    r = ctx.run(src, 0, name=name)
    ctx.nontrivial()
    want = "".join(x + "\n" for x in v.lines(name))
    if r.crash or r.rc != 1 or r.msgs != want:
        return f"{name}: expected {want!r}, got {r.brief()}"
    return None


def worlds():
    for states in itertools.product(STATES, repeat=3):
        files, say = world(states, "lib")
        if sum(s not in ("absent", "file") for s in states) > 1:
            continue
        for p in PATHS:
            yield (p, files, {"lib": say[p[2]]}, "import lib\n", ("-E",))


FORMS = ["import @\n", "noop\nimport @\nnoop\n", "if true {\nimport @\n}\n", "f() {\nimport @\n}\nf()\n", "while true {\nimport @\nbreak\n}\n", "namespace n {\nimport @\n}\n", "import @, import @\n",
         "import @ # c\n", "#{ c #} import @\n", "@ := 1\nimport @\nreturn @\n", "import @\n@ := 1\nreturn @\n", "f() {\nif true {\nnamespace n {\nimport @\n}\n}\n}\nf()\n", "import @",
         "import\n@\n", "import \"@\"\n", "import @ @\n", "import @.sk\n", "import ./@\n", "return 1\nimport @\n", "if false {\nnoop\n}\nelse {\nimport @\n}\n"]


def forms():
    for f, s, n in itertools.product(FORMS, STATES, ("lib", "m2")):
        for p in PATHS[:4] + PATHS[8:9]:
            files, say = world([s] * 3, n)
            for o in (("-E",), ("-c", "-E"), ("-S",), ("--c-backend",), ("-E", "-g"), ("-E", "-O2")):
                if o == ("-c", "-E"):
                    continue
                yield (p, files, {n: say[p[2]]}, f.replace("@", n), o)


def names():
    for n in NAMES:
        for s in ("absent", "file"):
            for p in PATHS[:3]:
                long = len(n.encode()) > 252
                near = len(n.encode()) > 200
                files, say = world([s if not long else "absent"] * 3, n)
                for other in ((), ("noext",), ("upper",), ("prefix",), ("dir",)):
                    fs = dict(files)
                    for d in DIRS:
                        q = (d + "/" if d else "")
                        for o in other:
                            if not near and n != "LIB":
                                fs[q + {"noext": n, "upper": n + ".SK", "prefix": n + "2.sk", "dir": n + "d/x.sk"}[o]] = "x := 1\n"
                    if n == "m":
                        say = {d: None for d in DIRS}
                    yield (p, fs, {n: "File name too long" if long else say[p[2]]}, f"import {n}\n", ("-E",))


def several(k):
    """Files with several imports, in all orders: each is looked for on its own."""
    mods = {"a": "file", "b": "absent", "c": "loop", "d": "dangling", "e": "empty"}
    files, say = {"m.sk": "", "d/m.sk": "", "d/e/m.sk": "", "s": ("link", "d")}, {}
    for n, s in mods.items():
        f, w = world([s] * 3, n)
        files.update({x: y for x, y in f.items() if x.endswith(n + ".sk")})
        say[n] = w[""]
    for n in range(1, k + 1):
        for ms in itertools.product(mods, repeat=n):
            src = "".join(f"import {m}\n" for m in ms)
            for p in PATHS[:3] if n < k else PATHS[:1]:
                yield (p, files, say, src, ("-E",))
                yield (p, files, say, "".join(f"f{i}() {{\nimport {m}\n}}\nf{i}()\n" for i, m in enumerate(ms)), ("-E",))


def similar(k):
    """Modules whose names begin or end like others, some there and some not."""
    pool = ["lib", "lib2", "li", "ib", "lib_", "Lib", "l" * 70, "l" * 71]
    for there in itertools.product((0, 1), repeat=4):
        have = [p for i, p in enumerate(pool) if there[i % 4]]
        files = {"m.sk": "", "s": ("link", "."), **{h + ".sk": "" for h in have}}
        say = {p: None if p in have else NONE for p in pool}
        for n in range(2, k + 1):
            for ms in itertools.product(pool, repeat=n):
                yield (("", "m.sk", ""), files, say, "".join(f"import {m}\n" for m in ms), ("-E",))


def roots():
    for n in ("/m.sk", "/mod1.sk", "//m.sk", "/./m.sk", "/nowhere/m.sk", "/nowhere/../m.sk"):
        for m in ("m", "mod1", "lib"):
            yield ("root", n, m)


def families(tier):
    q = tier == "quick"
    return [("what is found where", worlds), ("forms of the statement", forms), ("names", names), ("several imports", lambda: several(3 if q else 4)), ("names like others", lambda: similar(2 if q else 3)), ("files at the root", roots)]


def run(rep, tier):
    build.build("cli", "plain")
    build.tool("fakecc")
    std.sweep(rep, families(tier), check, rule="each file is compiled once by the real command, in a scratch directory with the stated files, links and directories")


def replay(item):
    return std.replay_with(check, item)
