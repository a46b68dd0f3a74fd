"""Debug information (-g): programs are executed under a debugger, and what it
shows at every call of an external function (functions, files, lines, values of
arguments, locals and globals, of every frame) is compared with the reference
interpreter."""
import itertools
import json
import os
import re

from vlib import build, gen, judge, ladders, native, ref, std
from vlib.client import CBACK, DEBUG, OBJ, WANT
from vlib.interp import Cell, Cut, Interp, externals_known
from checks import c08, c10, c11, c14

DEPTH, RUNS, STOPS = 2, 4, 25


class Frame:
    __slots__ = ("fn", "vars", "blocks", "line")

    def __init__(self, fn, vars_):
        self.fn, self.vars, self.blocks, self.line = fn, vars_, [], 0


def defs(nodes):
    return [n.sym for n in nodes if n.kind == "def" and n.sym is not None and n.sym.kind == "var"]


class Debugged(Interp):
    """Also knows what a debugger has to show.  stmt: calls are shown on the
    line of their statement (C backend), not on their own."""

    def __init__(self, v, stmt):
        super().__init__(v, DEPTH)
        self.all_globals, self.lines = {}, {}

        def exprs(e, line):
            if e.op == "call":
                self.lines[id(e)] = line if stmt else e.tok.loc[0]
            for x in (e.lhs, e.rhs, *(e.args or ())):
                if x is not None:
                    exprs(x, line)

        def walk(nodes):
            for n in nodes:
                if n.expr is not None:
                    exprs(n.expr, n.tok.loc[0])
                if n.kind == "def" and n.sym is not None and n.sym.kind == "var" and n.sym.func is v.main:
                    self.all_globals.setdefault(n.sym.name, []).append(n.sym)
                if n.child:
                    walk(n.child)
        walk(v.nodes)

    def run(self, script):
        self.stops = []
        self.stack = [Frame(None, {})]
        return super().run(script)

    def block(self, nodes):
        f = self.stack[-1]
        f.vars = self.frame
        ds = defs(nodes)
        for y in ds:
            f.vars.pop(y.uid, None)
        f.blocks.append(ds)
        try:
            super().block(nodes)
        finally:
            f.blocks.pop()

    def call(self, f, args):
        if f.external:
            return self.external(f.name, args)
        fr = Frame(f, {})
        self.stack.append(fr)
        try:
            return super().call(f, args)
        finally:
            self.stack.pop()

    def ex(self, e):
        if e.op == "call":
            args = [self.ex(a) for a in e.args]
            self.stack[-1].line = self.lines[id(e)]
            return self.call(e.sym, args)
        return super().ex(e)

    def external(self, name, a):
        self.stops.append([self.show(k) for k in range(len(self.stack) - 1, -1, -1)])
        if len(self.stops) >= STOPS:
            raise Cut
        return super().external(name, a)

    def show(self, k):
        fr = self.stack[k]
        local, must = {}, set()
        hidden = set()
        if fr.fn is not None:
            for y in fr.fn.psyms or ():
                local[y.name] = (y, self.value(fr.vars[y.uid], y))
                must.add(y.name)
            for ds in fr.blocks:
                for y in ds:
                    if y.name in local or y.uid not in fr.vars:
                        hidden.add(y.name)
                    else:
                        local[y.name] = (y, self.value(fr.vars[y.uid], y))
                        if not y.const:
                            must.add(y.name)
        glob = {n: (ys[0], self.value(self.globals[ys[0].uid], ys[0])) for n, ys in self.all_globals.items()
                if len(ys) == 1 and ys[0].uid in self.globals}
        return (fr.fn.name if fr.fn else None, fr.line, {n: v for n, v in local.items() if n not in hidden}, must - hidden, glob)

    def value(self, cell, y):
        return enc(cell.v)


def enc(v):
    if isinstance(v, Cell):
        return {"p": enc(v.v)}
    if isinstance(v, bool):
        return {"b": int(v)}
    if isinstance(v, int):
        return {"i": v}
    if isinstance(v, float):
        return {"f": v.hex()}
    return {"s": v.hex()}


def bools(v):
    return v is not None and ("b" in v or bools(v.get("p")))


def differ(name, want, got, must, native_):
    """What is wrong with how a variable is shown."""
    y, w = want
    if got is None:
        return f"{name} is not shown" if must else None
    v, t, line = got[:3]
    # (C has no line of its own for the declaration of a global variable)
    if line != y.loc[0] and (native_ or len(got) > 3):
        return f"{name} is shown as declared on line {line}, not {y.loc[0]}"
    if native_ and t.replace(" ", "") not in types(y.type):
        return f"{name} is shown with type {t}, not {y.type}"
    if v == w or (native_ and bools(w) and known_bool(v, w)):
        return None
    if not must and (v is None or v == {"p": None}):
        return None
    return f"{name} is shown as {v}, not {w}"


STRICT = []  # not empty while the known finding is looked for


def known_bool(v, w):
    """Known finding: every Bool is shown as false, by the native backend."""
    if v is None or STRICT:
        return False
    if "b" in w:
        return v == {"b": 0}
    return "p" in v and known_bool(v["p"], w["p"])


def types(t):
    n = len(t) - len(t.lstrip("&"))
    base = t[n:]
    # gdb makes up the names of pointer types
    return {("char" if base == "Str" else base) + "*" * (n + (base == "Str")), t}


def compare(src, i, want, got, native_):
    if isinstance(got[0], str) or got[1] is not True:
        return f"the debugger reports {got[1]}"
    if len(got[0]) != len(want):
        return f"stops {len(got[0])} times, not {len(want)}"
    for k, (w, g) in enumerate(zip(want, got[0])):
        if isinstance(g, str):
            return f"stop {k}: {g}"
        n = next((j for j, f in enumerate(g) if f[0] == (f".m{i}" if native_ else "init")), None)
        if n is None:
            return f"stop {k}: top level is not in the backtrace {[f[:3] for f in g]}"
        g = g[:n + 1]
        names = [f[0] or (f".m{i}" if native_ else "init") for f in w]
        if [(a, f[1]) for a, f in zip(names, w)] != [(f[0], f[2]) for f in g] or len(w) != len(g):
            return f"stop {k}: backtrace {[(f[0], f[2]) for f in g]}, not {[(a, f[1]) for a, f in zip(names, w)]}"
        for wf, gf in zip(w, g):
            if not gf[1] or os.path.basename(gf[1]) != f"m{i}.sk":
                return f"stop {k}: in file {gf[1]}"
            if gf[3] is None:
                return f"stop {k}: nothing is known about {gf[0]}"
            for x, y in wf[2].items():
                d = differ(x, y, gf[3].get(x), x in wf[3], native_)
                if d:
                    return f"stop {k}, {gf[0]}: {d}"
            for x, y in wf[4].items():
                c = [z for z in gf[4].get(x, ()) if z[2] == y[0].loc[0]] or gf[4].get(x, [None])
                d = differ(x, y, c[0], native_, native_)
                if d:
                    return f"stop {k}, global {d}"
    return None


def simulate(src, cback):
    v = judge.model(src)
    if v is None or not v.ok or v.captures or not externals_known(v):
        return None, "not a program"
    try:
        if cback:
            c14.Shape(v)
        it = Debugged(v, cback)
        out, script = [], []
        while len(out) < RUNS:
            it.run(script)
            if it.points + len(it.stops) >= 300:
                return None, "too long"
            out.append(("".join(map(str, script)), it.stops))
            while script and script[-1] == 1:
                script.pop()
            if not script:
                break
            script[-1] = 1
        return out, None
    except c14.Inexpressible as x:
        return None, str(x)
    except (ref.Unspecified, RecursionError):
        return None, "unspecified"


def check(ctx, item):
    return check_ir(ctx, item) if isinstance(item, str) else check_run(ctx, item)


def check_run(ctx, item):
    cback, srcs = item
    want, w = {}, native.get(ctx)
    for i, s in enumerate(srcs):
        m, why = simulate(s, cback)
        if m is None:
            ctx.outcome(why)
            continue
        r = ctx.run(s, WANT | DEBUG | (CBACK if cback else OBJ), name=f"m{i}.sk")
        if r.crash or r.rc or not r.art:
            return f"no output for {s!r}: {r.brief()}"
        w.write(f"m{i}.c" if cback else f"m{i}.o", r.art)
        want[i] = m
        ctx.outcome("compared")
    if not want:
        return None
    ctx.nontrivial()
    if cback:
        for i in want:
            r = native.run(["gcc", "-std=gnu2x", "-w", "-O0", "-g", "-fno-pie", "-pipe", "-c", f"m{i}.c", "-o", f"m{i}.o"]
                           + [f"-D{n}={n}_{i}" for n in ("main", "_strcmp", "_int_pow", "_float_pow")], w.dir)
            if r.returncode:
                return f"the C for {srcs[i]!r} does not compile: {r.stdout[:600]}"
    w.write("t.c", "#include <stdint.h>\n" + "".join(f'int64_t f{i}(void) __asm__("{"main_" if cback else ".m"}{i}");\n' for i in want)
            + "int64_t (*const table[])(void) = {" + "".join(f"[{i}] = f{i}," for i in want) + "};\n")
    r = native.run(["gcc", "-w", "-no-pie", "-static", "t.c", build.tool("dbgrun", True)] + [f"m{i}.o" for i in want]
                   + ["-o", "t", "-lm"], w.dir)
    if r.returncode:
        return "does not link: " + r.stdout[-700:]
    jobs = [(i, s, STOPS) for i in want for s, _ in want[i]]
    w.write("jobs", json.dumps(jobs))
    r = native.run(["gdb", "-nx", "-q", "-batch", "-x", os.path.join(build.VERIF, "harness", "gdbwalk.py"), "t"], w.dir, 300,
                   dict(os.environ, JOBS=w.path("jobs"), HOME=w.dir))
    if not os.path.exists(w.path("jobs.out")):
        return "no answer from the debugger: " + r.stdout[-600:]
    res = iter(json.load(open(w.path("jobs.out"))))
    for i in want:
        for s, stops in want[i]:
            ctx.count("runs")
            ctx.count("stops", len(stops))
            ctx.count("frames", sum(len(x) for x in stops))
            d = compare(srcs[i], i, stops, next(res), not cback)
            if d:
                return f"{srcs[i]!r}, decisions {s!r}: {d}"
    return None


# ---- what is said about each instruction, function and variable

MD = re.compile(r"^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$", re.M)
LIST = re.compile(r"^!(\d+) = !\{(.*)\}$", re.M)
FIELD = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)')
DEFINE = re.compile(r"^define [^\n]*?@(\"[^\"]*\"|[\w.$]+)\(([^\n]*)\{$(.*?)^\}", re.M | re.S)
INST = re.compile(r"^  (?!  )(?:%\S+ = )?(\w+)( [^\n]*?)(?:, !dbg !(\d+))?$", re.M)
BUILTIN = {"_strcmp", "_int_pow", "_float_pow"}


class Module:
    def __init__(self, text):
        self.md, self.lists = {}, {m[1]: m[2] for m in LIST.finditer(text)}
        for m in MD.finditer(text):
            self.md[m[1]] = (m[2], {k: v.strip('"') for k, v in FIELD.findall(m[3])})
        self.funcs = {}
        for m in DEFINE.finditer(text):
            g = re.search(r"!dbg !(\d+)", m[2])
            self.funcs[g[1] if g else None] = (m[1].strip('"'), m[3])

    def at(self, ref_):
        return self.md[ref_.strip(" !")]

    def type(self, ref_):
        if ref_.strip() == "null":
            return "Void"
        k, f = self.at(ref_)
        if f.get("tag") == "DW_TAG_pointer_type":
            n, b = f.get("name"), self.type(f["baseType"])
            if n == "Str":
                return "Str" if b == "char" else "?"
            return n if n == "&" + b else "?"
        return f.get("name")

    def owner(self, scope):
        """The subprogram that a scope lies in, and where the blocks between begin."""
        blocks = ()
        k, f = self.at(scope)
        while k == "DILexicalBlock":
            blocks = ((int(f["line"]), int(f["column"])),) + blocks
            scope = f["scope"]
            k, f = self.at(scope)
        return scope.strip(" !") if k == "DISubprogram" else None, blocks

    def locations(self, sub, body, where):
        """kind -> sorted [(line, column)] of the instructions of a function"""
        out = {"call": [], "store": [], "ret": [], "any": []}
        for op, rest, dbg in INST.findall(body):
            if op == "tail":
                op = "call"
            callee = re.search(r'@("[^"]*"|[\w.$]+)\(', rest) if op == "call" else None
            if callee and (callee[1] in BUILTIN or callee[1].startswith("llvm.")):
                op = "builtin"
            if dbg:
                k, f = self.md[dbg]
                fn, blocks = self.owner(f["scope"])
                if fn != sub:
                    raise Wrong(f"{op}{rest} is said to be part of another function")
                loc = (int(f["line"]), int(f["column"]))
                if where.get(loc, blocks) != blocks:
                    raise Wrong(f"{op} at {loc} is said to be in the blocks that begin at {blocks}, not {where[loc]}")
                out["any"].append(loc)
                if op in out:
                    out[op].append(loc)
            elif op == "call":
                raise Wrong(f"nothing is said about where {op}{rest} is")
        return out


class Wrong(Exception):
    pass


def expected(v):
    """[(function, its body's nodes without inner functions, {where something is:
    where the control structures around it begin})], top level first"""
    out = [(None, [], {})]

    def walk(nodes, k, blocks):
        for n in nodes:
            if n.kind == "func":
                if n.child is not None and not n.external:
                    out.append((n.sym, [], {}))
                    walk(n.child, len(out) - 1, ())
                continue
            out[k][1].append(n)
            out[k][2][n.tok.loc] = blocks
            if n.kind == "def" and n.sym is not None:
                out[k][2][n.sym.loc] = blocks
            if n.expr is not None:
                for loc in tokens(n.expr):
                    out[k][2][loc] = blocks
            if n.child:
                walk(n.child, k, blocks + (n.tok.loc,) * (n.kind in ("if", "elif", "else", "while", "namespace")))
            if ref.ends_flow([n]):
                break
    walk(v.nodes, 0, ())
    return out


def tokens(e):
    for x in (e.lhs, e.rhs, *(e.args or ())):
        if x is not None:
            yield from tokens(x)
    if e.tok is not None:
        yield e.tok.loc


def calls(e):
    for x in (e.lhs, e.rhs, *(e.args or ())):
        if x is not None:
            yield from calls(x)
    if e.op == "call":
        yield e.tok.loc


def varies(e):
    return (e.op == "id" and not e.sym.const) or any(varies(x) for x in (e.lhs, e.rhs, *(e.args or ())) if x is not None)


def check_ir(ctx, src):
    v = judge.model(src)
    if v is None or not v.ok or v.captures:
        return None
    r = ctx.run(src, WANT | DEBUG)
    if r.crash or r.rc or not r.art:
        return f"no output: {r.brief()}"
    ctx.nontrivial()
    ctx.outcome("described")
    try:
        return described(ctx, v, Module(r.art.decode("utf-8", "surrogateescape")))
    except Wrong as x:
        return str(x)


def described(ctx, v, m):
    subs = {}
    for ref_, (k, f) in m.md.items():
        if k == "DISubprogram":
            subs[f["name"], int(f["line"])] = (ref_, f)
        if k == "DIFile" and f.get("filename") != "m.sk":
            return f"file {f}"
    locals_, globals_ = {}, []
    for ref_, (k, f) in m.md.items():
        if k == "DILocalVariable":
            fn, blocks = m.owner(f["scope"])
            locals_.setdefault(fn, []).append((f["name"], int(f["line"]), m.type(f["type"]), int(f.get("arg", 0)), blocks))
        elif k == "DIGlobalVariable":
            globals_.append((f["name"], int(f["line"]), m.type(f["type"]), f["isLocal"]))
    exp = expected(v)
    if len(exp) != len(subs):
        return f"{len(subs)} functions are described, not {len(exp)}: {sorted(subs)}"
    for fn, nodes, where in exp:
        key = (fn.name, fn.loc[0]) if fn else (".m", 1)
        if key not in subs:
            return f"no description of {key}: {sorted(subs)}"
        sub, f = subs[key]
        if sub not in m.funcs:
            return f"the description of {key} is not attached to a function"
        if fn:
            got = [m.type(x) for x in m.lists[m.at(f["type"])[1]["types"].lstrip("!")].split(",")]
            want = [fn.ret or "Void"] + [y.type for y in fn.psyms or ()]
            if got != want:
                return f"{key} is described with types {got}, not {want}"
        locs = m.locations(sub, m.funcs[sub][1], where)
        ctx.count("instructions", len(locs["any"]))
        want = {"call": [], "store": [], "ret": []}
        conds, vs = [], []
        for n in nodes:
            if n.expr is not None and not (n.kind == "def" and (n.sym is None or n.sym.kind != "var")):
                want["call"] += calls(n.expr)
            if n.kind == "assign":
                want["store"].append(n.tok.loc)
            elif n.kind == "return":
                want["ret"].append(n.tok.loc)
            elif n.kind in ("if", "elif", "while") and varies(n.expr):
                conds.append(n.expr)
            elif n.kind == "def" and n.sym is not None and n.sym.kind == "var":
                vs.append(n.sym)
        if sorted(want["call"]) != sorted(locs["call"]):
            return f"{key}: calls at {sorted(locs['call'])}, not {sorted(want['call'])}"
        for k in ("store", "ret"):
            rest = list(locs[k])
            for loc in want[k]:
                if loc not in rest:
                    return f"{key}: {k}s at {sorted(locs[k])}, but one is at {loc}"
                rest.remove(loc)
            ok = {y.loc for y in vs} if k == "store" else {v.nodes[0].tok.loc} if not fn and v.nodes else set()
            if fn:
                ok.add(fn.loc)
            if any(x not in ok and not (k == "store" and noop(nodes, x)) for x in rest):
                return f"{key}: {k}s at {sorted(rest)} besides those of the program"
        for e in conds:
            if not any(x[0] == e.first().loc[0] for x in locs["any"]):
                return f"{key}: no instruction is at the condition on line {e.first().loc[0]}"
        if fn:
            want = sorted([(y.name, fn.loc[0], y.type, i + 1, ()) for i, y in enumerate(fn.psyms or ())]
                          + [(y.name, y.loc[0], y.type, 0, where[y.loc]) for y in vs])
            if want != sorted(locals_.get(sub, [])):
                return f"{key}: variables {sorted(locals_.get(sub, []))}, not {want}"
        else:
            want = sorted((y.name, y.loc[0], y.type, "false" if y.exported else "true") for y in vs)
            if want != sorted(globals_):
                return f"global variables {sorted(globals_)}, not {want}"
    return None


def noop(nodes, loc):
    return any(n.kind == "noop" and n.tok.loc == loc for n in nodes)


def spread(src):
    """src with other lines and columns."""
    out = []
    for i, line in enumerate(src.split("\n")):
        if not line:
            continue
        out += [""] * (i % 3) + ["# c"] * (i % 4 == 2) + [" " * (i % 4) + line]
    return "\n".join(out) + "\n"


def batches(progs, cback, size=16):
    seen = set()
    it = iter(progs)

    def fresh():
        for p in it:
            if p not in seen:
                seen.add(p)
                yield p
                yield spread(p)
    f = fresh()
    while True:
        b = tuple(itertools.islice(f, size))
        if not b:
            return
        yield (cback, b)


def families(tier):
    q = tier == "quick"
    n = 2 if q else 3
    progs = [("programs", lambda: gen.PROGRAMS), ("statements in contexts", lambda: gen.in_contexts(gen.CORE if q else gen.STMTS, 1)),
             ("trees at top level", lambda: c10.fam_main(n)), ("trees in functions", lambda: c10.fam_void(n)),
             ("trees in Int functions", lambda: c10.fam_int(n)),
             ("loops", lambda: c11.loops(n, True)), ("recursion", lambda: c11.recursion(n)),
             ("passing", lambda: c11.passing(n - 1, True)), ("evaluation order", c08.order)]
    progs += [(f"globals, {t}", (lambda t=t: c11.globals_(t, n - 1))) for t in c11.T]
    progs += [(f"locals, {t}", (lambda t=t: c11.locals_(t, n - 1))) for t in c11.T]
    big = [("programs", lambda: gen.PROGRAMS), ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
           ("statements in blocks", lambda: gen.in_blocks(gen.CORE, 2)), ("statement pairs", lambda: gen.sequences(gen.CORE, 2)),
           ("trees at top level", lambda: c10.fam_main(n + 2)), ("trees in functions", lambda: c10.fam_int(n + 2)),
           ("globals", lambda: c11.globals_("Int", n)), ("locals", lambda: c11.locals_("Str", n)),
           ("loops", lambda: c11.loops(n + 1, True)), ("recursion", lambda: c11.recursion(n + 1)),
           ("passing", lambda: c11.passing(n, True)), ("ladders", lambda: ladders.all_ladders(tier))]
    return ([(a + ", IR", (lambda g=g: (y for x in g() for y in (x, spread(x))))) for a, g in big]
            + [(a, (lambda g=g: batches(g(), False))) for a, g in progs]
            + [(a + ", C", (lambda g=g: batches(g(), True))) for a, g in progs])


def run(rep, tier):
    build.tool("dbgrun", True)
    item = (False, (judge.pre("mut a := true\neB(a)\n"),))
    STRICT.append(1)
    text = std.replay_with(check, item)
    STRICT.clear()
    if text and "bool-size" in rep.known_cases and "is shown as {'b': 0}, not {'b': 1}" in text:
        rep.known.append(rep.known_cases["bool-size"])
    elif text:
        rep.violations.append(("Bool", item, text))
    std.sweep(rep, families(tier), check,
              rule="IR families: every instruction, function and variable of the module emitted for each program; other families: each "
                   "program is executed under a debugger on every decision script of depth 2, stopping at every external call")


def replay(item):
    return std.replay_with(check, item)
