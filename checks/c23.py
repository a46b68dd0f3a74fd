"""Objects, assembly and executables of a program behave as the reference
interpreter says, on every decision script."""
import itertools
import os
import subprocess

from vlib import build, cli, gen, judge, ladders, native, std
from vlib.client import ASM, DEBUG, O1, O2, O3, OBJ, WANT
from checks import c08, c11
from checks.c13 import every

DEPTH, RUNS = 3, 8
FORMS = {"object": OBJ, "assembly": ASM, "object -O2": OBJ | O2, "assembly -O3": ASM | O3, "object -g": OBJ | DEBUG, "assembly -g -O1": ASM | DEBUG | O1}
EXTRA = [judge.pre(s) for s in [
    "return 0\n", "return 1\n", "return 255\n", "return 256\n", "return -1\n", "return 12345678901\n", "return vI(7)\n", "x := vI(300)\nreturn x\n", "noop\n", "if chB() {\nreturn 4\n}\n", "if chB() {\nreturn 4\n}\nreturn 5\n",
    "eI(vI(2) ^ vI(10))\n", "eF(vF(2.0) ^ vF(0.5))\n", 'eB(vS("a") is vS("a"))\neB(vS("a") is vS("ab"))\neB(vS("a") isnt vS("b"))\n', "eI(vI(17) mod vI(5))\n", "eF(vF(17.5) mod vF(5.0))\n",
    "eI(vI(2) ^ vI(3))\neF(vF(2.0) ^ vF(3.0))\neB(vS(\"x\") is vS(\"x\"))\nreturn 2 ^ vI(4)\n", 'eS("\u00e9\u2603\U0001f600")\n', 'eS("")\neS("a\\tb\\n\\"")\n', "eF(1.5)\neF(-0.0)\neF(Infinity)\neF(NaN)\neF(0.1)\n",
    "main() {\neI(1)\n}\nmain()\n", "exit() {\neI(2)\n}\nexit()\n", "exit := vI(3)\neI(exit)\n", "start() {\neI(3)\n}\nstart()\n", "if chB() {\nexit := vI(4)\neI(exit)\n}\n", "pow(a: Int) Int {\nreturn a\n}\neI(pow(2))\neF(vF(2.0) ^ vF(3.0))\n", "strcmp(a: Int) Int {\nreturn a\n}\neI(strcmp(2))\neB(vS(\"a\") is vS(\"a\"))\n",
    "f(a: Int, b: Int, c: Int, d: Int, e: Int, g: Int, h: Int, i: Int) Int {\nreturn a + b * c - d + e * g - h * i\n}\neI(f(1, 2, 3, 4, 5, 6, 7, 8))\n",
    "mut a := 1\nmut b := 2.5\nmut c := true\nmut d := 'x'\nmut e := \"s\"\nset() {\na = 2\nb = 3.5\nc = false\nd = 'y'\ne = \"t\"\n}\nset()\neI(a)\neF(b)\neB(c)\neR(d)\neS(e)\n",
    "memcpy := 1\nmalloc() Int {\nreturn memcpy\n}\neI(malloc())\n"]]


def check(ctx, item):
    kind, form = item[:2]
    return (objects if kind == "batch" else executable)(ctx, form, item[2])


def objects(ctx, form, srcs):
    opts = FORMS[form]
    want, arts = {}, {}
    for i, s in enumerate(srcs):
        m, steps = judge.simulate(judge.model(s), DEPTH, RUNS)
        if m is None:
            continue
        r = ctx.run(s, opts | WANT, name=f"m{i}.sk")
        if r.crash or r.rc or not r.art:
            return f"no {form} for {s!r}: {r.brief()}"
        want[i], arts[i] = m, r.art
        ctx.count("runs", len(m))
        ctx.count("steps", steps)
        ctx.count("programs")
    if not arts:
        return None
    ctx.nontrivial()
    w = native.get(ctx)
    got, err = native.run_objects(w, arts, DEPTH, RUNS, "assembly" in form)
    if err:
        for i in arts:
            w.clear()
            g, e = native.run_objects(w, {i: arts[i]}, DEPTH, RUNS, "assembly" in form)
            if e:
                return f"{form} of {srcs[i]!r}: {e}"
        return f"{form}s of several programs do not link together: {err}"
    for i in arts:
        if got[i] != want[i]:
            return f"{form} of {srcs[i]!r}: expected {want[i]!r:.500}, got {got[i]!r:.500}"
    return None


def executable(ctx, flags, src):
    m, _ = judge.simulate(judge.model(src), DEPTH, RUNS)
    if m is None:
        return None
    c = cli.get(ctx)
    r = c.run(["prog.sk"] + list(flags) + ["-q", "--", build.tool("envexe", True), "-no-pie"], {"prog.sk": src, "mod1.sk": "x := 1\n"}, fake=False)
    if r.rc or set(r.files) != {"prog"}:
        return f"no executable: {r.brief()}"
    ctx.nontrivial()
    for script, rv, trace in m:
        if rv == "cut":
            continue
        ctx.count("executions")
        p = subprocess.run([c.dir + "/prog"], env={"SCRIPT": script}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
        if p.returncode != int(rv) % 256 or p.stdout.decode() != trace:
            return f"script {script}: expected {trace!r} and exit status {int(rv) % 256}, got {p.stdout!r} and {p.returncode}"
    return None


def programs(tier):
    yield from EXTRA
    yield from gen.PROGRAMS
    for k in range(1, 4 if tier == "quick" else 5):
        for t in gen.flow_programs(k, live=True):
            yield judge.pre(gen.flow_text(t))
    yield from gen.in_contexts(gen.CORE, 1, gen.CONTEXTS if tier == "thorough" else gen.CONTEXTS[:10])
    yield from big(tier)


def big(tier):
    """Operators, storage, and programs of every size."""
    q = tier == "quick"
    yield from every(gen.effects(), 4 if q else 1)
    yield from every(gen.conditions(), 9 if q else 1)
    for i, f in enumerate(c08.FORMS):
        yield from every(c08.binary(f), 30 if q else 4, i)
    yield from every(c08.changing(tier), 100 if q else 10)
    for t in ("Int", "Float", "Bool", "Rune", "Str"):
        yield from every(c11.globals_(t, 2), 20 if q else 3)
        yield from every(c11.locals_(t, 2), 20 if q else 3)
    yield from every(c11.passing(2, True), 8 if q else 1)
    yield from every(ladders.all_ladders(tier), 7 if q else 1)


def batches(tier, size=40):
    it = programs(tier)
    while True:
        b = tuple(itertools.islice(it, size))
        if not b:
            return
        for f in FORMS:
            yield ("batch", f, b)


def executables(tier):
    for fl in ((), ("-O1",), ("-O2",), ("-O3",), ("-g",), ("-g", "-O2"), ("--llvm-no-verify",)):
        for s in EXTRA + gen.PROGRAMS:
            yield ("exe", fl, s)
    for k in range(1, 3 if tier == "quick" else 4):
        for t in gen.flow_programs(k, live=True):
            yield ("exe", (), judge.pre(gen.flow_text(t)))


def families(tier):
    return [("objects and assembly, in batches", lambda: batches(tier)), ("executables", lambda: executables(tier))]


def run(rep, tier):
    for t in ("nrun", "envexe"):
        build.tool(t, True)
    build.build("cli", "plain")
    std.sweep(rep, families(tier), check, rule="each batch of programs is emitted in one form, linked natively and executed on every decision script of depth 3; each executable likewise")


def replay(item):
    return std.replay_with(check, item)
