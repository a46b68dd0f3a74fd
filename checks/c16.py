"""Warnings: exactly those the language defines; -q hides them without any
other effect; --werror turns each of them into a failure."""
import itertools

from vlib import gen, judge, ladders, std
from vlib.client import QUIET, WERROR
from checks.c05 import walk

ALPHABETS = {
    "unused": ["x := #", "mut x := #", "x = #", "eI(x)", "f() {", "f()", "namespace n {", "}", "external g()", "export x := #", "y := x"],
    "types": ["x: Int = #", "x: Int = f()", "mut x: Int = #", "N := Int", "x: N = #", "x: Float = 1.5", "x := #", "eI(x)", "f() Int {\nreturn 1\n}",
              "x: Bool = true", "x: &Int = &y", "y := #"],
    "conditions": ["if true {", "if false {", "while true {", "while false {", "elif true {", "elif false {", "else {", "}", "noop", "break", "if chB() {",
                   "x := true", "if x {"],
    "parameters": ["f(a: Int) {", "f(a: Int, b: Int) {", "eI(a)", "eI(b)", "}", "f(#)", "f(#, #)", "g() {", "g()", "export h(a: Int) {"],
    "references": ["mut x := #", "x := #", "r := &x", "eI(*r)", "h(&x)", "h(p: &Int) {", "eI(*p)", "}", "x = #", "mut r := &x"],
}


DECLS = ["x := 1", "mut x := 1", "mut x := 1\nx = 2", "mut x := 1\neI(x)", "f() {\nnoop\n}", "x: Int = 1\neI(x)", "if true {\nnoop\n}",
         "f(p: Int) {\nnoop\n}\nf(1)"]


def check(ctx, src):
    v = judge.model(src)
    r = ctx.run(src, 0)
    if r.crash:
        return f"{r.crash}"
    if v is None:
        return None
    if v.captures:
        return None
    bad = judge.compare_front(src, v, r, "messages")
    if bad:
        return bad
    ctx.outcome(("accepted" if v.ok else "rejected") + (" with warnings" if any(d.kind == "W" for d in v.diags) else ""))
    for o in (QUIET, WERROR):
        vo = judge.model(src, o)
        ro = ctx.run(src, o)
        if ro.crash:
            return f"options {o}: {ro.crash}"
        if vo is None:
            continue
        bad = judge.compare_front(src, vo, ro, "messages")
        if bad:
            return f"{'-q' if o == QUIET else '--werror'}: {bad}"
        # relations that hold whatever the model says
        ms, ms0 = judge.messages(ro), judge.messages(r)
        if o == QUIET:
            if (ro.rc, [m for m in ms0 if m[0] == "E"]) != (r.rc, ms):
                return f"-q changes the outcome: {ro.brief()} / {r.brief()}"
        elif any(m[0] == "W" for m in ms0) and ro.rc == 0:
            return f"--werror ignores a warning: {r.msgs!r}"
        elif not any(m[0] == "W" for m in ms0) and ro.rc != r.rc:
            return f"--werror fails without a warning: {ro.brief()}"
    if any(d.kind == "W" for d in v.diags):
        ctx.nontrivial()
    return None


def families(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [(k, (lambda a=a: walk(a, n))) for k, a in ALPHABETS.items()] + [
        ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
        ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if not q else gen.CORE, 2)),
        ("declarations in blocks", lambda: gen.in_blocks(DECLS, 3, ("",))),
        ("core pairs", lambda: gen.sequences(gen.CORE, 2)),
        ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS[10:12] if q else None)),
        ("byte order mark", lambda: ("\ufeff" + p for p in gen.PROGRAMS + ["", " ", "\n", "x := 1\n", "x"])),
        ("one-token mutations", lambda: gen.mutations(gen.PROGRAMS if not q else gen.PROGRAMS[:12], ["x", "mut", "true", "if", "\n"])),
        ("ladders", lambda: ladders.all_ladders(tier)), ("names", lambda: gen.named(3))]


def run(rep, tier):
    std.sweep(rep, families(tier), check,
              rule="each program is compiled without options, with -q and with --werror; non-trivial: the language defines a warning for it")


def replay(item):
    return std.replay_with(check, item)
