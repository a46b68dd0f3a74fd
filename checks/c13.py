"""Optimisation levels and debug information change nothing observable: every
program, every option set, every decision script."""
from vlib import gen, judge, ladders, std
from vlib.client import DEBUG, O1, O2, O3, RUN
from checks import c08, c09, c10, c11

OPTSETS = [O1, O2, O3, DEBUG, DEBUG | O1, DEBUG | O2, DEBUG | O3]


def check(ctx, src):
    v = judge.model(src)
    if v is not None and v.captures:
        return None  # closures are not part of the language yet (docs/functions.md)
    m, steps = judge.simulate(v, 4, 16)
    want = None
    for o in [0] + OPTSETS:
        r = ctx.run(src, o | (RUN if m is not None else 0), 4, 16)
        if r.crash:
            return f"options {o}: {r.crash} {r.err[-300:]}"
        got = (r.rc, r.msgs, r.rs, r.runs)
        if want is None:
            want = got
        if got != want:
            return f"options {o} (bits: g=4 O1=16 O2=32 O3=64): {str(got)[:500]} but without {str(want)[:500]}"
        if m is not None and v.ok and (r.rs != 1 or r.runs != m):
            return f"options {o}: {r.rs} {r.runtext[:200]} runs {r.runs[:3]}, expected {m[:3]}"
    ctx.outcome("accepted" if want[0] == 0 else "rejected")
    if m is not None:
        ctx.nontrivial()
        ctx.count("runs", len(m) * (1 + len(OPTSETS)))
    return None


def flows(n):
    for k in range(1, n + 1):
        for p in gen.flow_programs(k):
            yield judge.pre(gen.flow_text(p) + "eI(99)\n")
            yield judge.pre("f() Int {\n" + gen.flow_text(p) + "return 98\n}\neI(f())\n")


def every(items, k, off=0):
    """A fixed, evenly spread part of a family (quick tier)."""
    for i, x in enumerate(items):
        if i % k == off:
            yield x


def families(tier):
    q = tier == "quick"
    return [("programs", lambda: iter(gen.PROGRAMS)), ("control flow trees", lambda: flows(4 if q else 5)),
            ("storage", lambda: c11.globals_("Int", 2 if q else 3)), ("locals", lambda: c11.locals_("Int", 2 if q else 3)),
            ("storage, Str", lambda: c11.globals_("Str", 1 if q else 2)), ("storage, Float", lambda: c11.locals_("Float", 1 if q else 2)),
            ("storage, Bool", lambda: c11.locals_("Bool", 1 if q else 2)), ("storage, Rune", lambda: c11.locals_("Rune", 1 if q else 2)),
            ("loops", lambda: c11.loops(3 if q else 4, True)), ("loops at top level", lambda: c11.loops(3 if q else 4, False)),
            ("recursion", lambda: c11.recursion(3 if q else 4)), ("passing", lambda: c11.passing(2 if q else 3, True)),
            ("operators at run time", lambda: every(c08.binary("runtime"), 6 if q else 1)),
            ("operators on locals", lambda: every(c08.binary("locals"), 6 if q else 1, 1)),
            ("operators on parameters", lambda: every(c08.binary("parameters"), 6 if q else 1, 2)),
            ("unary", lambda: every(c08.unary(), 3 if q else 1)), ("evaluation order", c08.order),
            ("calls with effects", gen.effects), ("conditions", lambda: every(gen.conditions(), 8 if q else 1)), ("operands that change", lambda: every(c08.changing(tier), 20 if q else 2)),
            ("chains", lambda: c09.chains(2, c09.OPS)), ("statements in contexts", lambda: gen.in_contexts(gen.CORE, 1)),
            ("ladders", lambda: every(ladders.all_ladders(tier), 4 if q else 1))]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
