"""Comparison of the real compiler with the reference model."""
import re

from . import ref
from .client import RUN, WERROR, QUIET
from .interp import Interp, externals_known

SIGS = {
    "eI": "x: Int)", "eF": "x: Float)", "eB": "x: Bool)", "eR": "x: Rune)", "eS": "x: Str)",
    "vI": "x: Int) Int", "vF": "x: Float) Float", "vB": "x: Bool) Bool", "vR": "x: Rune) Rune",
    "vS": "x: Str) Str", "chB": ") Bool", "chI": ") Int", "lB": "k: Int, x: Bool) Bool",
    "lI": "k: Int, x: Int) Int",
    # answers that differ from call to call, and logged identities
    "nI": ") Int", "nF": ") Float", "nB": ") Bool", "nR": ") Rune", "nS": ") Str",
    "tI": "x: Int) Int", "tF": "x: Float) Float", "tB": "x: Bool) Bool", "tR": "x: Rune) Rune", "tS": "x: Str) Str",
    "eN": ")",
}
WORD = re.compile(r"\b(%s)\(" % "|".join(SIGS))


def pre(src):
    """src with declarations of the external functions it calls."""
    return "".join(f"external {n}({SIGS[n]}\n" for n in sorted(set(WORD.findall(src)))) + src


LINE = re.compile(r"^(?:\x1b\[[0-9;]*m)?(.*?): (?:\x1b\[[0-9;]*m)?(Compilation error|Warning)(?:\x1b\[[0-9;]*m)?: "
                  r"(?:line (\d+) column (\d+): )?(.*)$", re.S)


def messages(r):
    """[(kind, loc, text)] of the messages the implementation printed."""
    out = []
    for m in re.split(r"(?<=\n)(?=m\.sk: )", r.msgs):
        m = m.rstrip("\n")
        if not m:
            continue
        g = LINE.match(m)
        if not g:
            out.append(("?", None, m))
            continue
        loc = (int(g[3]), int(g[4])) if g[3] else None
        out.append(("E" if g[2].startswith("C") else "W", loc, g[5]))
    return out


def model(src, opts=0, modules=("m", "mod1")):
    """Verdict of the reference model, or None where it does not specify one."""
    try:
        v = ref.analyse(src, werror=bool(opts & WERROR), quiet=bool(opts & QUIET), modules=modules)
        if opts & QUIET:
            v.diags = [d for d in v.diags if d.kind == "E"]
        return v
    except ref.Unspecified:
        return None
    except RecursionError:
        return None


def err_texts(v, kinds=("E",)):
    return sorted(d.text for d in v.diags if d.kind in kinds)


def front(ctx, src, opts=0, proj="errors", variant=None, v=False):
    """Compare acceptance and diagnostics.  proj: verdict, errors, warnings, full."""
    if v is False:
        v = model(src, opts)
    r = ctx.run(src, opts, variant=variant)
    if r.crash:
        return f"compiler does not finish: {r.crash} {r.err[-300:]}"
    if v is None:
        ctx.outcome("unspecified")
        return None
    ctx.outcome("accepted" if v.ok else "rejected")
    if v.toks is not None:
        ctx.nontrivial()
    return compare_front(src, v, r, proj)


def compare_front(src, v, r, proj):
    if v.captures and v.ok:
        return None
    if v.ok != (r.rc == 0):
        return f"should be {'accepted' if v.ok else 'rejected'}: {[d.text for d in v.diags][:3]} but {r.brief()}"
    if proj == "verdict":
        return None
    if proj == "full":
        exp = "".join(x + "\n" for x in v.lines())
        if exp != r.msgs:
            return f"expected messages {exp!r}, got {r.msgs!r}"
        return None
    kinds = ("E",) if proj == "errors" else ("E", "W") if proj == "messages" else ("W",)
    exp = err_texts(v, kinds)
    got = sorted(t for k, _, t in messages(r) if k in kinds or k == "?")
    if exp != got:
        return f"expected {exp!r}, got {got!r}"
    return None


def simulate(v, depth, max_runs):
    """Runs the model: [(script, result, trace)] or None if unspecified."""
    if v is None or not v.ok or v.captures or not externals_known(v):
        return None, 0
    try:
        it = Interp(v, depth)
        runs = it.runs(max_runs)
        return runs, it.total_steps
    except (ref.Unspecified, RecursionError):
        return None, 0


def behave(ctx, src, opts=0, depth=4, max_runs=64, proj="errors", variant=None, v=False, want_run=True):
    """Compare acceptance, diagnostics and, for accepted programs, every run."""
    if v is False:
        v = model(src, opts)
    m, steps = simulate(v, depth, max_runs) if want_run else (None, 0)
    if m is None:
        return front(ctx, src, opts, proj, variant, v)
    r = ctx.run(src, opts | RUN, depth, max_runs, variant=variant)
    ctx.nontrivial()
    ctx.outcome("accepted")
    if r.crash:
        return f"crash: {r.crash} {r.err[-300:]}"
    if proj:
        bad = compare_front(src, v, r, proj)
        if bad:
            return bad
    elif r.rc:
        return f"should be accepted, but {r.brief()}"
    if r.rs != 1:
        return f"output is not usable: {r.rs} {r.runtext[:300]}"
    ctx.count("runs", len(m))
    ctx.count("steps", steps)
    if r.runs != m:
        for a, b in zip(r.runs + [None] * len(m), m + [None] * len(r.runs)):
            if a != b:
                return f"run differs: expected {b}, got {a}"
    return None
