"""Exit status, diagnostics and output agree, whatever is compiled with
whatever options; what is written on success is valid and complete."""
from vlib import gen, judge, ladders, std
from vlib.client import ASM, CBACK, DEBUG, NOVERIFY, O1, O2, O3, OBJ, QUIET, RUN, WANT, WERROR

OPTSETS = [0, DEBUG, WERROR, QUIET, O1, O2, O3, CBACK, ASM, OBJ, DEBUG | O2, CBACK | WERROR, NOVERIFY, OBJ | DEBUG,
           ASM | O3]


def check(ctx, item):
    src, opts = item if isinstance(item, tuple) else (item, 0)
    ir = not opts & (CBACK | ASM | OBJ)
    r = ctx.run(src, opts | (RUN if ir else WANT), 0, 0)
    if r.crash:
        return f"{r.crash} {r.err[-300:]}"
    ms = judge.messages(r)
    errors = [m for m in ms if m[0] == "E"]
    warnings = [m for m in ms if m[0] == "W"]
    if any(m[0] == "?" for m in ms):
        return f"unreadable message: {r.msgs!r}"
    if r.rc == 0:
        ctx.outcome("accepted")
        ctx.nontrivial()
        if errors:
            return f"succeeded although it reported {errors[:2]}"
        if warnings and opts & WERROR:
            return f"succeeded although it warned under --werror: {warnings[:2]}"
        if r.err:
            return f"succeeded but wrote on stderr: {r.err[:300]!r}"
        if not r.have:
            return "succeeded without writing its output"
        if ir and r.rs not in (1, 3) and not opts & NOVERIFY:
            return f"succeeded but the output is unusable: {r.rs} {r.runtext[:300]}"
        if opts & OBJ and not r.art.startswith(b"\x7fELF"):
            return "object file is not ELF"
        if opts & ASM and b".text" not in r.art:
            return "assembly without .text"
        if opts & CBACK and b"#include" not in r.art:
            return "C output is incomplete"
    else:
        ctx.outcome("rejected")
        if judge_lexed(r):
            ctx.nontrivial()
        if r.rc != 1:
            return f"exit status {r.rc}"
        if r.have:
            return "failed but wrote an output file"
        if not errors and not (warnings and opts & WERROR) and not r.err.strip():
            return "failed without saying why"
    # and the reference model agrees about which of the two it has to be
    v = judge.model(src, opts)
    if v is None or v.captures:
        return None
    if v.ok != (r.rc == 0):
        return f"should be {'accepted' if v.ok else 'rejected'} but {r.brief()}"
    return None


def judge_lexed(r):
    return "line" in r.msgs


def options(items, opts=OPTSETS):
    for s in items:
        for o in opts:
            yield (s, o)


def families(tier):
    q = tier == "quick"
    return [
        ("token strings", lambda: gen.token_strings(gen.TOKENS, 3 if q else 4)),
        ("one-token mutations", lambda: gen.mutations(gen.PROGRAMS)),
        ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
        ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
        ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS if not q else gen.CONTEXTS[10:14])),
        ("core statements with options", lambda: options(gen.in_contexts(gen.CORE, 1))),
        ("programs with options", lambda: options(gen.PROGRAMS)),
        ("ladders", lambda: ladders.all_ladders(tier)),
        ("ladders with options", lambda: options(ladders.all_ladders(tier), (CBACK, OBJ, WERROR, O2 | DEBUG))),
    ]


def run(rep, tier):
    std.sweep(rep, families(tier), check, limit=60,
              rule="programs x option sets, each generated once; non-trivial: accepted, or an error was located in it")


def replay(item):
    return std.replay_with(check, item)
