"""Every input is compiled to a verdict: no crash, hang, memory error or
undefined behaviour.  The real pipeline runs under AddressSanitizer and
UndefinedBehaviorSanitizer."""
import itertools

from vlib import gen, ladders, std
from vlib.client import ASM, CBACK, COLOR, DEBUG, NOVERIFY, O3, QUIET, WERROR

OPTSETS = [0, CBACK, DEBUG, WERROR, QUIET | O3, COLOR | NOVERIFY]
ODD = [b"\0", b"\x01", b"\t", b"\r", b"\n", b" ", b"\x7f", b"\x80", b"\xc3", b"\xe2\x98\x83", b"\xef\xbb\xbf",
       b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\xed\xa0\x80", b"\xff", b'"', b"'", b"\\", b"#", b"{", b"}", b"(",
       b")", b",", b":", b"=", b".", b"-", b"_", b"0", b"x", b"A", b"*", b"&", b"#{", b"#}", b"<", b"^"]
FEW = [b"\0", b"\n", b" ", b"\xc3", b"\xe2\x98\x83", b'"', b"'", b"\\", b"#", b"{", b"}", b"(", b")", b",", b":", b"=",
       b".", b"-", b"0", b"x"]
SMALL = [b"x", b"1", b'"', b"'", b"\\", b"#", b"{", b"}", b"(", b")", b",", b":", b"=", b".", b"-", b" ", b"\n",
         b"\xc3\xa9"]


def check(ctx, item):
    src, opts = item if isinstance(item, tuple) else (item, 0)
    r = ctx.run(src, opts)
    if r.crash:
        return f"{r.crash} {r.err[-500:]}"
    if r.rc not in (0, 1):
        return f"exit status {r.rc}"
    ctx.outcome("accepted" if r.rc == 0 else "rejected")
    if "line" in r.msgs or r.rc == 0:
        ctx.nontrivial()
    return None


def all_bytes():
    for n in (0, 1, 2):
        for t in itertools.product(range(256), repeat=n):
            yield bytes(t)


def odd_strings(n):
    for t in itertools.product(ODD, repeat=n):
        yield b"".join(t)


def small_strings(n):
    for k in range(1, n + 1):
        for t in itertools.product(SMALL, repeat=k):
            yield b"".join(t)


def options(items, opts=OPTSETS):
    for s in items:
        for o in opts:
            yield (s, o)


def big(tier):
    n = 3000 if tier == "quick" else 20000
    for k in (1, 10, 100, 1000, n):
        yield "(" * min(k, 1000) + "1"
        yield "x := " + "(" * min(k, 1000) + "1" + ")" * min(k, 1000)
        yield "if true {\n" * min(k, 1000)
        yield "{" * min(k, 1000)
        yield "}" * k
        yield '"' + "a" * k
        yield "'" + "a" * k + "'"
        yield "#{" * k
        yield "x" * k
        yield "9" * k
        yield "0x" + "f" * k
        yield "." * k
        yield "f(" * min(k, 1000)
        yield "not " * min(k, 1000) + "true"
        yield "x := 1" + " + 1" * min(k, 1000)
        yield "\\" * k
        yield "\n" * k + "x"
        yield "- " * min(k, 1000) + "1"
        yield "namespace a {\n" * min(k, 300) + "x := 1\n" + "}\n" * min(k, 300)
        yield "x." * k + "x"
        yield "&" * k + "x"
        yield "f(x: " + "&" * k + "Int) { noop }"
        yield "a" + ", a" * k
        yield "f(" + "1, " * k + "1)"
        yield "\u00e9" * k
        yield '"' + "\\x41" * k + '"'


def families(tier):
    q = tier == "quick"
    return [
        ("byte strings up to 2", all_bytes),
        ("odd byte strings", lambda: odd_strings(3 if q else 4)),
        ("punctuation strings", lambda: small_strings(4 if q else 5)),
        ("token strings", lambda: gen.token_strings(gen.TOKENS_WIDE if q else gen.TOKENS, 3 if q else 4)),
        ("one-token mutations", lambda: gen.mutations(gen.PROGRAMS)),
        ("one-byte mutations", lambda: gen.byte_mutations(gen.PROGRAMS, FEW if q else ODD)),
        ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
        ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
        ("statement pairs", lambda: gen.sequences(gen.STMTS if not q else gen.CORE, 2)),
        ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, None if not q else gen.CONTEXTS[10:17])),
        ("programs with options", lambda: options(gen.in_contexts(gen.CORE, 1))),
        ("ladders with options", lambda: options(ladders.all_ladders(tier))),
        ("far ladders", lambda: ladders.far(tier)),
        ("far ladders, C backend and debug", lambda: options(ladders.far(tier, top=1025), [CBACK, DEBUG])),
        ("long inputs", lambda: options(big(tier))),
    ]


def run(rep, tier):
    rep.assumptions = ["LLVM itself is not instrumented", "recursion depth beyond 1000 nested constructs is not explored"]
    deep_nesting(rep)
    std.sweep(rep, families(tier), check, ("asan",), limit=60,
              rule="byte, token and statement strings generated once each in order; non-trivial: the compiler accepted "
                   "the case or located an error in it")


def deep_nesting(rep):
    """A million nested blocks: recorded in known-findings.txt."""
    r = std.one("{" * 1000000, 0)
    if r.crash:
        if "deep-nesting" in rep.known_cases:
            rep.known.append(rep.known_cases["deep-nesting"])
        else:
            rep.violations.append(("deep nesting", "{" * 1000000, r.crash))


def replay(item):
    return std.replay_with(check, item, ("asan",))
