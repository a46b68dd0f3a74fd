"""Locations and text of every message, in order, for every fault in every
layout, against the reference checker."""
import itertools
import re

from vlib import gen, judge, ladders, std
from vlib.client import QUIET, WERROR

LEADS = ["", "\n", "\n\n", " ", "\t", "  \t", "# c\n", "# \u00e9\u2603\n\n", "#{ c #}", "#{ \u2603 #} ", "#{ a\nb #}", "#{\n\n\u00e9\n  #} ", "noop\n", "noop, ",
         'eS("\u00e9"), ', 'eS("\U0001f600\u2603")\n', 'eS("a\nb"), ', 'eS("\n\n")\n', "eR('\u00e9'), ", "eI(1), eI(2),\n", "\u00e9 := 1\n", "\r\n", "#{##}", "# #{\n"]
INDENTS = ["\t", "    ", "\t  ", "#{x#}", "#{\u00e9\u2603#} ", "noop, ", "\n", "# c\n"]
GAPS = ["  ", "\t", " #{c#} ", " #{\u00e9\u2603\U0001f600#} ", " #{\n#} "]
TAILS = ["", " ", "\t", " # c", " # \u00e9", " #{ c #}", "\n", " #{\n#}", ","]
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|#\{.*?#\}|#[^\n]*|\n|[ \t]+|[^\s"\'#]+|.', re.S)


def layouts(src):
    """src in every layout of the lists above (one kind of edit at a time)."""
    src = judge.pre(src)
    for l in LEADS:
        yield judge.pre(l + src) if not l.startswith("e") else decl(l) + l + src
    toks = TOK.findall(src)
    for i in INDENTS:
        yield i + "".join("\n" + i if t == "\n" else t for t in toks[:-1]) + toks[-1]
    for g in GAPS:
        yield "".join(g if t.strip(" \t") == "" else t for t in toks)
    for e in TAILS:
        yield "".join(e + "\n" if t == "\n" else t for t in toks)
    yield src.rstrip("\n")


def decl(l):
    return judge.pre(l)[:-len(l)]


def single_gaps(src, fills):
    toks = TOK.findall(src)
    for i, t in enumerate(toks):
        for g in fills:
            if t.strip(" \t") == "":
                yield "".join(toks[:i] + [g] + toks[i + 1:])
            elif t == "\n":
                yield "".join(toks[:i] + [g + "\n"] + toks[i + 1:])
                yield "".join(toks[:i] + ["\n" + g] + toks[i + 1:])


FAULTS = ["x := nope", "nope = 1", "nope()", "x := 1\nx = 2", "x := 1\nx := 2", "x := 1 + true", "x := true + 1", "f(a: Int) { noop }\nf(true)", "f(a: Int) { noop }\nf(1, 2)",
          "f(a: Int) { noop }\nf()", "f() Int { return true }", "f() { return 1 }", "f() Int { noop }", "f() Int { return }", "if 1 { noop }", "while 1.5 { noop }", "break",
          "continue", "else { noop }", "elif true { noop }", "return true", "x: Bool = 1", "x: Nope = 1", "f(a: Nope) { noop }", "f() Nope { noop }", "x := *1", "y := 1\nx := *y",
          "x := &1", "x := not 1", "x := - true", "import nope", "namespace n { noop }\nnamespace n { noop }", "unreachable\nnoop", "return 1\nnoop", "if true noop", "(1", "1)", "}",
          "f() {", "x :=", "x: =", "mut", "mut x", "export", "export noop", "external", "external f", "f(a) { noop }", "f(a: Int, a: Int) { noop }", "x := 1 +", "x := (1 + 2",
          "x := 'ab'", 'x := "a', "#{", "x := '\\q'", 'x := "\\xzz"', "x := 99999999999999999999", "x := 0xg", "x := 1.5.5", "@", "x := $", "Int := 1", "if := 1", "x := if",
          "while true { if true { break } elif true { nope } }", "f() { g() { h() { nope } } }", "x := f(1, g(2, nope))", "f(a: Int) Int { return a }\nx := f(f(f(nope)))",
          "x := (1 + (2 * (3 - nope)))", "x := 1 + 2 * 3 - nope", "x := nope + nope2", "x := 1 is true", 'x := "a" + "b"', 'x := "a" < "b"', "x := 1 << 1.5", "x := 1 and true",
          "x := true and 1", "namespace n { a := 1 }\nn.b()", "namespace n { a := 1 }\nx := n.b", "x := n.b", "f() { noop }\nx := f()", "f() { noop }\neI(f())", "N := Nope", "N := &Nope",
          "mut x: Int = 1", "x: Int = 1\neI(x)", "mut x := 1\neI(x)", "x := 1", "f() { noop }", "f(a: Int) { noop }\nf(1)", "if true { noop }", "while false { noop }", "f() { x := 1 }\nf()"]
FAULTS = [gen.blk(f) + "\n" for f in FAULTS]
HOLDERS = ["@", "a1 := 1\neI(a1)\n@", "if chB() {\n\t@}", "while chB() {\n@}", "q() {\n  @}\nq()", "namespace q {\n@}", "if chB() {\nnoop\n}\nelif chB() {\n@}\nelse {\nnoop\n}",
           "#{ \u2603 #} if chB() {\n@}", "q() Int {\n\t\twhile chB() {\n\t\t\t@}\n\t\treturn 1\n}\neI(q())"]


NAMES = ["a.sk", "dir/m.sk", "./m.sk", "a b.sk", "\u00e9.sk", "x.y.sk", "/nowhere/m.sk", "l" * 200 + ".sk", "%s%d.sk", "m.sk.sk"]


def check(ctx, item):
    if isinstance(item, str):
        return judge.front(ctx, item, 0, "full")
    # the file's name in front of each message
    src, name, opts = item
    v = judge.model(src, opts)
    r = ctx.run(src, opts, name=name)
    if r.crash:
        return f"compiler does not finish: {r.crash} {r.err[-300:]}"
    if v is None:
        return None
    ctx.nontrivial()
    exp = "".join(x + "\n" for x in v.lines(name))
    if exp != r.msgs:
        return f"expected messages {exp!r}, got {r.msgs!r}"
    return None


def named():
    for f, n, o in itertools.product(FAULTS, NAMES, (0, QUIET, WERROR)):
        if "import" not in f:
            yield (judge.pre(f), n, o)


def laid(srcs):
    for s in srcs:
        yield from layouts(s)


def held():
    for h, f in itertools.product(HOLDERS, FAULTS):
        yield h.replace("@", f) + "\n"


def pairs():
    for a, b in itertools.product(FAULTS, repeat=2):
        yield judge.pre(a + b)


PIECES = ["a", "\\\\", '\\"', "\\'", "'", '"', "\\n", "\\x41", "\u00e9", "\u2603", "\U0001f600", "\n", " ", "\t", "\r", "#", "{", "}", ",", "\\", "\\q"]
BEFORE = ['external tp(a: Str, b: Int)\ntp("@", nope)\n', 'external eS(a: Str)\neS("@"), nope()\n', 'x := "@"\nnope()\n', "#{@#} nope()\n", "#{@#}nope()\n", "# @\nnope()\n",
          "x := '@', nope()\n", "noop # @\n nope()\n", "noop #{@#}, nope()\n", "external tr(a: Rune, b: Int)\ntr('@', nope)\n", "@ nope()\n"]


def texts_before(n):
    for k in range(n + 1):
        for ps in itertools.product(PIECES, repeat=k):
            t = "".join(ps)
            for b in BEFORE:
                yield b.replace("@", t)


def families(tier):
    q = tier == "quick"
    return [
        ("faults in layouts", lambda: laid(FAULTS)),
        ("held faults in layouts", lambda: laid(held())),
        ("fault pairs", pairs),
        ("one gap edited", lambda: (t for s in held() for t in single_gaps(judge.pre(s), GAPS if not q else ["\t ", " #{\u2603\n#} "]))),
        ("file names", named),
        ("texts before the fault", lambda: texts_before(3 if q else 4)),
        ("token strings", lambda: gen.token_strings(gen.TOKENS, 3 if q else 4)),
        ("more token strings", lambda: gen.token_strings(gen.TOKENS_WIDE, 2 if q else 3)),
        ("token strings on lines", lambda: gen.token_strings(gen.TOKENS, 3, "\n ")),
        ("token strings without spaces", lambda: gen.token_strings(gen.TOKENS, 3 if q else 4, "")),
        ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
        ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if not q else gen.CORE, 2)),
        ("core pairs", lambda: gen.sequences(gen.CORE, 2)),
        ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS[10:18] if q else None)),
        ("core statements in layouts", lambda: laid(gen.in_contexts(gen.CORE, 1, None if not q else gen.CONTEXTS[::2]))),
        ("one-token mutations", lambda: gen.mutations(gen.PROGRAMS)),
        ("ladders", lambda: ladders.all_ladders(tier)), ("names", lambda: gen.named(3)), ("lookalikes", gen.lookalikes),
        ("far positions", lambda: gen.far_positions(70000))]


def run(rep, tier):
    std.sweep(rep, families(tier), check,
              rule="each program is compiled once and all its messages are compared with the reference; non-trivial: it could be tokenised")


def replay(item):
    return std.replay_with(check, item)
