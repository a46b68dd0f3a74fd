"""Names: every well-nested sequence of declarations, uses and block openers
up to a length; each accepted program is run, so that each use shows which
declaration it reached."""
import itertools

from vlib import gen, judge, ladders, std

ALPHABETS = {
    "variables and functions": ["f() {", "if vB(true) {", "x := #", "mut x := #", "x = #", "eI(x)", "f()", "}"],
    "namespaces": ["namespace n {", "namespace m {", "x := #", "f() {\neI(#)\n}", "eI(x)", "eI(n.x)", "eI(n.m.x)",
                   "n.f()", "f()", "}"],
    "parameters": ["g(x: Int) {", "g(y: Int) {", "x := #", "y := #", "eI(x)", "eI(y)", "g(#)", "}", "if vB(true) {",
                   "while chB() {"],
    "types": ["T := Int", "T := Float", "U := T", "x: T = #", "x: U = #", "x: n.T = #", "eI(x)", "namespace n {",
              "f() {", "}", "g(x: T) {"],
    "linkage": ["external f() Int", "f() Int {\nreturn #\n}", "export f() Int {\nreturn #\n}", "export x := #",
                "x := #", "eI(f())", "eI(x)", "if vB(true) {", "q() {", "}", "namespace n {"],
    "blocks": ["if chB() {", "} else {", "} elif chB() {", "while chB() {", "x := #", "y := #", "eI(x)", "eI(y)", "}"],
    "namespace members": ["namespace n {", "}", "mut x := #", "n.x = #", "x = #", "eI(n.x)", "eI(x)", "p() {", "p()",
                          "n.p()"],
    "kinds": ["x := #", "x() {\neI(#)\n}", "X := Int", "namespace x {", "}", "eI(x)", "x()", "x = #", "y: X = #",
              "y: x = #", "f(x: Int) {", "y := x", "y := &x"],
}


def check(ctx, src):
    return judge.behave(ctx, src, depth=4, max_runs=16)


def walk(alphabet, n):
    """Sequences whose braces match (missing closers are added)."""
    def rec(seq, depth, left):
        if seq:
            yield seq, depth
        if not left:
            return
        for t in alphabet:
            d = depth
            if t.startswith("}"):
                if depth == 0:
                    continue
                if seq and seq[-1].endswith("{"):
                    continue  # empty blocks are the concern of C03
                d -= 1
            if t.endswith("{"):
                d += 1
            yield from rec(seq + [t], d, left - 1)
    for seq, depth in rec([], 0, n):
        out = [t.replace("#", str(10 + i)) for i, t in enumerate(seq)]
        if seq[-1].endswith("{"):
            out.append("noop")
        out += ["}"] * depth
        yield judge.pre("\n".join(out) + "\n")


KEYWORDS = ["if", "elif", "else", "while", "return", "mut", "external", "export", "namespace", "import", "noop", "break",
            "continue", "unreachable", "true", "false", "and", "or", "xor", "not", "is", "isnt", "mod", "Int", "Float",
            "Bool", "Rune", "Str", "Void", "NaN", "Infinity", "type", "main", "int", "for", "_int_pow2", "printf", "i64"]
USES = ["@ := 1\neI(@)", "mut @ := 1\n@ = 2\neI(@)", "@() {\neI(1)\n}\n@()", "f(@: Int) {\neI(@)\n}\nf(3)",
        "namespace @ {\nx := 1\n}\neI(@.x)", "@ := Int\nx: @ = 1\neI(x)", "@: Int = 4\neI(@)", "eI(@)", "@()", "@ = 1",
        "x: @ = 1", "f() @ {\nreturn 1\n}", "namespace n {\n@ := 1\n}\neI(n.@)", "x := &@", "import @", "export @ := 1",
        "export @() {\nnoop\n}", "x := @.@", "x := n.@"]


def names():
    for k in KEYWORDS:
        for u in USES:
            yield judge.pre(u.replace("@", k) + "\n")
    for n in (1, 2, 3):
        for t in itertools.product("aZ0_\u00e9-.$", repeat=n):
            for u in USES[:7]:
                yield judge.pre(u.replace("@", "".join(t)) + "\n")


def families(tier):
    n = 5 if tier == "quick" else 6
    fs = [(k, (lambda a=a: walk(a, n + (len(a) <= 8)))) for k, a in ALPHABETS.items()]
    return fs + [("names", names), ("ladders", lambda: ladders.all_ladders(tier)), ("lookalikes", gen.lookalikes),
                 ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
                 ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
                 ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS[6:8] if tier == "quick" else None))]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
