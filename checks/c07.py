"""Control statements are accepted exactly where they make sense."""
from vlib import gen, judge, ladders, std

BLOCK = ["if chB() {", "} else {", "} elif chB() {", "while chB() {", "f() {", "g() Int {", "namespace n {", "break", "continue",
         "return", "return 1", "unreachable", "noop", "}"]
LOOPS = ["while chB() {", "if chB() {", "break", "continue", "noop", "} else {", "}"]
RETS = ["if chB() {", "} else {", "} elif chB() {", "while chB() {", "return 1", "noop", "unreachable", "}"]
FUNCS = ["f() {", "g() Int {", "namespace n {", "if chB() {", "while chB() {", "return", "return 1", "break", "}", "noop"]
ELSES = ["if chB() {", "elif chB() {", "else {", "}", "noop", "# c", "while chB() {"]
# layouts of the clauses of an if statement
GAPS = ["}\n@", "} @", "}\n\n@", "}\n# c\n@", "} # c\n@", "}\n#{ c #}\n@", "}\nnoop\n@", "}\n}\n@"]


def check(ctx, src):
    return judge.front(ctx, src, proj="errors")


def walk(alphabet, n, head="", tail=""):
    def rec(seq, left):
        if seq:
            yield seq
        if left:
            for t in alphabet:
                yield from rec(seq + [t], left - 1)
    for seq in rec([], n):
        depth = sum(t.endswith("{") for t in seq) - sum(t.startswith("}") for t in seq)
        yield judge.pre(head + "\n".join(seq + ["}"] * max(depth, 0)) + "\n" + tail)


def layouts():
    import itertools
    for g1, g2 in itertools.product(GAPS, repeat=2):
        for a, b in itertools.product(("elif chB() {", "else {", "if chB() {"), repeat=2):
            for p, q in (("", ""), ("f() {\n", "}\n"), ("while chB() {\n", "}\n"), ("namespace n {\n", "}\n")):
                yield judge.pre(p + "if chB() {\nnoop\n" + g1.replace("@", a) + "\nnoop\n" + g2.replace("@", b)
                                + "\nnoop\n}\n" + q)


def families(tier):
    q = tier == "quick"
    return [("statements and openers", lambda: walk(BLOCK, 5 if q else 6)),
            ("loops", lambda: walk(LOOPS, 6 if q else 7)),
            ("returns", lambda: walk(RETS, 5 if q else 6, "f() Int {\n", "}\n")),
            ("functions", lambda: walk(FUNCS, 5 if q else 6)),
            ("clauses", lambda: walk(ELSES, 6 if q else 7)),
            ("clause layouts", layouts),
            ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
            ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
            ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS[10:12] if q else None)),
            ("ladders", lambda: ladders.all_ladders(tier))]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
