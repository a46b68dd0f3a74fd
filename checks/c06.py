"""Constants never change, only variables declared mutable can be assigned."""
import itertools

from vlib import gen, judge, ladders, std
from checks.c05 import walk

TYPES = {"Int": ("1", "2", "eI", "vI"), "Float": ("1.5", "2.5", "eF", "vF"), "Bool": ("true", "false", "eB", "vB"),
         "Rune": ("'a'", "'b'", "eR", "vR"), "Str": ('"a"', '"b"', "eS", "vS")}
DECLS = ["x := #1", "mut x := #1", "x: #T = #1", "mut x: #T = #1", "export x := #1", "export mut x := #1", "mut export x := #1",
         "x := #v(#1)", "mut x := #v(#1)", "export x := #v(#1)", "x := c", "mut x := c"]
# where the declaration and the assignment are: @D declaration, @A assignment, @U use
PLACES = [
    "@D\n@A\n@U", "@D\nif vB(true) {\n@A\n}\n@U", "@D\nwhile chB() {\n@A\n}\n@U", "@D\nif vB(false) {\nnoop\n} else {\n@A\n}\n@U",
    "@D\nif vB(false) {\nnoop\n} elif vB(true) {\n@A\n}\n@U", "@D\nf() {\n@A\n}\nf()\n@U", "if vB(true) {\n@D\n@A\n@U\n}",
    "f() {\n@D\n@A\n@U\n}\nf()", "f() {\n@D\nif vB(true) {\n@A\n}\n@U\n}\nf()", "f() {\n@D\nwhile chB() {\n@A\n}\n@U\n}\nf()",
    "while chB() {\n@D\n@A\n@U\n}", "namespace n {\n@D\n@A\n@U\n}", "namespace n {\n@D\n}\nn.@A\n@U", "namespace n {\n@D\n}\n@A\n@U",
    "@D\nnamespace n {\n@A\n}\n@U", "f() {\nif vB(true) {\n@D\n@A\n@U\n}\n}\nf()", "@D\n@U\n@A\n@U\n@A\n@U", "@A\n@D\n@U",
    "if vB(true) {\n@D\n}\n@A", "f(x: #T) {\n@A\n@U\n}\nf(#1)", "f(x: #T) {\nif vB(true) {\n@A\n}\n@U\n}\nf(#1)",
    "f(x: #T) {\ng() {\n@A\n}\ng()\n@U\n}\nf(#1)", "@D\ny := &x\n@A\n@U", "x := Int\n@A", "X := Int\nX = #1", "x() {\nnoop\n}\n@A",
    "namespace x {\nq := 1\n}\n@A", "external x()\n@A"]
ASSIGNS = ["x = #2", "x = #v(#2)", "x = x", "x = #1", "x = nope", "x = (#2)", "x = c2"]


def check(ctx, src):
    return judge.behave(ctx, src, depth=3, max_runs=8)


def placed():
    for t, (a, b, e, v) in TYPES.items():
        for p in PLACES:
            for d in DECLS:
                if "@D" not in p and d != DECLS[0]:
                    continue
                for s in ASSIGNS:
                    body = p.replace("@D", d).replace("@A", s).replace("@U", f"{e}(x)")
                    body = body.replace("#T", t).replace("#1", a).replace("#2", b).replace("#v", v)
                    yield judge.pre(f"c := {v}({a})\nmut c2 := {v}({b})\n" + body + "\n")


SEQ = ["a := vI(#)", "mut a := vI(#)", "a = #", "b := a", "mut b := a", "b = a", "b = #", "r := &a", "eI(*r)", "eI(a)", "eI(b)",
       "a = b", "b := *r", "a = *r"]
SEQ_F = ["f(a: Int) {", "if vB(true) {", "while chB() {", "a = #", "b := a", "mut b := a", "b = #", "eI(a)", "eI(b)", "f(#)", "}"]


def wrap(items, head, tail):
    for s in items:
        i = s.rfind("external")
        i = s.find("\n", i) + 1 if i >= 0 else 0
        yield s[:i] + head + s[i:] + tail


def families(tier):
    n = 4 if tier == "quick" else 5
    return [("declaration x place x assignment", placed),
            ("value sequences", lambda: walk(SEQ, n)),
            ("value sequences in functions", lambda: wrap(walk(SEQ, n), "q() {\n", "}\nq()\n")),
            ("parameter sequences", lambda: walk(SEQ_F, n + 1)),
            ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
            ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
            ("core pairs in contexts", lambda: gen.in_contexts(gen.CORE, 2, gen.CONTEXTS[:2] if tier == "quick" else None)),
            ("ladders", lambda: ladders.all_ladders(tier))]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
