"""Precedence, associativity and parentheses: every operator string up to a
length with every typed operand choice and bracketing; accepted expressions
are run with labelled operands, so that grouping shows in the value and
evaluation order in the trace."""
import itertools

from vlib import judge, ladders, std

OPS = ["+", "-", "*", "/", "mod", "<<", ">>", "^", "is", "isnt", "<", "<=", ">", ">=", "and", "or", "xor"]
ARITH = ["+", "-", "*", "/", "mod", "<<", ">>", "^"]
REPR = ["+", "-", "*", "/", "<<", "^", "is", "<", "and", "or", "xor", "mod"]
IV = [7, 3, 2, 5, 1]
BV = ["true", "false", "true", "false", "true"]
FV = ["7.5", "3.25", "2.0", "0.5", "1.5"]


def operand(k, kind, lab):
    if kind == "i":
        return f"lI({k}, {IV[k]})" if lab else str(IV[k])
    if kind == "b":
        return f"lB({k}, {BV[k]})" if lab else BV[k]
    return FV[k]


def emit(expr):
    """The expression through a sink of every type: exactly one is accepted."""
    return expr


INT_OPS = set(ARITH)


def result_sink(kinds, ops):
    """A sink that may fit; wrong guesses are rejected and compared as such."""
    if not ops:
        return "eI" if kinds[0] == "i" else "eB" if kinds[0] == "b" else "eF"
    if all(o in INT_OPS for o in ops):
        return "eF" if "f" in kinds else "eI"
    return "eB"


def chains(n, ops, kinds_alphabet="ib", lab=True):
    for os_ in itertools.product(ops, repeat=n):
        arith = all(o in INT_OPS for o in os_)
        for ks in itertools.product(kinds_alphabet, repeat=n + 1):
            if arith and "b" in ks:
                continue
            e = operand(0, ks[0], lab)
            for k in range(n):
                e += f" {os_[k]} {operand(k + 1, ks[k + 1], lab)}"
            yield judge.pre(f"{result_sink(ks, os_)}({e})\n")


def brackets(n):
    """All ways to bracket n operands, partly: list of templates over @."""
    def full(i, j):
        if j - i == 1:
            return [f"@{i}"]
        out = []
        for m in range(i + 1, j):
            for a in full(i, m):
                for b in full(m, j):
                    out.append(f"({a} %{m - 1} {b})")
        return out
    res = set(full(0, n))
    # every single pair of parentheses in the flat chain
    for i in range(n):
        for j in range(i + 1, n + 1):
            parts = []
            for k in range(n):
                t = f"@{k}"
                if k == i:
                    t = "(" + t
                if k == j - 1:
                    t += ")"
                parts.append(t)
            res.add(" ".join(x if k == 0 else f"%{k - 1} {x}" for k, x in enumerate(parts)))
    res.add(" ".join(f"@{k}" if k == 0 else f"%{k - 1} @{k}" for k in range(n)))
    return sorted(res)


def bracketed(n, ops, kinds="ib"):
    ts = brackets(n)
    for os_ in itertools.product(ops, repeat=n - 1):
        arith = all(o in INT_OPS for o in os_)
        for ks in itertools.product(kinds, repeat=n):
            if arith and "b" in ks:
                continue
            for t in ts:
                e = t
                for k in range(n):
                    e = e.replace(f"@{k}", operand(k, ks[k], True))
                for k in range(n - 1):
                    e = e.replace(f"%{k}", os_[k])
                yield judge.pre(f"{result_sink(ks, os_)}({e})\n")


def with_unary():
    un = ["", "- ", "not ", "*", "-"]
    for o1, o2 in itertools.product(OPS, repeat=2):
        for u in itertools.product(un, repeat=3):
            if u == ("", "", ""):
                continue
            for ks in ("iii", "bbb", "iib", "bii"):
                e = " ".join([u[0] + operand(0, ks[0], True), o1, u[1] + operand(1, ks[1], True), o2,
                              u[2] + operand(2, ks[2], True)])
                yield judge.pre(f"{result_sink(ks, (o1, o2))}({e})\n")


def sinks():
    """Grouping is the same wherever an expression may stand."""
    for os_ in itertools.product(["+", "-", "*", "/", "<<", "^", "mod"], repeat=2):
        e = f"lI(1, 7) {os_[0]} lI(2, 3) {os_[1]} lI(3, 2)"
        for s in ("x := @\neI(x)", "x: Int = @\neI(x)", "mut x := 0\nx = @\neI(x)", "return @", "f() Int {\nreturn @\n}\neI(f())",
                  "f(a: Int, b: Int) {\neI(a)\neI(b)\n}\nf(@, 1)\nf(1, @)", "if @ is 5 {\neI(1)\n} else {\neI(2)\n}",
                  "f() {\nx := @\neI(x)\n}\nf()", "while @ < 0 {\nnoop\n}\neI(1)", "eI(1 + (@))", "eI(2 * (@) - 1)",
                  "if vB(false) {\nnoop\n} elif @ > 1 {\neI(1)\n}", "mut x := lI(0, 1)\nx = x - @\neI(x)"):
            yield judge.pre(s.replace("@", e) + "\n")
    for os_ in itertools.product(["and", "or", "xor", "is", "isnt"], repeat=2):
        for vs in itertools.product(("true", "false"), repeat=3):
            e = f"lB(1, {vs[0]}) {os_[0]} lB(2, {vs[1]}) {os_[1]} lB(3, {vs[2]})"
            for s in ("eB(@)", "if @ {\neI(1)\n} else {\neI(2)\n}", "x := @\neB(x)", "f() Bool {\nreturn @\n}\neB(f())",
                      "while @ {\neI(1)\nbreak\n}"):
                yield judge.pre(s.replace("@", e) + "\n")


def left_assoc():
    vals = [100, 7, 3, 2]
    for os_ in itertools.product(["-", "/", "mod", "^", "<<", ">>", "+", "*"], repeat=3):
        for perm in itertools.permutations([2, 3, 7, 1]):
            e = f"vI({perm[0]}) {os_[0]} {perm[1]} {os_[1]} vI({perm[2]}) {os_[2]} {perm[3]}"
            yield judge.pre(f"eI({e})\n")


def check(ctx, src):
    return judge.behave(ctx, src, depth=0, max_runs=1)


def families(tier):
    q = tier == "quick"
    f = [("chains of 1", lambda: chains(1, OPS, "ibf")), ("chains of 2", lambda: chains(2, OPS, "ibf")),
         ("chains of 2, literals", lambda: chains(2, OPS, "ibf", False)),
         ("chains of 3", lambda: chains(3, OPS, "ib")),
         ("bracketed 3", lambda: bracketed(3, OPS)),
         ("bracketed 4", lambda: bracketed(4, ["+", "*", "^", "is", "and", "<"] if q else REPR[:9])),
         ("unary operators", with_unary), ("sinks", sinks), ("permuted values", left_assoc),
         ("ladders", lambda: ladders.all_ladders(tier, {"parentheses", "parentheses_open", "sum_chain", "minus_chain", "nested_calls",
                                                        "and_chain", "not_chain", "neg_chain"}))]
    if not q:
        f.append(("chains of 4", lambda: chains(4, REPR, "ib")))
    return f


def run(rep, tier):
    rep.assumptions = ["Int overflow, shifts by 64 or more, negative exponents and division by zero are unspecified"]
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
