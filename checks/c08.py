"""Operator values over grids of boundary operands, in every form an operand
can take (literal, constant, mutable, parameter, opaque run-time value)."""
import itertools
import math

from vlib import gen, judge, std
from vlib.interp import binop
from vlib.ref import Unspecified

INTS = sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 31, 32, 33, 62, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 65535,
               65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**62, 2**62 - 1, 2**63 - 1, 3037000499,
               3037000500})
INTS = sorted(set(INTS) | {-x for x in INTS} | {-2**63})
FLOATS = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-1.5", "2.0", "-2.0", "3.0", "-3.0", "10.0", "0.1", "0.2", "0.3",
          "-0.3", "7.25", "-7.25", "100.0", "123.456", "4503599627370496.5", "9007199254740993.0", "100000000000000000000.0",
          "-100000000000000000000.0", "0.000001", "NaN", "Infinity", "-Infinity"]
IOPS = ["+", "-", "*", "/", "mod", "<<", ">>", "^", "is", "isnt", "<", "<=", ">", ">="]
FOPS = ["+", "-", "*", "/", "mod", "^", "is", "isnt", "<", "<=", ">", ">="]
BOOLR = {"is", "isnt", "<", "<=", ">", ">=", "and", "or", "xor"}
RUNES = ["'a'", "'b'", "'A'", "'0'", "' '", "'\\n'", "'\\x00'", "'\u00e9'", "'\u2603'", "'\U0001f600'", "'\\xff'", "'\\x100'", "'\\x161'"]
STRS = ['""', '"a"', '"b"', '"ab"', '"aa"', '"abc"', '"abd"', '"A"', '" "', '"a "', '"\u00e9"', '"\u00e8"', '"\u2603"',
        '"a\\x00b"', '"a\\n"', '"\U0001f600"', '"' + "x" * 40 + '"', '"' + "x" * 41 + '"', '"' + "x" * 40 + "y" + '"']


def lit(t, v):
    if t == "Int":
        return str(v)
    return v


def operand_sets(t):
    return {"Int": INTS, "Float": FLOATS, "Bool": ["true", "false"], "Rune": RUNES, "Str": STRS}[t]


def pyval(t, v):
    if t == "Int":
        return v
    if t == "Float":
        return float(v.replace("Infinity", "inf"))
    if t == "Bool":
        return v == "true"
    return v


FORMS = ["literals", "runtime", "lit-run", "run-lit", "constants", "mutables", "parameters", "locals", "condition", "refs"]
E = {"Int": "eI", "Float": "eF", "Bool": "eB", "Rune": "eR", "Str": "eS"}
V = {"Int": "vI", "Float": "vF", "Bool": "vB", "Rune": "vR", "Str": "vS"}


def program(t, op, form, pairs):
    """One program that evaluates op on every pair."""
    rt = "Bool" if op in BOOLR else t
    e, v = E[rt], V[t]
    out = []
    if form == "parameters":
        out.append(f"g(a: {t}, b: {t}) {rt} {{\nreturn a {op} b\n}}")
    if form == "locals":
        out.append("h() {")
    for k, (a, b) in enumerate(pairs):
        la, lb = lit(t, a), lit(t, b)
        if form == "literals":
            out.append(f"{e}({la} {op} {lb})")
        elif form == "runtime":
            out.append(f"{e}({v}({la}) {op} {v}({lb}))")
        elif form == "lit-run":
            out.append(f"{e}({la} {op} {v}({lb}))")
        elif form == "run-lit":
            out.append(f"{e}({v}({la}) {op} {lb})")
        elif form == "constants":
            out.append(f"a{k} := {la}\nb{k} := {lb}\n{e}(a{k} {op} b{k})")
        elif form == "mutables":
            if k == 0:
                out.append(f"mut a := {la}\nmut b := {lb}\n{e}(a {op} b)")
            else:
                out.append(f"a = {v}({la})\nb = {v}({lb})\n{e}(a {op} b)")
        elif form == "parameters":
            out.append(f"{e}(g({la}, {lb}))")
        elif form == "locals":
            out.append(f"c{k} := {la}\nmut d{k} := {v}({lb})\nd{k} = {v}(d{k})\n{e}(c{k} {op} d{k})")
        elif form == "condition":
            out.append(f"if {v}({la}) {op} {v}({lb}) {{\neI({k})\n}} else {{\neI(-{k} - 1)\n}}")
        elif form == "refs":
            out.append(f"x{k} := {v}({la})\ny{k} := {v}({lb})\np{k} := &x{k}\nq{k} := &y{k}\n{e}(*p{k} {op} *q{k})")
    if form == "locals":
        out.append("noop\n}\nh()")
    return judge.pre("\n".join(out) + "\n")


def defined(t, op, a, b):
    if t in ("Int", "Float"):
        try:
            binop(op, t, pyval(t, a), pyval(t, b))
        except Unspecified:
            return False
    return True


def batches(ops, t, form, size=40):
    for op in ops:
        if form == "condition" and op not in BOOLR:
            continue
        ps = [(a, b) for a, b in itertools.product(operand_sets(t), repeat=2) if defined(t, op, a, b)]
        for i in range(0, len(ps), size):
            yield program(t, op, form, ps[i:i + size])


def binary(form):
    yield from batches(IOPS, "Int", form)
    yield from batches(FOPS, "Float", form)
    yield from batches(["is", "isnt"], "Rune", form)
    yield from batches(["is", "isnt"], "Str", form)
    yield from batches(["and", "or", "xor", "is", "isnt"], "Bool", form)


def unary():
    for x in INTS:
        if x == -2**63:
            continue
        for src in (f"eI(- {x})", f"eI(- vI({x}))", f"a := {x}\neI(- a)", f"mut a := {x}\na = vI({x})\neI(- a)",
                    f"g(a: Int) Int {{\nreturn - a\n}}\neI(g({x}))", f"eI(-(vI({x})))", f"eI(0 - {x})"):
            yield judge.pre(src + "\n")
    for x in FLOATS:
        for src in (f"eF(- {x})", f"eF(- vF({x}))", f"a := {x}\neF(- a)", f"g(a: Float) Float {{\nreturn - a\n}}\neF(g({x}))"):
            yield judge.pre(src + "\n")
    for x in ("true", "false"):
        for src in (f"eB(not {x})", f"eB(not vB({x}))", f"a := {x}\neB(not a)", f"mut a := {x}\na = not a\neB(a)",
                    f"if not vB({x}) {{\neI(1)\n}} else {{\neI(2)\n}}", f"mut n := 0\nwhile not (n is 3) {{\nn = n + 1\n}}\neI(n)"):
            yield judge.pre(src + "\n")


def order():
    """Both operands are evaluated, left to right, whatever the operator."""
    for op in ("and", "or", "xor", "is", "isnt"):
        for a, b in itertools.product(("true", "false"), repeat=2):
            yield judge.pre(f"eB(lB(1, {a}) {op} lB(2, {b}))\n")
            for op2 in ("and", "or", "xor"):
                for c in ("true", "false"):
                    yield judge.pre(f"eB(lB(1, {a}) {op} lB(2, {b}) {op2} lB(3, {c}))\n")
                    yield judge.pre(f"if lB(1, {a}) {op} (lB(2, {b}) {op2} lB(3, {c})) {{\neI(7)\n}}\n")
    for op in IOPS:
        yield judge.pre(("eB" if op in BOOLR else "eI") + f"(lI(1, 9) {op} lI(2, 3))\n")

SIDE = {
    # type: start, the statement by which a call changes x, other constant, operators
    "Int": ("vI(5)", "x = x * 2 + 1", "3", ["+", "-", "*", "/", "mod", "<<", ">>", "^", "is", "isnt", "<", "<=", ">", ">="]),
    "Float": ("vF(5.5)", "x = x * 2.0 + 1.0", "3.0", ["+", "-", "*", "/", "mod", "is", "isnt", "<", "<=", ">", ">="]),
    "Bool": ("vB(true)", "x = not x", "false", ["and", "or", "xor", "is", "isnt"]),
    "Str": ('vS("ab")', 'x = "cd"', '"ab"', ["is", "isnt"]),
    "Rune": ("vR('a')", "x = 'b'", "'a'", ["is", "isnt"]),
}


def changing(tier):
    """Operands whose value depends on when they are read: a variable that the
    other operand's call changes, in both positions, alone and in groups."""
    for t, (start, change, const, ops) in SIDE.items():
        zero = {"Int": "0", "Float": "0.0"}.get(t)
        head = (f"mut x := {start}\nf() {t} {{\n{change}\nreturn x\n}}\ng(a: {t}) {t} {{\n{change}\nreturn a\n}}\n"
                f"h() {t} {{\nreturn x\n}}\nk(a: {t}, b: {t}) {t} {{\n{E[t]}(a)\n{E[t]}(b)\nreturn b\n}}\nr := &x\n")
        forms = ["x", "f()", "g(x)", "h()", "*r", const, "(x)", "k(x, f())", "k(f(), x)", "k(*r, g(x))"]
        forms += ["(x + f())", "(f() - x)", "- x", "- f()"] if zero else []
        forms += ["not x", "not f()", "(x is f())"] if t == "Bool" else []
        for op in ops:
            rt = "Bool" if op in BOOLR else t
            for a, b in itertools.product(forms, repeat=2):
                e = f"{a} {op} {b}"
                yield judge.pre(head + f"{E[rt]}({e})\n{E[t]}(x)\n")
                yield judge.pre(head + f"w() {rt} {{\nreturn {e}\n}}\nz := w()\n{E[rt]}(z)\n{E[t]}(x)\n")
                if rt == t:
                    yield judge.pre(head + f"x = {e}\n{E[t]}(x)\n")
                if rt == "Bool":
                    yield judge.pre(head + f"if {e} {{\neI(1)\n}} else {{\neI(2)\n}}\n{E[t]}(x)\n")
        few = ["x", "f()", "g(x)", "*r"]
        for o1, o2 in itertools.product([o for o in ops if o not in ("<<", ">>", "^")], repeat=2):
            if o1 in BOOLR and t != "Bool" or o2 in BOOLR and t != "Bool":
                continue
            for a, b, c in itertools.product(few, repeat=3):
                yield judge.pre(head + f"{E[t]}({a} {o1} {b} {o2} {c})\n{E[t]}(x)\n")
                yield judge.pre(head + f"{E[t]}({a} {o1} ({b} {o2} {c}))\n{E[t]}(x)\n")


def powers(tier):
    """Int power, densely."""
    top = 12 if tier == "quick" else 40
    for a in range(-top, top + 1):
        out = []
        for b in range(0, 70):
            try:
                binop("^", "Int", a, b)
            except Unspecified:
                break
            out.append(f"eI({a} ^ {b})\neI(vI({a}) ^ {b})\neI(vI({a}) ^ vI({b}))")
        yield judge.pre("\n".join(out) + "\n")


def dense(tier):
    """Every pair of small integers, every operator, at run time."""
    n = 9 if tier == "quick" else 20
    for op in IOPS:
        ps = [(a, b) for a in range(-n, n + 1) for b in range(-n, n + 1) if defined("Int", op, a, b)]
        for i in range(0, len(ps), 60):
            yield program("Int", op, "runtime", ps[i:i + 60])
            yield program("Int", op, "parameters", ps[i:i + 60])
    for op in ("<<", ">>"):
        for a in INTS:
            ps = [(a, b) for b in range(64)]
            yield program("Int", op, "runtime", ps)
            yield program("Int", op, "literals", ps)


def zero_division():
    for op in ("/", "mod", "-", "*", "+", "^"):
        for z in ("0", "0x0", "0b0", "0o0", "00", "0_0", "-0", "0.0", "-0.0", "z", "(0)", "vI(0)", "1", "0 + 0"):
            for a in ("1", "a", "0", "1.5", "vI(1)"):
                yield judge.pre(f"a := 5\nz := 0\nif vB(false) {{\nq := {a} {op} {z}\n}}\nnoop\n")


def compound():
    """Results feed other operators and every sink."""
    for o1, o2 in itertools.product(["+", "-", "*", "/", "mod", "<<", ">>", "^"], repeat=2):
        yield judge.pre(f"mut a := vI(9)\nb := vI(2)\na = a {o1} b\neI(a)\na = a {o2} b\neI(a)\nc := a {o1} 1\neI(c)\nreturn c {o2} 1\n")
    for o in ["<", "<=", ">", ">=", "is", "isnt"]:
        yield judge.pre(f"mut n := 0\nwhile n {o} 3 {{\nn = n + 1\neI(n)\nif n is 6 {{\nbreak\n}}\n}}\neI(n)\n")
        yield judge.pre(f"f(a: Int, b: Int) Bool {{\nreturn a {o} b\n}}\neB(f(1, 2))\neB(f(2, 2))\neB(not f(3, 2))\nx := f(1, 2) and f(2, 1)\neB(x)\n")


def check(ctx, src):
    return judge.behave(ctx, src, depth=0, max_runs=1)


def families(tier):
    return [(f"binary, {f}", (lambda f=f: binary(f))) for f in FORMS] + [
        ("unary", unary), ("evaluation of both operands", order), ("calls with effects", gen.effects), ("operands that change", lambda: changing(tier)), ("powers", lambda: powers(tier)),
        ("dense grids", lambda: dense(tier)), ("division by zero", zero_division), ("compound", compound)]


def run(rep, tier):
    rep.assumptions = ["Int overflow, shifts by 64 or more, negative Int exponents and division by a run-time zero are unspecified"]
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
