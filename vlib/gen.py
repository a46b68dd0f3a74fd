"""Bounded spaces of programs."""
import itertools

from .judge import pre


def blk(s):
    return s.replace(" { ", " {\n").replace(" }", "\n}")


# ---------------------------------------------------------------- tokens

TOKENS = ["x", "f", "y:", "1", "true", '"s"', ":=", "=", "+", "-", "*", "&", "(", ")", "{", "}", ",", "\n", "if",
          "else", "while", "return", "mut", "Int", "not", "is", "external", "namespace", "noop", "# c", "#{c#}",
          "export", "^", "import", "x.y"]
TOKENS_WIDE = TOKENS + ["elif", "break", "continue", "unreachable", "and", "or", "xor", "isnt", "<", ">", "<=", ">=",
                        "<<", ">>", "/", "mod", "1.5", "'c'", "Float", "Bool", "Str", "Rune", "Void", "0xff", "false",
                        "&Int", "*x", "&x", "f(", "-1", "NaN", "Infinity", "type", "for", "y", "N", "x(", "'\\n'"]


def token_strings(alphabet, n, sep=" "):
    for k in range(1, n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield sep.join(c)


# ---------------------------------------------------------------- statements

EXPRS = ["1", "x", "y", "true", '"s"', "'c'", "1.5", "f()", "g(1)", "&x", "*x", "*y", "- x", "not x", "- 1.5", "x + 1",
         "x is x", "1 is 1", '"a" is "b"', "'a' is 'a'", "true is false", "1.0 is 1.0", "f() is f()", "(x + 1) * 2",
         "N", "ns", "ns.a", "x ^ 2", "2.0 ^ x", "x / 2", "x mod 2", "x << 1", "true and x", "h(x)", "1 < x", "&f", "&N",
         "* N"]
STMTS = []
for _e in EXPRS:
    STMTS += [f"x := {_e}", f"y := {_e}", f"mut x := {_e}", f"x = {_e}", f"y = {_e}", f"return {_e}", _e,
              f"export x := {_e}", f"y: &Int = {_e}", f"x: Int = {_e}", f"h({_e})", f"if {_e} {{ noop }}",
              f"while {_e} {{ noop }}", f"elif {_e} {{ noop }}", f"x: Void = {_e}", f"N := {_e}"]
BASIC = [
    "else { noop }", "f() { noop }", "f() Int { return 1 }", "f() Int { return x }", "f() Bool { return true }",
    "g(a: Int) Int { return a }", "h(a: &Int) Int { return *a }", "external f() Int", "external g(a: Int)",
    "external h(s: Str)", "export f() { noop }", "export g(a: Int) Int { return a }", "f() { return }",
    "f() { return f() }", "f() Int { unreachable }", "unreachable", "noop", "break", "continue", "return", "N := Int",
    "N := &Int", "M := N", "x: N = 1", "x: M = 1", "namespace ns { a := 1 }", "namespace ns { x := 1 }",
    "namespace ns { a() Int { return 1 } }", "namespace ns { namespace a { x := 1 } }", "namespace ns { return 1 }",
    "while true { break }", "while true { continue }", "while x { break }", "if true { return 1 }",
    "if true { x := 1 }", "if true { return 1 } else { return 2 }", "f(a: Int) { a = 1 }", "f(a: Void) { noop }",
    "f() Void { noop }", "f() &Int { return &x }", 'f() Str { return "s" }', "f() Float { return 1.5 }",
    "f() Rune { return 'c' }", "f() { f() }", "f() { x := 1 }", "f() { mut x := 1 }", "f(x: Int) { noop }",
    "f() { g(a: Int) Int { return a } }", "f() { if true { return } }", "f() Int { if true { return 1 } return 2 }",
    "f() Int { while true { return 1 } return 2 }", "{ noop }", "import nope", "import m", "# c", "#{ c #}",
    "while true { while true { break } break }", "while true { while true { break } continue }",
    "while x is 1 { y := x }", "export N := Int", "N: Int = Int", "export x: Int = 5", "mut x: Int = 5",
    "mut N := Int", "x: &Void = 1", "f() { export g() { noop } }", "if true { f() { noop } }",
    "if true { return 1 } elif true { return 2 } else { return 3 }", "while true { if true { break } else { continue } }",
    "while true { f() { noop } }", "x := ns.f()", "namespace ns { mut a := 1 }", "ns.a = 2",
    "namespace ns { f() Int { return 1 } b := f() }", "f() { namespace ns { a := 1 } }",
    "if true { namespace ns { a := 1 } }", "f() { N := Int }", "f() { y := &x }"]
STMTS = list(dict.fromkeys(blk(s) for s in STMTS + BASIC))
# a smaller set that covers every kind of statement once
CORE = list(dict.fromkeys(blk(s) for s in BASIC + [
    "x := 1", "y := x", "mut x := 1", "x = 1", "x = 2", "y = x", "return 1", "return x", "x", "f()", "g(1)", "g(x)",
    "export x := 1", "x := true", "x = true", "h(&x)", "if x { noop }", "elif true { noop }", "x: Int = 1",
    "x: Int = true", "y := &x", "*y", "x := f()", 'x := "s"', "while true { noop }", "ns.a", "f(1)", "return f()"]))

CONTEXTS = [
    "mut x := 1\n@", "x := 1\n@", "x := true\n@", "external f() Int\n@", "g(a: Int) Int {\nreturn a\n}\n@",
    "N := Int\n@", "namespace ns {\na := 1\n}\n@", "x := 1\ny := &x\n@",
    "h(a: &Int) Int {\nreturn *a\n}\nmut x := 1\n@", "external f() Int\nmut x := f()\n@", "q() {\n@\n}",
    "external chB() Bool\nwhile chB() {\n@\n}", "namespace q {\n@\n}", "if true {\n@\n}", "q() Int {\n@\nreturn 1\n}",
    "q(x: Int) Int {\n@\nreturn 1\n}", "q(x: &Int) {\n@\n}",
    "external chB() Bool\nif chB() {\nnoop\n} else {\n@\n}\nreturn 3", "q() {\nmut x := 1\nz() {\n@\n}\n}",
    "while true {\nmut x := 1\nq() Int {\nreturn 5\n}\n@\n}", "q() {\nwhile true {\n@\n}\n}",
    "namespace q {\nwhile true {\nif true {\n@\n}\n}\n}"]


BLOCKS = ["if chB() {\n@\n}", "if chB() {\nnoop\n}\nelif chB() {\n@\n}", "if chB() {\nnoop\n}\nelif chB() {\nnoop\n}\nelif chB() {\n@\n}",
          "if chB() {\nnoop\n}\nelse {\n@\n}", "if chB() {\nnoop\n}\nelif chB() {\nnoop\n}\n# c\n# d\nelse {\n@\n}", "while chB() {\n@\n}",
          "q%() {\n@\n}\nq%()", "q%(a%: Int) Int {\n@\nreturn a%\n}\neI(q%(1))", "namespace n% {\n@\n}"]


def in_blocks(stmts, depth, prefixes=("", "mut x := 1\ng(a: Int) Int {\nreturn a\n}\n"), k=1):
    """k statements at the bottom of every nest of blocks up to a depth."""
    for pf in prefixes:
        for d in range(1, depth + 1):
            for bs in itertools.product(BLOCKS, repeat=d):
                t = "@"
                for i, b in enumerate(bs):
                    t = t.replace("@", b.replace("%", str(i)))
                for ss in itertools.product(stmts, repeat=k):
                    yield pre(pf + t.replace("@", "\n".join(ss)) + "\n")


def in_contexts(stmts, k, contexts=None):
    for c in contexts or CONTEXTS:
        for s in itertools.product(stmts, repeat=k):
            yield c.replace("@", "\n".join(s)) + "\n"


def sequences(stmts, n):
    for k in range(1, n + 1):
        for s in itertools.product(stmts, repeat=k):
            yield "\n".join(s) + "\n"


# ---------------------------------------------------------------- characters

CHARS = [chr(i) for i in range(1, 128)] + list("\x80\x85\xa0\xad\xe9\u0660\u1680\u2003\u200b\u2028\u2603\u3000\uff11\ufeff\U0001f600")
LAYOUT_CHARS = ["\t", "\v", "\f", "\r", "\n", " ", "\x1c", "\x85", "\xa0", "\u2003", "\u2028", "\ufeff"]
SHORT = ["mut x := 1\nx = x + 2\n", "f(a: Int) Int {\nreturn a\n}\nf(-1)\n", "if true {\n# c\nnoop #{ d #}\n}\n", "namespace n {\nx := \"s\"\n}\ny := 'c'\n",
         "x := 1.5 / 0x1f\nz := *x is &y\n", "export f() {\nimport m\n}\nwhile not f() {\nbreak\n}\n", "n.f(n.x, 1_0)\nreturn 1 << 2\n", "\ufeffx := 1\n"]


def char_edits(programs, chars=CHARS, reps=(1, 2)):
    """Every program with every character put (once or twice) at every place,
    or in place of every character."""
    for p in programs:
        for i in range(len(p) + 1):
            for c in chars:
                for r in reps:
                    yield p[:i] + c * r + p[i:]
                if i < len(p):
                    yield p[:i] + c + p[i + 1:]


def char_strings(alphabet, n, context="x := %s\n"):
    for k in range(1, n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield context % "".join(c)


# ---------------------------------------------------------------- whole programs

PROGRAMS = [
    'eS("hello")\nreturn 0\n',
    "x := 1\nmut y: Int = x + 2\ny = y * 3\neI(y)\nreturn y\n",
    "add(a: Int, b: Int) Int {\n\treturn a + b\n}\neI(add(1, add(2, 3)))\n",
    "f() {\n\teI(1)\n}\nf()\nf()\n",
    "if chB() {\n\teI(1)\n}\nelif chB() {\n\teI(2)\n}\nelse {\n\teI(3)\n}\neI(4)\n",
    "mut i := 0\nwhile i < 3 {\n\ti = i + 1\n\tif i is 2 {\n\t\tcontinue\n\t}\n\teI(i)\n}\nreturn i\n",
    "while true {\n\twhile true {\n\t\tbreak\n\t}\n\tif chB() {\n\t\tbreak\n\t}\n\teI(1)\n}\n",
    "Num := Int\nage: Num = 100\neI(age)\n",
    "x := 5\ny := &x\nz := *y\neI(z)\n",
    "h(p: &Int) Int {\n\treturn *p\n}\nv := 7\neI(h(&v))\n",
    "namespace ns {\n\ta := 1\n\tf(x: Int) Int {\n\t\treturn x\n\t}\n\tb := f(a)\n}\neI(ns.a)\neI(ns.f(ns.b))\n",
    "namespace a {\n\tnamespace b {\n\t\tc := 3\n\t}\n}\neI(a.b.c)\n",
    "export gl := 12\nexport fn(a: Int) Int {\n\treturn a * gl\n}\neI(fn(2))\n",
    "outer() Int {\n\tinner() Int {\n\t\treturn 9\n\t}\n\treturn inner()\n}\neI(outer())\n",
    "a := true and not false or true xor false\neB(a)\neB(1 < 2)\neB(1.5 >= 2.5)\neB('a' is 'b')\n",
    'eB("a" isnt "b")\neS("t\\tn\\n\\x41")\neR(\'\\x1f600\')\neF(3.25)\neF(-1.5)\neF(Infinity)\n',
    "eI(1 + 2 * 3 ^ 2 - 4 / 2 mod 3)\neI((1 + 2) * 3)\neI(1 << 4 >> 2)\n",
    "eI(0xff)\neI(0b101)\neI(0o17)\neI(1_000)\neI(-5)\neI(- 5)\n",
    "f(a: Int, b: Float, c: Bool, d: Rune, e: Str) {\n\teI(a)\n\teF(b)\n\teB(c)\n\teR(d)\n\teS(e)\n}\n"
    "f(1, 2.5, true, 'x', \"y\")\n",
    "f(n: Int) Int {\n\tif n < 1 {\n\t\treturn 0\n\t}\n\treturn n + f(n - 1)\n}\neI(f(4))\n",
    "f() {\n\tif chB() {\n\t\treturn\n\t}\n\teI(1)\n}\nf()\n",
    "f() Int {\n\tif chB() {\n\t\treturn 1\n\t}\n\telse {\n\t\treturn 2\n\t}\n}\neI(f())\n",
    "g(a: Int) Int {\n\tmut r := a\n\twhile r > 0 {\n\t\tr = r - 2\n\t}\n\treturn r\n}\neI(g(5))\n",
    "if chB() {\n\tx := 1\n\teI(x)\n}\nelse {\n\tx := 2\n\teI(x)\n}\nnoop\n",
    "if chB() {\n\teI(1)\n\treturn 1\n}\nunreachable\n",
    "# comment\nx := 1 # trailing\n#{ block\ncomment #}\neI(x)\n",
    "mut s := \"a\"\ns = \"b\"\neS(s)\nmut r := 'a'\nr = 'b'\neR(r)\nmut b := false\nb = not b\neB(b)\n",
    "import mod1\nx := chI()\neI(x)\n",
    "mut q := 1\nset() {\n\tq = q + 1\n}\nset()\nset()\neI(q)\n",
    "N := &Int\nx := 3\ny: N = &x\neI(*y)\n",
]
PROGRAMS = [pre(p) for p in PROGRAMS]


def split(src):
    """The tokens of a program, newlines included, good enough to rejoin."""
    import re
    out = []
    for m in re.finditer(r'#\{.*?#\}|#[^\n]*|"(?:\\.|[^"])*"|\'(?:\\.|[^\'])*\'|\n|\w+\.(?=\w)|[^\s(){},]+|[(){},]',
                         src, re.S):
        t = m.group()
        out.append(t)
    return out


def join(toks):
    out = ""
    for t in toks:
        if out and not out.endswith("\n") and t != "\n" and not out.endswith(".") :
            if not (t == "(" and (out[-1].isalnum() or out[-1] == "_")) and t not in (",",) and not (t == ")" ) \
               and not out.endswith("("):
                out += " "
        out += t
    return out


MUT_TOKENS = ["x", "1", "true", '"s"', ":=", "=", "+", "(", ")", "{", "}", ",", "\n", "if", "else", "while", "return",
              "mut", "Int", "not", "external", "export", "namespace", "# c\n", "a:", "&", "*x", "break", "is", "f("]


def mutations(programs, alphabet=MUT_TOKENS):
    """Every program with one token deleted, doubled, swapped with its
    neighbour, replaced by, or preceded by, each token of the alphabet, and
    every prefix."""
    for p in programs:
        ts = split(p)
        for i in range(len(ts)):
            yield join(ts[:i] + ts[i + 1:])
            yield join(ts[:i + 1] + ts[i:])
            yield join(ts[:i])
            if i + 1 < len(ts):
                yield join(ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])
            for a in alphabet:
                yield join(ts[:i] + [a] + ts[i + 1:])
                yield join(ts[:i] + [a] + ts[i:])


def byte_mutations(programs, bs):
    for p in programs:
        b = p.encode()
        for i in range(len(b) + 1):
            yield b[:i]
            yield b[:i] + b[i + 1:]
            for c in bs:
                yield b[:i] + c + b[i + 1:]
                yield b[:i] + c + b[i:]


# ---------------------------------------------------------------- control flow trees

def flow_programs(size, in_loop=False, in_func=False, with_ret=True, live=False):
    """All statement lists with `size` statements (events are numbered later)."""
    memo = {}

    def lists(n, loop):
        key = (n, loop)
        if key in memo:
            return memo[key]
        out = []
        if n == 0:
            out.append(())
        else:
            for k in range(1, n + 1):
                for s in stmts(k, loop):
                    if live and s in ("B", "C", "R") and n > k:
                        continue
                    for rest in lists(n - k, loop):
                        out.append((s,) + rest)
        memo[key] = out
        return out

    smemo = {}

    def stmts(n, loop):
        key = (n, loop)
        if key in smemo:
            return smemo[key]
        out = []
        if n == 1:
            out.append("E")
            if loop:
                out += ["B", "C"]
            if with_ret:
                out.append("R")
        if n >= 2:
            for b in lists(n - 1, loop):
                out.append(("if", b))
            for b in lists(n - 1, True):
                out.append(("while", b))
        if n >= 3:
            for k in range(1, n - 1):
                for a in lists(k, loop):
                    for b in lists(n - 1 - k, loop):
                        out.append(("ife", a, b))
                        out.append(("elif", a, b))
        if n >= 4:
            for k in range(1, n - 2):
                for j in range(1, n - 1 - k):
                    for a in lists(k, loop):
                        for b in lists(j, loop):
                            for c in lists(n - 1 - k - j, loop):
                                out.append(("elife", a, b, c))
        smemo[key] = out
        return out
    return lists(size, in_loop)


def flow_text(prog, ret="return %d", cond="chB()", gap=""):
    n = [0]

    def stmt(s):
        n[0] += 1
        k = n[0]
        if s == "E":
            return f"eI({k})"
        if s == "B":
            return "break"
        if s == "C":
            return "continue"
        if s == "R":
            return ret % k if "%d" in ret else ret
        h = s[0]
        if h == "if":
            return f"if {cond} {{\n{body(s[1])}}}"
        if h == "while":
            return f"while {cond} {{\n{body(s[1])}}}"
        if h == "ife":
            return f"if {cond} {{\n{body(s[1])}}}\n{gap}else {{\n{body(s[2])}}}"
        if h == "elif":
            return f"if {cond} {{\n{body(s[1])}}}\n{gap}elif {cond} {{\n{body(s[2])}}}"
        if h == "elife":
            return f"if {cond} {{\n{body(s[1])}}}\n{gap}elif {cond} {{\n{body(s[2])}}}\n{gap}else {{\n{body(s[3])}}}"
        raise AssertionError(s)

    def body(b):
        return "".join(stmt(x) + "\n" for x in b)
    return body(prog)


def effects():
    """Calls whose number and order matter, of every signature: their results
    used, passed on, compared or dropped."""
    for t, x in (("I", "7"), ("F", "2.5"), ("B", "true"), ("R", "'q'"), ("S", '"zz"')):
        T = {"I": "Int", "F": "Float", "B": "Bool", "R": "Rune", "S": "Str"}[t]
        calls = [f"n{t}()", f"t{t}({x})", f"t{t}(v{t}({x}))", "w()", f"u({x})", "y()", f"t{t}(n{t}())", f"u(n{t}())", f"t{t}(w())"]
        head = (f"mut s := 0\nw() {T} {{\nreturn n{t}()\n}}\nu(a: {T}) {T} {{\nreturn t{t}(a)\n}}\n"
                f"y() {T} {{\ns = s + 1\nreturn {x}\n}}\nz(a: {T}, b: {T}) {T} {{\ne{t}(b)\nreturn a\n}}\n")
        for a in calls:
            for use in ("@\n", "@\n@\n", "@\neN()\n@\neN()\n", f"e{t}(@)\ne{t}(@)\n", f"a := @\nb := @\ne{t}(a)\ne{t}(b)\n", f"a := @\nb := @\ne{t}(b)\ne{t}(a)\n",
                        f"mut a := @\ne{t}(a)\na = @\ne{t}(a)\na = @\ne{t}(a)\n", "mut i := 0\nwhile i < 3 {\n@\ni = i + 1\n}\n", f"mut i := 0\nwhile i < 3 {{\ne{t}(@)\ni = i + 1\n}}\n",
                        "if chB() {\n@\n} else {\n@\n@\n}\n@\n", f"e{t}(z(@, @))\n", "z(@, @)\n", "if @ is @ {\neN()\n}\n@\n", "a := @ is @\neB(a)\n", "a := @\neB(a is a)\neB(@ isnt a)\n",
                        "mut i := 0\nwhile @ isnt @ {\neI(i)\ni = i + 1\nif i > 2 {\nbreak\n}\n}\n", f"q() {T} {{\n@\nreturn @\n}}\ne{t}(q())\ne{t}(q())\nq()\n",
                        f"q() {{\na := @\nb := @\nif a is b {{\nreturn\n}}\ne{t}(b)\n}}\nq()\nq()\n", "eN()\n@\n@\neN()\nreturn s\n"):
                yield pre(head + use.replace("@", a) + "eI(s)\n")
            for b in calls:
                yield pre(head + f"e{t}(z({a}, {b}))\n{b}\n{a}\n{a}\neI(s)\n")
                yield pre(head + f"eB({a} is {b})\na := {b}\nb := {a}\nc := {b}\ne{t}(a)\ne{t}(b)\neI(s)\n")


def conditions(deep=True):
    """Conditions of every form, in every kind of statement that has one."""
    ints = ["0", "1", "(0 - 1)", "0x10"]
    atoms = ["true", "false", "(true)", "not true", "not false", "not not true", "tc", "fc", "tm", "fm", "tf()", "ff()", "not tf()", "*tr", "*fr",
             "lt(1, 2)", "lt(2, 1)", "id(false)", "id(true)", "id(1 > 2)", "'a' is 'a'", "'a' isnt 'a'", "\"a\" is \"a\"", "\"a\" isnt \"a\"", "sc is \"x\"", "\"y\" is sc",
             "NaN is NaN", "NaN isnt NaN", "NaN < 1.0", "Infinity > 1.0", "0.0 is -0.0", "1.5 <= 1.5", "1 ^ 2 is 1", "2 ^ 2 is 5", "ic > 4", "im < 4", "im is ic", "9 % 4 is 1", "1 << 1 < 2",
             "true is false", "true isnt false", "false is false", "true and false", "false or false", "true xor true", "true xor false", "tc and tm", "fc or fm", "not tc", "not fm"]
    atoms += [f"{a} {o} {b}" for a in ints[:2] for o in ("<", "<=", ">", ">=", "is", "isnt") for b in ints]
    conds = list(atoms)
    if deep:
        some = ["true", "false", "1 < 2", "2 < 1", "tc", "fm", "ff()", "im is 5", "id(true)"]
        conds += [f"{n}({a}) {o} ({b})" for n in ("", "not ") for a in some for o in ("and", "or", "xor", "is") for b in some]
        conds += [f"{a} {o} not {b}" for a in some[:2] + some[4:7] for o in ("and", "or", "xor") for b in some[:2] + some[4:7]]
    head = ("tc := true\nfc := false\nmut tm := true\nmut fm := false\nsc := \"x\"\nic := 5\nmut im := 5\ntr := &tc\nfr := &fm\ntf() Bool {\neI(91)\nreturn true\n}\nff() Bool {\neI(92)\nreturn false\n}\n"
            "lt(a: Int, b: Int) Bool {\nreturn a < b\n}\nid(a: Bool) Bool {\nreturn a\n}\n")
    shapes = ["if @ {\neI(1)\n}\neI(2)\n", "if @ {\neI(1)\n} else {\neI(2)\n}\neI(3)\n", "if fm {\neI(1)\n} elif @ {\neI(2)\n} else {\neI(3)\n}\n", "if @ {\neI(1)\n} elif @ {\neI(2)\n}\neI(3)\n",
              "while @ {\neI(1)\nbreak\n}\neI(2)\n", "mut i := 0\nwhile @ {\neI(i)\ni = i + 1\nif i is 3 {\nbreak\n}\n}\neI(9)\n",
              "mut i := 0\nwhile i < 3 {\ni = i + 1\nif @ {\ncontinue\n}\neI(i)\n}\neI(9)\n", "mut i := 0\nwhile i < 2 {\ni = i + 1\nwhile @ {\neI(i)\nif i is 1 {\nbreak\n}\ni = i + 5\nbreak\n}\n}\neI(i)\n",
              "q() Int {\nif @ {\nreturn 1\n}\nreturn 2\n}\neI(q())\n", "q() Int {\nif @ {\nreturn 1\n} else {\nreturn 2\n}\n}\neI(q())\n",
              "q() Int {\nwhile @ {\nreturn 1\n}\nreturn 2\n}\neI(q())\n", "q() {\nif @ {\neI(1)\nreturn\n}\neI(2)\n}\nq()\neI(3)\n", "q(tc2: Bool) {\nwhile tc2 and (@) {\neI(1)\nif @ {\nreturn\n}\neI(4)\nreturn\n}\neI(2)\n}\nq(true)\nq(false)\n",
              "eB(@)\n", "x := @\nif x {\neI(1)\n}\neB(x)\n", "return 7\n" if False else "if @ {\nreturn 7\n}\nreturn 8\n"]
    for c in conds:
        for s in shapes:
            yield pre(head + s.replace("@", c))


def spellings(k=3):
    """Names over letters of both cases, underscores, digits and others, and names like reserved words."""
    for n in range(1, k + 1):
        for t in itertools.product("aZ0_\u00e9", repeat=n):
            if t[0] != "0":
                yield "".join(t)
    for w in ("if", "elif", "else", "while", "return", "mut", "external", "export", "namespace", "import", "noop", "break", "continue", "unreachable", "true", "false", "and", "or", "xor",
              "not", "is", "isnt", "Int", "Float", "Bool", "Rune", "Str", "Void", "NaN", "Infinity"):
        yield from (w + "1", w + "_", "_" + w, w + w, w.upper() + "X", w[:-1] + w[-1] * 2, "x" + w)
    yield from ("unused", "_unused", "unused_x", "ignore", "dummy", "tmp", "main", "init", "test", "test_x", "self", "this", "argc", "argv", "errno", "printf", "debug", "DEBUG", "TODO", "__x", "__x__", "x__", "i", "_", "__")


NAME_USES = ["@ := 1\n", "mut @ := 1\n", "mut @ := 1\n@ = 2\n", "mut @ := 1\neI(@)\n", "mut @ := 1\n@ = 2\neI(@)\n", "@: Int = 1\neI(@)\n", "mut @: Str = \"a\"\n", "@() {\nnoop\n}\n", "external @()\n", "external @(x: Int) Int\n@(1)\n",
             "export @ := 1\n", "export @() {\nnoop\n}\n", "export mut @ := 1\n", "f(@: Int) {\nnoop\n}\nf(1)\n", "f(@: Int) Int {\nreturn @\n}\neI(f(1))\n", "f() {\n@ := 1\n}\nf()\n", "f() {\n@() {\nnoop\n}\n}\nf()\n",
             "if true {\n@ := 1\n}\n", "namespace n {\n@ := 1\n}\n", "namespace n {\nmut @ := 1\n}\neI(n.@)\n", "namespace @ {\nx := 1\n}\neI(@.x)\n", "@ := 1\n@ := 2\n", "@ := 1\n@ = 2\n", "@ = 1\n", "eI(@)\n", "@()\n", "x: @ = 1\n",
             "@ := Int\nx: @ = 1\neI(x)\n", "@ := Int\n", "f(a: @) {\nnoop\n}\n", "f() @ {\nnoop\n}\n", "@ := 1\nx := &@\neI(*x)\n", "@ := 1\nf(@: Int) {\nnoop\n}\n", "@() {\nnoop\n}\n@(1)\n", "@ := 1\n@()\n", "@ := 1.5\neI(@)\n", "import @\n"]


def named(k=3):
    """Every kind of declaration, use and fault, with every spelling of the name."""
    for n in spellings(k):
        for u in NAME_USES:
            yield pre(u.replace("@", n))


def lookalikes(lengths=(2, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)):
    """Names of one length that differ in one character only, all in one scope."""
    for n in lengths:
        step = max(1, n // 24)
        names = list(dict.fromkeys("k" * p + c + "k" * (n - 1 - p) for p in [*range(0, n, step), n - 2, n - 1] for c in "kabj"))
        for text in ("@ := #\n", "mut @ := #\n"):
            yield pre("".join(text.replace("@", x).replace("#", str(i)) for i, x in enumerate(names)) + "".join(f"eI({x})\n" for x in names))
        yield pre("".join(f"{x}() Int {{\nreturn {i}\n}}\n" for i, x in enumerate(names)) + "".join(f"eI({x}())\n" for x in names))
        yield pre("f(" + ", ".join(f"{x}: Int" for x in names[:40]) + ") {\n" + "".join(f"eI({x})\n" for x in names[:40]) + "}\nf(" + ", ".join(str(i) for i in range(len(names[:40]))) + ")\n")
        yield pre("".join(f"namespace {x} {{\nv := {i}\n}}\n" for i, x in enumerate(names)) + "".join(f"eI({x}.v)\n" for x in names))
        yield pre("namespace n {\n" + "".join(f"{x} := {i}\n" for i, x in enumerate(names)) + "}\n" + "".join(f"eI(n.{x})\n" for x in names))
        yield pre("".join(f"{x} := {'Int' if i % 2 else 'Float'}\nv{i}: {x} = f{'I' if i % 2 else 'F'}()\n".replace("fI()", str(i)).replace("fF()", f"{i}.5") + (f"eI(v{i})\n" if i % 2 else f"eF(v{i})\n") for i, x in enumerate(names)))
        yield pre("".join(f"{x} := {i}\n" for i, x in enumerate(names)) + "k" * (n - 1) + "\n" + "".join(f"eI({x})\n" for x in names))
        for x in names[1:6] + names[-2:]:
            yield pre("".join(f"{y} := {i}\n" for i, y in enumerate(names) if y != x) + f"eI({x})\n")


FAR = [127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537]


def far_positions(top=70000):
    """A fault far down, or far to the right, behind text of every kind."""
    faults = ["nope()\n", "x := nope\n", "x: Nope = 1\n", "f() Int {\nnoop\n}\n", "x := 1\n", "x := \"\\q\"\n", "if 1 {\nnoop\n}\n", "x := 1 +\n", "return\n", "break\n", "mut y := 1\n"]
    for n in FAR:
        if n > top:
            break
        for i, f in enumerate(faults):
            if n > 5000 and i not in (1, 4, 5, 7):
                continue
            for fill in (" ", "\t", "#{@} ", "\n", "# a\n", "noop\n", "#{@\n@} ", "\u00e9"):
                if fill == "#{@} ":
                    yield "#{" + "a" * n + "} " + f
                elif fill == "\u00e9":
                    yield "#{" + "\u2603" * n + "} " + f
                elif fill == "#{@\n@} ":
                    yield "#{" + "\n" * n + "b} " + f
                else:
                    yield fill * n + f
            yield 'external eS(a: Str)\neS("' + "\n" * n + 'b")\n' + f
            yield "y := 1" + " " * n + "+" + " nope\n"
