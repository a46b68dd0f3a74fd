"""Variables, parameters and references hold the value last stored in them:
every operation sequence up to a length over a small set of places, at top
level, in functions, in loops and under recursion."""
import itertools

from vlib import gen, judge, ladders, std
from vlib.client import DEBUG, O2, RUN
from checks.c05 import walk
from checks.c06 import wrap

T = {"Int": ("eI", "vI", ["1", "2", "3", "4", "5", "6", "7", "8"]), "Float": ("eF", "vF", [f"{i}.5" for i in range(8)]),
     "Bool": ("eB", "vB", ["true", "false"] * 4), "Rune": ("eR", "vR", [f"'{c}'" for c in "abcdefgh"]),
     "Str": ("eS", "vS", [f'"s{c}"' for c in "abcdefgh"])}
OPS = ["a = #", "a = b", "b = a", "b = #", "e(a)", "e(b)", "set(#)", "swap()", "e(get())", "id(a)", "a = *p", "e(*p)", "e(*q)"]
HEAD = """mut a := @0
mut b := v(@1)
p := &a
q := &b
set(k: #T) {
a = k
}
swap() {
t := a
a = b
b = t
}
get() #T {
return a
}
id(k: #T) {
e(k)
mut m := k
m = b
e(m)
e(k)
}
"""
TAIL = "e(a)\ne(b)\ne(*p)\ne(*q)\n"


def subst(s, t):
    e, v, vals = T[t]
    s = s.replace("#T", t).replace("@0", vals[0]).replace("@1", vals[1])
    out, k = "", 2
    for ch in s:
        if ch == "#":
            out += vals[k % len(vals)]
            k += 1
        else:
            out += ch
    import re
    return judge.pre(re.sub(r"\bv\(", v + "(", re.sub(r"\be\(", e + "(", out)))


def globals_(t, n):
    for k in range(1, n + 1):
        for ops in itertools.product(OPS, repeat=k):
            yield subst(HEAD + "\n".join(ops) + "\n" + TAIL, t)


LOCAL = ["a = #", "a = b", "b = a", "e(a)", "e(b)", "a = v(k)", "e(k)", "a = *p", "e(*p)", "p2 := &b\ne(*p2)", "c := a", "e(c)", "mut d := b",
         "d = a", "e(d)"]


def locals_(t, n):
    for k in range(1, n + 1):
        for ops in itertools.product(LOCAL, repeat=k):
            yield subst("f(k: #T) {\nmut a := @0\nmut b := k\np := &a\n" + "\n".join(ops) + "\ne(a)\ne(b)\ne(*p)\n}\nf(@1)\nf(#)\n", t)


LOOP = ["mut c := n", "c = c + 10", "eI(c)", "d := c + n", "eI(d)", "if n is 2 {", "}", "p := &c", "eI(*p)", "a = c", "a = a + 1", "eI(a)",
        "continue"]


def loops(n, func):
    for s in walk(LOOP, n):
        i = s.rfind("external")
        i = s.find("\n", i) + 1 if i >= 0 else 0
        body = "mut n := 0\nmut a := 100\nwhile n < 3 {\nn = n + 1\n" + s[i:] + "}\neI(n)\neI(a)\n"
        yield judge.pre(f"f() {{\n{body}}}\nf()\nf()\n" if func else body)


REC = ["mut m := n", "m = m * 2", "eI(m)", "f(n - 1)", "c := n + 1", "eI(c)", "eI(n)", "p := &m", "eI(*p)", "g = g + n", "eI(g)", "if n is 1 {", "}"]


def recursion(n):
    for s in walk(REC, n):
        i = s.rfind("external")
        i = s.find("\n", i) + 1 if i >= 0 else 0
        yield judge.pre("mut g := 0\nf(n: Int) {\nif n is 0 {\nreturn\n}\n" + s[i:] + "}\nf(2)\neI(g)\n")


PASS = ["h(&x)", "h(&y)", "h(r)", "x = #", "y = #", "r2 := &y\nh(r2)", "eI(k(x, y))", "eI(k(y, x))", "eI(two(&x, &y))", "eI(two(&y, &x))",
        "eI(two(r, r))", "eI(x)", "eI(y)"]


def passing(n, func):
    head = ("h(p: &Int) {\neI(*p)\n}\nk(a: Int, b: Int) Int {\nmut t := a\nt = t * 10\nreturn t + b\n}\n"
            "two(p: &Int, q: &Int) Int {\nreturn *p * 100 + *q\n}\n")
    for k in range(1, n + 1):
        for ops in itertools.product(PASS, repeat=k):
            s = "mut x := 3\nmut y := 4\nr := &x\n" + "\n".join(ops) + "\n"
            out, j = "", 5
            for ch in s:
                if ch == "#":
                    out += str(j)
                    j += 1
                else:
                    out += ch
            yield judge.pre(head + (f"m() {{\n{out}eI(x)\n}}\nm()\nm()\n" if func else out + "eI(x)\n"))


SAME = ["a = @0", "a = @1", "a = b", "b = a", "b = @1", "one()", "two()", "set(@0)", "a = get()", "e(a)", "if chB() {", "} else {", "while chB() {", "}"]
SAMEHEAD = """mut a := @0
mut b := @1
one() {
a = @0
}
two() {
a = @1
}
set(k: #T) {
b = a
a = k
}
get() #T {
a = @1
return b
}
"""


def same(t, n, func):
    """Few values, stored over and over: directly, by calls, in branches and loops."""
    for s in walk(SAME, n):
        i = s.rfind("external")
        i = s.find("\n", i) + 1 if i >= 0 else 0
        body = s[i:]
        yield subst(SAMEHEAD + (f"m() {{\n{body}}}\nm()\ne(a)\nm()\n" if func else body) + "e(a)\ne(b)\n", t)


SCOPED = ["mut x := #", "x := #", "x = #", "eI(x)", "if chB() {", "} else {", "while chB() {", "f() {", "}", "f()"]


BODY = ["mut y := n", "mut y: Float = 1.0", "mut y := true", "mut y := k(3)", "c := n", "c := n\np := &c", "mut y := n\np := &y",
        "a = *q", "h(&a)", "h(q)", "mut s := \"x\"", "noop", "if n is 3 {\nmut y := n\n}", "mut j := 0\nwhile j < 1 {\nmut y := j\nj = j + 1\n}",
        "if n is 3 {\ncontinue\n}\nmut y := n", "mut y := n\nif n < 0 {\nbreak\n}", "c := k(n)\nmut z := c\nz = z + 1"]


def long_loops(big):
    """The same loop, short and long: no resource is used up per iteration."""
    for b in BODY + [x + "\n" + y for x in BODY for y in BODY]:
        for func in (False, True):
            for opts in (0, DEBUG, O2):
                yield (b, func, opts, big)


def long_loop(b, func, n):
    body = f"mut n := 0\nmut a := 100\nq := &a\nwhile n < {n} {{\nn = n + 1\n{b}\n}}\nif n is {n} {{\neI(7)\n}}\neI(a)\n"
    head = "h(p: &Int) {\nmut w := *p\n}\nk(p: Int) Int {\nmut w := p\nreturn w\n}\n"
    return judge.pre(head + (f"f() {{\n{body}}}\nf()\n" if func else body))


def check_long(ctx, item):
    b, func, opts, big = item
    short = ctx.run(long_loop(b, func, 5), opts | RUN, 0, 4)
    if short.rc:
        return judge.front(ctx, long_loop(b, func, 5), opts)
    r = ctx.run(long_loop(b, func, big), opts | RUN, 0, 4)
    ctx.nontrivial()
    ctx.count("iterations", big)
    for x in (short, r):
        if x.crash or x.rs != 1:
            return f"{x.brief()}"
    if short.runs != r.runs:
        return f"a loop of 5 iterations ends in {short.runs}, of {big} in {r.runs}"
    return None


def check(ctx, src):
    if isinstance(src, tuple):
        return check_long(ctx, src)
    return judge.behave(ctx, src, depth=3, max_runs=8)


def families(tier):
    q = tier == "quick"
    n = 3 if q else 4
    f = []
    for t in T:
        f.append((f"globals, {t}", lambda t=t: globals_(t, n if t == "Int" else n - 1)))
        f.append((f"locals, {t}", lambda t=t: locals_(t, n if t == "Int" else n - 1)))
    for t in T:
        for func in (False, True):
            f.append((f"few values, {t}" + ", in a function" * func, lambda t=t, func=func: same(t, n + 1 if t == "Int" else n, func)))
    f += [("loop bodies at top level", lambda: loops(n + 1, False)), ("loop bodies in functions", lambda: loops(n + 1, True)),
          ("recursion", lambda: recursion(n + 1)), ("passing", lambda: passing(n, False)),
          ("passing in functions", lambda: passing(n, True)), ("scopes", lambda: walk(SCOPED, n + 2)),
          ("long loops", lambda: long_loops(1500000 if q else 10000000)),
          ("ladders", lambda: ladders.all_ladders(tier)), ("far ladders", lambda: ladders.far(tier, top=1025))]
    return f


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
