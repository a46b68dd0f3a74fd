"""Linkage: symbol tables of objects, and values exchanged with C."""
import itertools
import os

from checks import c14
from vlib import build, elf, gen, judge, native, ref, std
from vlib.client import ASM, CBACK, DEBUG, O1, O2, O3, OBJ, WANT

# ---- symbol tables -------------------------------------------------------
# declarations of the names a and b: (text, publicly defined, needed)
N = ("a", "b")


def decls(n, m):
    """Declarations of n; m is the other name (used as a local name)."""
    return [
        (f"{n}() {{\nnoop\n}}\n{n}()\n", (), ()),
        (f"export {n}() {{\nnoop\n}}\n", (n,), ()),
        (f"export {n}({m}: Int) Int {{\nreturn {m} + 1\n}}\n{n}(1)\n", (n,), ()),
        (f"external {n}()\n{n}()\n", (), (n,)),
        (f"external {n}(x: Int, y: Str) Float\neF({n}(1, \"s\"))\n", (), (n, "eF")),
        (f"external {n}()\n", (), ()),
        (f"{n} := 1\neI({n})\n", (), ("eI",)),
        (f"export {n} := 1\n", (n,), ()),
        (f"export {n} := vI(1)\n", (n,), ("vI",)),
        (f"export {n} := vF(1.5) + 1.0\n", (n,), ("vF",)),
        (f"export {n}: Str = \"s\"\n", (n,), ()),
        (f"mut {n} := vI(1)\n{n} = 2\neI({n})\n", (), ("vI", "eI")),
        (f"{n} := Int\n{m}x: {n} = 1\neI({m}x)\n", (), ("eI",)),
        (f"if chB() {{\n{n} := vI(1)\neI({n})\n}}\n", (), ("chB", "vI", "eI")),
        (f"if chB() {{\n{n}() {{\nnoop\n}}\n{n}()\n}}\n", (), ("chB",)),
        (f"while chB() {{\nmut {n} := 1\n{n} = 2\neI({n})\n}}\n", (), ("chB", "eI")),
        (f"namespace {n} {{\n{m}2() {{\nnoop\n}}\n}}\n{n}.{m}2()\n", (), ()),
        (f"z{n}() {{\n{n} := vI(1)\neI({n})\n}}\nz{n}()\n", (), ("vI", "eI")),
        (f"z{n}() {{\n{n}() {{\nnoop\n}}\n{n}()\n}}\nz{n}()\n", (), ()),
        (f"z{n}({n}: Int) {{\neI({n})\n}}\nz{n}(1)\n", (), ("eI",)),
        (f"namespace z{n} {{\n{n}() {{\neI(3)\n}}\n}}\nz{n}.{n}()\n", (), ("eI",)),
        (f"namespace z{n} {{\n{n} := vI(1)\n}}\neI(z{n}.{n})\n", (), ("vI", "eI")),
        (f"export {n} := 2 ^ 3\n", (n,), ()),
        (f"export {n} := vI(1) + 1\n", (n,), ("vI",)),
        (f"export {n}: Bool = vS(\"a\") is \"b\"\n", (n,), ("vS",)),
        (f"{n} := vI(2) ^ vI(3)\neI({n})\n", (), ("vI", "eI")),
    ]


def tables(tier):
    one = decls("a", "b")
    two = decls("b", "a")
    for a in one + two:
        yield ("table", (a,))
    # the same name twice in one module, both names in both orders
    for a in one:
        for b in one + two:
            yield ("table", (a, b))
            yield ("table", (b, a))
    pub = [d for d in one + two if d[1] or "external" in d[0]]
    for a in one:
        for b in two if tier == "thorough" else pub:
            for c in one if tier == "thorough" else pub[:8]:
                yield ("table", (a, b, c))


SPECIAL = ["exit", "main", "puts", "pow", "strcmp", "abort", "int_pow", "start", "m", "entry", "printf", "memcpy", "environ", "x", "L", "text", "data", "rax", "eax", "st", "offset"]


def specials(tier):
    for n in SPECIAL:
        one = decls(n, "b")
        for a in one:
            yield ("table", (a,))
        for a in one[:12]:
            for b in one[13:]:
                yield ("table", (a, b))
                yield ("table", (b, a))


NAMES = ["a", "ab", "a.b", "a-b", "a b", "_", "__a", "a_", "A", "1", "a1", ".a", "..a", "sk", "s", "k", "a.s", "a.sk", "é", "☃", "a'b", "a\"b", "a\\b", "a$b", "@a", "a@b", "a%s", "a,b", "main", "exit", "abcdefghij" * 10] + [
    "".join(p) for k in (2, 3) for p in itertools.product("a.-_1", repeat=k)]
DIRS = ["", "d/", "./", "d/e.sk/", "d.e/f/"]


def names(tier):
    for n in NAMES:
        for d in DIRS if tier == "thorough" or n in NAMES[:8] else DIRS[:2]:
            yield ("name", d, n)


def table(ctx, ds):
    src = judge.pre("".join(d[0] for d in ds))
    v = judge.model(src)
    r = ctx.run(src, OBJ | WANT)
    if r.crash:
        return f"crash: {r.crash}"
    if v is None or not v.ok or v.captures:
        ctx.outcome("not a valid program")
        return None
    if r.rc or not r.art:
        return f"no object: {r.brief()}"
    pub = sorted([".m"] + ["m." + n for d in ds for n in d[1]])
    need = sorted({n for d in ds for n in d[2]})
    got = elf.symbols(r.art)
    ctx.nontrivial()
    ctx.outcome("symbol table")
    if got != (pub, need):
        return f"expected to define {pub} and to need {need}, got {got} in {src!r}"
    return None


HELPERS = {"main", "_int_pow", "_float_pow", "_strcmp"}


def ctable(ctx, ds):
    """The same of the C that --c-backend writes."""
    src = judge.pre("".join(d[0] for d in ds))
    v = judge.model(src)
    if v is None or not v.ok or v.captures:
        ctx.outcome("not a valid program")
        return None
    try:
        c14.Shape(v)
    except c14.Inexpressible as x:
        ctx.outcome(str(x))
        return None
    r = ctx.run(src, CBACK | WANT)
    if r.crash or r.rc or not r.art:
        return f"no C: {r.brief()}"
    w = native.get(ctx)
    w.write("m.c", r.art)
    g = native.run(["gcc", "-std=gnu2x", "-w", "-O0", "-pipe", "-c", "m.c", "-o", "m.o"], w.dir)
    if g.returncode:
        return f"the C for {src!r} does not compile: {g.stdout[:600]}"
    with open(w.path("m.o"), "rb") as f:
        got = elf.symbols(f.read())
    pub = sorted(["main"] + ["m." + n for d in ds for n in d[1]])
    need = sorted({n for d in ds for n in d[2]})
    got = ([n for n in got[0] if n not in HELPERS - {"main"}], [n for n in got[1] if n in need or n != "pow"])
    ctx.nontrivial()
    ctx.outcome("symbol table of C")
    if got != (pub, need):
        return f"expected the C to define {pub} and to need {need}, got {got} in {src!r}"
    return None


def ctables(tier):
    one, two = decls("a", "b"), decls("b", "a")
    for a in one + two:
        yield ("ctable", (a,))
    for a in one:
        for b in two:
            yield ("ctable", (a, b))
            yield ("ctable", (b, a))
    if tier == "thorough":
        pub = [d for d in one + two if d[1] or "external" in d[0]]
        for p in itertools.product(pub, repeat=3):
            yield ("ctable", p)


def module_name(ctx, d, n):
    src = "export x := 1\nexport f() {\nnoop\n}\n"
    # (directories of the scratch folder the driver works in)
    ctx.run("noop\n", 0)
    os.makedirs(os.path.join(ctx.drivers["plain"].dir, d), exist_ok=True)
    r = ctx.run(src, OBJ | WANT, name=d + n + ".sk")
    if r.crash or r.rc or not r.art:
        return f"no object: {r.brief()}"
    got = elf.symbols(r.art)
    want = (sorted(["." + n, n + ".x", n + ".f"]), [])
    ctx.nontrivial()
    if got != want:
        return f"module {d + n + '.sk'}: expected symbols {want}, got {got}"
    return None


# ---- values exchanged with C --------------------------------------------
CT = {"Int": "int64_t", "Float": "double", "Bool": "_Bool", "Rune": "uint32_t", "Str": "const char *", "&Int": "int64_t *", "&Float": "double *", "&Bool": "_Bool *", "&Str": "const char **"}
BASE = ["Int", "Float", "Bool", "Rune", "Str"]
ALL = BASE + ["&Int", "&Float"]


def value(t, pos, vec):
    """A C expression"""
    k = pos + 1
    return {
        "Int": [str(k), f"-{k}", f"(INT64_MIN + {k})", f"(INT64_MAX - {k})"],
        "Float": [f"{k}.5", f"-{k}.25", f"{k}e300", f"-{k}e-300"],
        "Bool": ["1", "0", str(k & 1), str(~k & 1)],
        "Rune": [f"{0x40 + k}", "0x10FFFF", f"{0x2600 + k}", "0xD7FF"],
        "Str": [f'"s{k}"', '""', f'"\\xe2\\x98\\x83{k}"', f'"x{k}"'],
        "&Int": [f"(int64_t *)({k} * 16L)", f"(int64_t *)({k} * 0x7fffffffL)", f"(int64_t *)-{k}L", f"(int64_t *)({k} * 1024L)"],
        "&Float": [f"(double *)({k} * 16L)", f"(double *)({k} * 0x7fffffffL)", f"(double *)-{k}L", f"(double *)({k} * 1024L)"],
    }[t][vec]


def sigs(tier):
    for n in range(0, 4):
        yield from itertools.product(ALL if n < 3 or tier == "thorough" else BASE, repeat=n)
    # more parameters than there are registers: all repeated patterns
    for n in (6, 7, 9, 14, 20):
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            for p in itertools.product(BASE, repeat=k):
                yield tuple(p[i % k] for i in range(n))


C = 2  # in place of "is assembler": what the C backend writes


def sig_batches(tier, size=24):
    it = sigs(tier)
    while True:
        b = tuple(itertools.islice(it, size))
        if not b:
            return
        for o in (0, O2) if tier == "quick" else (0, O1, O2, O3, DEBUG, O2 | DEBUG):
            for asm in (0, 1):
                yield ("calls", o, asm, b)
        yield ("calls", 0, C, b)


def calls(ctx, opts, asm, sg):
    """For each signature: an exported function for each result, which passes
    its arguments to an external one; and one which returns its argument."""
    sk, c, main = [], ["#include <stdint.h>", "#include <stdio.h>", "#include <string.h>", "static int vec, calls;",
                       '#define BAD(...) (printf(__VA_ARGS__), putchar(10), 0)', 'int mod(void) __asm__(".m");'], []
    for i, s in enumerate(sg):
        params = ", ".join(f"p{k}: {t}" for k, t in enumerate(s))
        args = ", ".join(f"p{k}" for k in range(len(s)))
        cparams = ", ".join(f"{CT[t]} p{k}" for k, t in enumerate(s)) or "void"
        rets = [None] + sorted({0, len(s) // 2, len(s) - 1} & set(range(len(s))))
        for r in rets:
            x = f"{i}v" if r is None else f"{i}r{r}"
            t = "" if r is None else " " + s[r]
            ct = "void" if r is None else CT[s[r]]
            ret = "" if r is None else "return "
            sk.append(f"external x{x}({params}){t}\nexport e{x}({params}){t} {{\n{ret}x{x}({args})\n}}\n")
            c.append(f'{ct} x{x}({cparams}) {{ calls++; switch (vec) {{')
            for v in range(4):
                c.append(f"case {v}:")
                for k, tt in enumerate(s):
                    cmp = f"strcmp(p{k}, {value(tt, k, v)})" if tt == "Str" else f"p{k} != {value(tt, k, v)}"
                    c.append(f'if ({cmp}) BAD("x{x} ({", ".join(s)}) got a wrong argument {k}");')
                c.append(f"return {value(s[r], r, v)};" if r is not None else "return;")
            c.append("} __builtin_unreachable(); }" if r is not None else "} }")
            c.append(f'{ct} e{x}({cparams}) __asm__("m.e{x}");')
            for v in range(4):
                call = f"e{x}({', '.join(value(tt, k, v) for k, tt in enumerate(s))})"
                main.append(f"vec = {v}; calls = 0;")
                if r is None:
                    main.append(call + ";")
                elif s[r] == "Str":
                    main.append(f'if (strcmp({call}, {value(s[r], r, v)})) BAD("e{x} ({", ".join(s)}) returned a wrong value");')
                else:
                    main.append(f'if ({call} != {value(s[r], r, v)}) BAD("e{x} ({", ".join(s)}) returned a wrong value");')
                main.append(f'if (calls != 1) BAD("e{x} ({", ".join(s)}) called its function %d times", calls);')
            if r is not None:
                c.append(f'{ct} d{x}({cparams}) __asm__("m.d{x}");')
                sk.append(f"export d{x}({params}) {s[r]} {{\nreturn p{r}\n}}\n")
                for v in range(4):
                    call = f"d{x}({', '.join(value(tt, k, v) for k, tt in enumerate(s))})"
                    cmp = f"strcmp({call}, {value(s[r], r, v)})" if s[r] == "Str" else f"{call} != {value(s[r], r, v)}"
                    main.append(f'if ({cmp}) BAD("d{x} ({", ".join(s)}) returned a wrong value");')
    src = "".join(sk)
    r = ctx.run(src, opts | (OBJ, ASM, CBACK)[asm] | WANT)
    if r.crash or r.rc or not r.art:
        return f"not compiled: {src!r:.300} {r.brief()}"
    c.append("int main(void) {\nif (mod()) BAD(\"init\");\n" + "\n".join(main) + '\nputs("done"); return 0; }\n')
    out, err = link(ctx, "\n".join(c), {"m": (r.art, asm)}, asm == C)
    if err:
        return err
    ctx.count("C calls", len(main))
    ctx.nontrivial()
    if out != "done\n":
        return f"{out[:600]!r}"
    return None


def link(ctx, c, objs, cback=False):
    w = native.get(ctx)
    files = []
    if cback:
        c = c.replace('__asm__(".m")', "__asm__(\"modmain\")")
    for n, (art, asm) in objs.items():
        w.write(n + (".o", ".s", ".c")[asm], art)
        if asm == C:
            r = native.run(["gcc", "-std=gnu2x", "-w", "-O1", "-Dmain=modmain", "-c", n + ".c", "-o", n + ".o"], w.dir)
            if r.returncode:
                return None, "the C does not compile: " + r.stdout[:500]
        elif asm:
            r = native.run((["clang", "-c"] if b".loc" in art else ["as"]) + [n + ".s", "-o", n + ".o"], w.dir)
            if r.returncode:
                return None, "does not assemble: " + r.stdout[:500]
        files.append(n + ".o")
    w.write("t.c", c)
    r = native.run(["gcc", "-w", "-no-pie", "-O1", "t.c"] + files + ["-o", "t", "-lm"], w.dir)
    if r.returncode:
        return None, "does not link: " + r.stdout[-700:]
    r = native.run(["./t"], w.dir)
    if r.returncode:
        return None, f"ends with {r.returncode}: {r.stdout[-500:]}"
    return r.stdout, None


LIT = {"Int": [("5", "5"), ("9223372036854775807", "INT64_MAX"), ("0xff", "255")], "Float": [("1.5", "1.5"), ("0.25", "0.25")], "Bool": [("true", "1"), ("false", "0")],
       "Rune": [("'x'", "120"), ("'☃'", "0x2603")], "Str": [('"str"', '"str"'), ('""', '""')]}
VIA = {"Int": "vI", "Float": "vF", "Bool": "vB", "Rune": "vR", "Str": "vS"}
OTHER = {"Int": ("77", "77"), "Float": ("7.75", "7.75"), "Bool": None, "Rune": ("'q'", "113"), "Str": ('"other"', '"other"')}


def variables(tier):
    for o in (0, O1, O2, O3, DEBUG, CBACK):
        for t in BASE:
            for form in ("const", "const-typed", "const-var", "typed-var", "in-namespace-too", "private-twin"):
                for i in range(len(LIT[t])):
                    if o == CBACK and form == "in-namespace-too":
                        continue  # (outside of C14)
                    yield ("var", o, t, form, i)


def variable(ctx, opts, t, form, i):
    cback = opts & CBACK
    lit, c = LIT[t][i]
    oth = OTHER[t] or (("false", "0") if c == "1" else ("true", "1"))
    via = f"{VIA[t]}({lit})"
    want = c
    k = {"const": f"export x := {lit}\n", "const-typed": f"export x: {t} = {lit}\n", "const-var": f"export x := {via}\n", "typed-var": f"export x: {t} = {via}\n",
         "in-namespace-too": f"namespace n {{\nx := {VIA[t]}({oth[0]})\n}}\ne{VIA[t][1]}(n.x)\nexport x := {lit}\n",
         "private-twin": f"if chB() {{\nx := {VIA[t]}({oth[0]})\ne{VIA[t][1]}(x)\n}}\nexport x := {lit}\n"}[form]
    src = judge.pre(k + f"export g() {t} {{\nreturn x\n}}\n")
    r = ctx.run(src, opts | (0 if cback else OBJ) | WANT)
    if r.crash or r.rc or not r.art:
        return f"not compiled: {r.brief()}"
    ct = CT[t]
    ne = (lambda a, b: f"strcmp({a}, {b})") if t == "Str" else (lambda a, b: f"{a} != {b}")
    body = f'if ({ne("x", want)}) puts("C sees a wrong value");\nif ({ne("g()", want)}) puts("Skull sees a wrong value");'
    out, err = link(ctx, f"""#include <stdint.h>
#include <stdio.h>
#include <string.h>
int mod(void) __asm__(".m"); {ct} g(void) __asm__("m.g"); extern {ct} x __asm__("m.x");
int64_t vI(int64_t a) {{ return a; }} double vF(double a) {{ return a; }} _Bool vB(_Bool a) {{ return a; }} uint32_t vR(uint32_t a) {{ return a; }} char *vS(char *a) {{ return a; }}
void eI(int64_t a) {{}} void eF(double a) {{}} void eB(_Bool a) {{}} void eR(uint32_t a) {{}} void eS(char *a) {{}} _Bool chB(void) {{ return 1; }}
int main(void) {{ mod(); {body} puts("done"); return 0; }}
""", {"m": (r.art, C if cback else 0)}, cback)
    if err:
        return f"{src!r}: {err}"
    ctx.nontrivial()
    return None if out == "done\n" else f"{src!r}: {out!r}"


# ---- modules together ----------------------------------------------------
MODS = ["f() Int {\nreturn 1\n}\neI(f())\n", "mut f := vI(2)\nf = f + 1\neI(f)\n", "f := vI(3)\ng() Int {\nreturn f\n}\neI(g())\n", "g := 4\neI(g)\n", "namespace f {\ng := vI(5)\n}\neI(f.g)\n",
        "export f() Int {\nreturn 6\n}\neI(f())\n", "export f := vI(7)\neI(f + 1)\n", "export f := 9\neI(f)\n", "external g() Int\neI(g())\n", "g() {\nf := vI(8)\neI(f)\n}\ng()\n",
        "main() {\neI(10)\n}\nmain()\n", "exit() {\neI(11)\n}\nexit()\n", "exit := vI(12)\neI(exit)\n", "eI(vI(2) ^ vI(3))\n", "eF(vF(2.0) ^ vF(3.0))\n", 'eB(vS("a") is vS("b"))\n', "x := Int\nf: x = 13\neI(f)\n",
        "if chB() {\nf() {\neI(14)\n}\nf()\n}\n", "eS(\"same\")\n", "export g() {\neI(15)\n}\ng()\n"]


def pairs(tier):
    for a, b in itertools.product(range(len(MODS)), repeat=2):
        yield ("link", (a, b))
    for p in itertools.product(range(len(MODS) if tier == "thorough" else 9), repeat=3):
        yield ("link", p)


def together(ctx, idx):
    """Modules m0, m1, ...: each behaves as it does alone."""
    cache = ctx.local.setdefault("objs", Cache())
    arts, want = {}, []
    for k, i in enumerate(idx):
        src = judge.pre(MODS[i])
        if (k, i) not in cache.d:
            r = ctx.run(src, OBJ | WANT, name=f"m{k}.sk")
            if r.crash or r.rc or not r.art:
                return f"not compiled: {r.brief()}"
            cache.d[k, i] = r.art
        arts[f"m{k}"] = (cache.d[k, i], 0)
    c = """#include <stdint.h>
#include <stdio.h>
#include <string.h>
int64_t g(void) { return 99; }
int64_t vI(int64_t a) { return a; } double vF(double a) { return a; } char *vS(char *a) { return a; } _Bool chB(void) { return 1; }
void eI(int64_t a) { printf("%ld;", a); } void eF(double a) { printf("%g;", a); } void eB(_Bool a) { printf("%d;", a); } void eS(char *a) { printf("%s;", a); }
""" + "".join(f'int i{k}(void) __asm__(".m{k}");\n' for k in range(len(idx))) + "int main(void) { " + "".join(f"i{k}(); puts(\"\");" for k in range(len(idx))) + "return 0; }\n"
    out, err = link(ctx, c, arts)
    if err:
        return f"{[MODS[i] for i in idx]!r}: {err}"
    exp = "".join(EXPECT[i] + "\n" for i in idx)
    ctx.nontrivial()
    return None if out == exp else f"{[MODS[i] for i in idx]!r}: expected {exp!r}, got {out!r}"


EXPECT = ["1;", "3;", "3;", "4;", "5;", "6;", "8;", "9;", "99;", "8;", "10;", "11;", "12;", "8;", "8;", "0;", "13;", "14;", "same;", "15;"]


class Cache:
    def __init__(self):
        self.d = {}

    def close(self):
        pass


def check(ctx, item):
    f = {"table": table, "ctable": ctable, "name": module_name, "calls": calls, "var": variable, "link": together}[item[0]]
    return f(ctx, *item[1:])


def families(tier):
    return [("symbol tables of all declaration lists", lambda: tables(tier)), ("symbol tables of the C backend", lambda: ctables(tier)), ("names with a meaning elsewhere", lambda: specials(tier)), ("module names", lambda: names(tier)),
            ("calls between C and Skull, all parameter lists", lambda: sig_batches(tier)), ("exported variables", lambda: variables(tier)), ("modules linked together", lambda: pairs(tier))]


def run(rep, tier):
    std.sweep(rep, families(tier), check, rule="every declaration list, file name, parameter list, exported variable and tuple of modules of the stated sets; objects are read back, linked with C and executed")


def replay(item):
    return std.replay_with(check, item)
