"""Programs that repeat one construct n times, for every n of a range.

Each entry: name -> (builder(n), bound for quick, bound for thorough)."""
from .judge import pre


def lines(*xs):
    return "\n".join(x for x in xs if x != "") + "\n"


def rng(n):
    return range(n)


def nest(n, head, body, tail="}"):
    return "".join(head % i if "%d" in head else head for i in range(n)) + body + (tail + "\n") * n


NAMES = ["".join(p) for p in __import__("itertools").product("abc_A1", repeat=3) if p[0] not in "1_A"]
NAMES += [n[::-1] for n in ("xyz", "zyx", "ab", "ba", "aab", "aba", "baa")]
NAMES = list(dict.fromkeys(NAMES))

L = {}


def ladder(quick, thorough):
    def deco(f):
        L[f.__name__] = (f, quick, thorough)
        return f
    return deco


@ladder(70, 400)
def variables(n):
    return "".join(f"v{i} := {i}\n" for i in rng(n)) + "".join(f"eI(v{i})\n" for i in rng(n)) + "noop\n"


@ladder(70, 300)
def variables_similar_names(n):
    ns = NAMES[:n]
    return "".join(f"{x} := {i}\n" for i, x in enumerate(ns)) + "".join(f"eI({x})\n" for x in ns) + "noop\n"


@ladder(40, 200)
def mutable_variables(n):
    return ("".join(f"mut v{i} := {i}\n" for i in rng(n)) + "".join(f"v{i} = v{i} + {n}\n" for i in rng(n))
            + "".join(f"eI(v{i})\n" for i in rng(n)) + "noop\n")


@ladder(40, 200)
def local_variables(n):
    return ("f() {\n" + "".join(f"v{i} := vI({i})\nmut w{i} := v{i}\nw{i} = w{i} * 2\n" for i in rng(n))
            + "".join(f"eI(w{i})\n" for i in rng(n)) + "}\nf()\nnoop\n")


@ladder(60, 300)
def unused_variables(n):
    return "".join(f"v{i} := {i}\n" for i in rng(n)) + "noop\n"


@ladder(40, 300)
def functions(n):
    return "".join(f"f{i}() Int {{\nreturn {i}\n}}\n" for i in rng(n)) + "".join(f"eI(f{i}())\n" for i in rng(n)) + \
        "noop\n"


@ladder(40, 300)
def unused_functions(n):
    return "".join(f"f{i}() Int {{\nreturn {i}\n}}\n" for i in rng(n)) + "noop\n"


@ladder(40, 120)
def parameters(n):
    ps = ", ".join(f"p{i}: Int" for i in rng(n))
    return f"f({ps}) {{\n" + "".join(f"eI(p{i})\n" for i in rng(n)) + "noop\n}\nf(" + ", ".join(str(i) for i in rng(n)) \
        + ")\n"


@ladder(30, 90)
def mixed_parameters(n):
    t = [("Int", "eI", lambda i: str(i)), ("Float", "eF", lambda i: f"{i}.5"), ("Bool", "eB", lambda i: "true"),
         ("Rune", "eR", lambda i: "'%c'" % (97 + i % 26)), ("Str", "eS", lambda i: f'"s{i}"')]
    ps = ", ".join(f"p{i}: {t[i % 5][0]}" for i in rng(n))
    return (f"f({ps}) {{\n" + "".join(f"{t[i % 5][1]}(p{i})\n" for i in rng(n)) + "noop\n}\nf("
            + ", ".join(t[i % 5][2](i) for i in rng(n)) + ")\n")


@ladder(30, 90)
def too_many_arguments(n):
    ps = ", ".join(f"p{i}: Int" for i in rng(n))
    return f"external f({ps})\nf(" + ", ".join(str(i) for i in rng(n + 1)) + ")\n"


@ladder(30, 90)
def too_few_arguments(n):
    ps = ", ".join(f"p{i}: Int" for i in rng(n + 1))
    return f"external f({ps})\nf(" + ", ".join(str(i) for i in rng(n)) + ")\n"


@ladder(30, 60)
def wrong_last_argument(n):
    ps = ", ".join(f"p{i}: Int" for i in rng(n + 1))
    return f"external f({ps})\nf(" + "".join(f"{i}, " for i in rng(n)) + "true)\n"


@ladder(30, 60)
def wrong_first_argument(n):
    ps = ", ".join(f"p{i}: Int" for i in rng(n + 1))
    return f"external f({ps})\nf(true" + "".join(f", {i}" for i in rng(n)) + ")\n"


@ladder(40, 200)
def elifs(n):
    return ("x := chI() + chI() + chI() + chI()\nif x is 100 {\neI(100)\n}\n"
            + "".join(f"elif x is {i} {{\neI({i})\n}}\n" for i in rng(n)) + "else {\neI(101)\n}\neI(102)\n")


@ladder(40, 200)
def sequential_ifs(n):
    return "x := chI()\n" + "".join(f"if x is {i % 3} {{\neI({i})\n}}\n" for i in rng(n)) + "eI(102)\n"


@ladder(40, 120)
def nested_ifs(n):
    return "x := vB(true)\n" + nest(n, "if x {\neI(%d)\n", "eI(-1)\n") + "eI(-2)\n"


@ladder(40, 120)
def nested_elses(n):
    return "x := vB(false)\n" + nest(n, "if x {\nnoop\n} else {\neI(%d)\n", "eI(-1)\n") + "eI(-2)\n"


@ladder(40, 100)
def nested_whiles(n):
    return "x := vB(true)\n" + nest(n, "while x {\neI(%d)\n", "eI(-1)\n", "break\n}") + "eI(-2)\n"


@ladder(40, 100)
def sequential_whiles(n):
    return "mut i := 0\n" + "".join(f"while i < {k + 1} {{\neI({k})\ni = i + 1\n}}\n" for k in rng(n)) + "eI(i)\n"


@ladder(40, 120)
def nested_functions(n):
    return nest(n, "f%d() {\n", "eI(1)\n", "}") if n == 0 else \
        "".join(f"f{i}() {{\n" for i in rng(n)) + "eI(5)\n" + "".join(
            f"}}\nf{i}()\n" for i in reversed(rng(n)))


@ladder(25, 80)
def nested_namespaces(n):
    path = "".join(f"n{i}." for i in rng(n))
    return "".join(f"namespace n{i} {{\nv{i} := {i}\n" for i in rng(n)) + "c := 7\n" + "}\n" * n + f"eI({path}c)\n"


@ladder(30, 120)
def sequential_namespaces(n):
    return "".join(f"namespace n{i} {{\nc := {i}\nf() Int {{\nreturn c + {i}\n}}\n}}\n" for i in rng(n)) + \
        "".join(f"eI(n{i}.c)\neI(n{i}.f())\n" for i in rng(n)) + "noop\n"


@ladder(30, 120)
def namespace_members(n):
    return "namespace q {\n" + "".join(f"c{i} := {i}\n" for i in rng(n)) + "noop\n}\n" + \
        "".join(f"eI(q.c{i})\n" for i in rng(n)) + "noop\n"


@ladder(60, 200)
def parentheses(n):
    return "eI(" + "(" * n + "7" + ")" * n + ")\n"


@ladder(60, 200)
def parentheses_open(n):
    return "x := " + "(1 + " * n + "7" + ")" * n + "\neI(x)\n"


@ladder(60, 200)
def nested_calls(n):
    return "eI(" + "vI(1 + " * n + "7" + ")" * n + ")\n"


@ladder(60, 300)
def sum_chain(n):
    return "eI(1" + "".join(f" + vI({i})" for i in rng(n)) + ")\n"


@ladder(60, 300)
def minus_chain(n):
    return "eI(1" + "".join(f" - {i}" for i in rng(n)) + ")\n"


@ladder(60, 200)
def and_chain(n):
    return "eB(vB(true)" + "".join(" and lB(%d, true)" % i for i in rng(n)) + ")\n"


@ladder(40, 120)
def not_chain(n):
    return "eB(" + "not " * n + "vB(true))\n"


@ladder(40, 120)
def neg_chain(n):
    return "eI(" + "- " * n + "vI(5))\n"


@ladder(40, 120)
def type_aliases(n):
    return "".join(f"T{chr(97 + i // 26)}{chr(97 + i % 26)} := Int\n" for i in rng(n)) + \
        "".join(f"v{i}: T{chr(97 + i // 26)}{chr(97 + i % 26)} = {i}\neI(v{i})\n" for i in rng(n)) + "noop\n"


@ladder(30, 100)
def alias_chain(n):
    t = [f"T{chr(97 + i // 26)}{chr(97 + i % 26)}" for i in rng(n)]
    return "".join(f"{t[i]} := {t[i - 1] if i else 'Float'}\n" for i in rng(n)) + \
        (f"x: {t[-1]} = 2.5\neF(x)\n" if n else "noop\n")


@ladder(40, 200)
def exports(n):
    return "".join(f"export e{i} := {i}\nexport fn{i}() Int {{\nreturn e{i}\n}}\n" for i in rng(n)) + \
        "".join(f"eI(fn{i}())\n" for i in rng(n)) + "noop\n"


@ladder(40, 200)
def strings(n):
    return "".join(f'eS("str{i}")\n' for i in rng(n)) + "noop\n"


@ladder(130, 1100)
def string_length(n):
    return 'eS("' + "".join(chr(97 + i % 26) for i in rng(n)) + '")\n'


@ladder(70, 600)
def string_length_unicode(n):
    return 'eS("' + "".join("\u00e9\u2603\U0001f600a"[i % 4] for i in rng(n)) + '")\n'


@ladder(70, 600)
def string_wide_length(n):
    return "".join(f'eS("{c * n}")\n' for c in "\u00e9\u2603\U0001f600")


@ladder(70, 600)
def string_highest_length(n):
    return f'x := "{chr(0x10ffff) * n}"\ny: Str = x\neS(y)\n'


@ladder(40, 300)
def wide_token_length(n):
    return f"eI({chr(0x1f600) * n})\n"


@ladder(20, 60)
def wide_comment_length(n):
    return f"# {chr(0x1f600) * n}\n#{{ {chr(0x2603) * n} #}}\neI(1)\nx := 1\n"


@ladder(5, 20)
def byte_order_marks(n):
    return "\ufeff" * n + "noop\n"


@ladder(70, 600)
def string_escapes(n):
    return 'eS("' + "".join(("\\n", "\\x41", "\\\\", "\\t")[i % 4] for i in rng(n)) + '")\n'


@ladder(130, 1100)
def identifier_length(n):
    x = "v" + "".join(chr(97 + i % 26) for i in rng(n))
    return f"{x} := 5\neI({x})\n"


@ladder(70, 500)
def function_name_length(n):
    x = "v" + "".join(chr(97 + i % 26) for i in rng(n))
    return f"{x}() Int {{\nreturn 4\n}}\neI({x}())\n"


@ladder(70, 500)
def unknown_name_length(n):
    return "eI(v" + "".join(chr(97 + i % 26) for i in rng(n)) + ")\n"


@ladder(70, 500)
def unused_name_length(n):
    return "v" + "".join(chr(97 + i % 26) for i in rng(n)) + " := 1\n"


@ladder(70, 500)
def type_name_length(n):
    x = "T" + "".join(chr(97 + i % 26) for i in rng(n))
    return f"{x} := Int\nv: {x} = 1\neI(v)\n"


@ladder(70, 500)
def comment_length(n):
    return "# " + "c" * n + "\neI(1)\nx := 1\n"


@ladder(70, 500)
def block_comment_length(n):
    return "#{ " + "c\n" * n + "#}\neI(1)\nx := 1\n"


@ladder(70, 500)
def comments(n):
    return "# c\n" * n + "eI(1)\nx := 1\n"


@ladder(110, 1100)
def blank_lines(n):
    return "\n" * n + "eI(1)\nx := 1\n"


@ladder(110, 1100)
def blank_lines_then_error(n):
    return "noop\n" + "\n" * n + " x = 1\n"


@ladder(70, 500)
def spaces_then_error(n):
    return "noop\n" + " " * n + "x = 1\n"


@ladder(70, 500)
def tabs_then_error(n):
    return "noop\n" + "\t" * n + "x = 1\n"


@ladder(70, 500)
def wide_column(n):
    return 'eS("' + "a" * n + '") eI(1)\ny := 1\n'


@ladder(60, 400)
def statements(n):
    return "".join(f"eI({i})\n" for i in rng(n)) + "return 3\n"


@ladder(30, 100)
def reassignments(n):
    return "mut x := 0\n" + "".join(f"x = x * 2 + {i % 2}\n" if i < 60 else f"x = x - {i}\n" for i in rng(n)) + "eI(x)\n"


@ladder(22, 70)
def digits(n):
    return "eI(" + "1" * (n + 1) + ")\n"


@ladder(22, 70)
def leading_zeros(n):
    return "eI(" + "0" * n + "12)\n"


@ladder(30, 70)
def underscores(n):
    return "eI(1" + "_" * n + "2)\n"


@ladder(40, 400)
def float_digits(n):
    return "eF(0." + "".join(str((i * 7 + 3) % 10) for i in rng(n + 1)) + ")\n"


@ladder(60, 400)
def float_int_digits(n):
    return "eF(" + "9" * (n + 1) + ".5)\n"


@ladder(30, 80)
def references(n):
    return "".join(f"x{i} := vI({i})\ny{i} := &x{i}\n" for i in rng(n)) + "".join(f"eI(*y{i})\n" for i in rng(n)) + \
        "noop\n"


@ladder(40, 120)
def recursion(n):
    return f"f(k: Int) Int {{\nif k < 1 {{\nreturn 0\n}}\neI(k)\nreturn 1 + f(k - 1)\n}}\neI(f({n}))\n"


@ladder(40, 120)
def loop_count(n):
    return f"mut i := 0\nmut s := 0\nwhile i < {n} {{\ni = i + 1\ns = s + i\n}}\neI(s)\neI(i)\n"


@ladder(30, 100)
def externals(n):
    return "".join(f"external ex{i}(a: Int)\n" for i in rng(n)) + "noop\n"


@ladder(30, 100)
def imports(n):
    return "import mod1\n" * n + "noop\n"


@ladder(40, 100)
def returns_in_chain(n):
    return "f(x: Int) Int {\n" + "".join(f"if x is {i} {{\nreturn {i * 3}\n}}\n" for i in rng(n)) + "return -1\n}\n" + \
        "".join(f"eI(f({i}))\n" for i in rng(n + 1))


@ladder(30, 80)
def shadow_depth(n):
    return "".join(f"f{i}(x: Int) {{\neI(x)\n" for i in rng(n)) + "noop\n" + "".join(
        f"}}\nf{i}({i})\n" for i in reversed(rng(n))) + "noop\n"


@ladder(30, 80)
def sibling_scopes(n):
    return "c := vB(true)\n" + "".join(f"if c {{\nx := {i}\neI(x)\n}}\n" for i in rng(n)) + "noop\n"


@ladder(30, 80)
def locals_in_siblings(n):
    return "f(c: Bool) {\n" + "".join(f"if c {{\nmut x := {i}\nx = x + 1\neI(x)\n}}\n" for i in rng(n)) + \
        "noop\n}\nf(true)\n"


@ladder(30, 60)
def unclosed_blocks(n):
    return "if true {\n" * n + "noop\n"


@ladder(30, 60)
def extra_closers(n):
    return "noop\n" + "}\n" * n


# sizes around which counters and buffers of some width end
AROUND = [63, 64, 65, 127, 128, 129, 255, 256, 257, 258]
FAR = [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]
FURTHER = [32767, 32768, 65535, 65536, 65537]
LONG = {n for n in L if n.endswith("_length")} | {"blank_lines", "blank_lines_then_error", "spaces_then_error", "tabs_then_error", "wide_column", "string_escapes",
                                                  "string_length_unicode", "comments", "float_digits", "parameters", "too_many_arguments", "too_few_arguments"}


def all_ladders(tier, only=None):
    for name, (f, q, t) in L.items():
        if only and name not in only:
            continue
        m = q if tier == "quick" else t
        for n in [*range(m + 1), *(x for x in AROUND if x > m)]:
            yield pre(f(n))
        if name in LONG:
            for n in FAR if tier == "quick" else [x for x in (*FAR, *FURTHER) if x > m]:
                yield pre(f(n))


# depth of nesting grows with n: the compiler recurses (with the bigger stack
# frames of AddressSanitizer 4097 levels do not fit)
DEEP = {n for n in L if n.startswith("nested_")} | {"shadow_depth", "unclosed_blocks", "parentheses", "parentheses_open", "not_chain", "neg_chain"}


def far(tier, deep=1025, top=4097):
    """The sizes that all_ladders leaves out."""
    for name, (f, q, t) in L.items():
        if name not in LONG:
            for n in FAR:
                if n <= (deep if name in DEEP else top) and (tier != "quick" or n not in (4095, 4096)):
                    yield pre(f(n))
