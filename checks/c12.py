"""Literals denote exactly the value written, or are refused."""
import itertools

from vlib import judge, ladders, std


def check(ctx, src):
    return judge.behave(ctx, src, depth=0, max_runs=1)


def one(e, x):
    return f"external {e}(x: {dict(eI='Int', eF='Float', eB='Bool', eR='Rune', eS='Str')[e]})\n{e}({x})\n"


def batch(e, xs, n=100):
    for i in range(0, len(xs), n):
        yield judge.pre("".join(f"{e}({x})\n" for x in xs[i:i + n]))


def int_forms(v):
    s = "-" if v < 0 else ""
    a = abs(v)
    return [f"{s}{a}", f"{s}0x{a:x}", f"{s}0x{a:X}", f"{s}0b{a:b}", f"{s}0o{a:o}", f"{s}{a:_}", f"{s}0x{a:_x}", f"- {a}", f"{s}0{a}"]


def ints(tier):
    vals = set(range(-300, 301))
    for k in range(0, 66):
        for d in (-2, -1, 0, 1, 2):
            vals |= {2**k + d, -2**k + d}
    for k in range(0, 21):
        for d in (-1, 0, 1):
            vals |= {10**k + d, -(10**k) + d}
    for v in sorted(vals):
        for f in int_forms(v):
            yield one("eI", f)


def int_tokens(n, alphabet="019afAFxXbo_-."):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            s = "".join(t)
            if s[0] in "019-":
                yield one("eI", s)
                yield one("eF", s)


def digits_in_base():
    for p, ok in (("0x", 16), ("0b", 2), ("0o", 8), ("", 10), ("0X", 16), ("0B", 2), ("0O", 8)):
        for c in (chr(i) for i in range(33, 127)):
            if c in "\"'#{}(),":
                continue
            yield one("eI", p + c)
            yield one("eI", p + "1" + c)
            yield one("eI", p + c + "1")
            yield one("eF", "1." + c)
            yield one("eF", c + ".1")


def underscores():
    for base in ("1234567890", "0xdeadbeef", "0b101101", "0o7654321", "123.456", "-12345", "0xFFFF"):
        e = "eF" if "." in base else "eI"
        for i in range(len(base) + 1):
            yield one(e, base[:i] + "_" + base[i:])
            yield one(e, base[:i] + "__" + base[i:])
            for j in range(i + 1, len(base) + 1):
                yield one(e, base[:i] + "_" + base[i:j] + "_" + base[j:])


def floats(tier):
    ip = ["0", "1", "9", "10", "12", "99", "123", "255", "1000", "4503599627370496", "9007199254740992", "9007199254740993", "18446744073709551616",
          "340282346638528859811704183484516925440", "1" + "0" * 100, "17976931348623157" + "0" * 292, "1" + "0" * 309, "00", "007"]
    fp = ["".join(t) for k in (1, 2, 3) for t in itertools.product("0123456789", repeat=k)]
    for i in ip[:3]:
        yield from batch("eF", [f"{i}.{f}" for f in fp], 200)
    fp2 = ["0", "5", "25", "1", "3", "7", "9", "99", "000001", "1" * 17, "1" * 40, "0" * 30 + "1", "49999999999999994", "5000000000000001", "00"]
    for i in ip:
        for f in fp2:
            yield one("eF", f"{i}.{f}")
            yield one("eF", f"-{i}.{f}")
            yield one("eF", f"- {i}.{f}")
    for k in range(1, 330 if tier != "quick" else 300, 1):
        yield one("eF", "0." + "0" * k + "1") if k < 300 else one("eF", "0." + "0" * 299 + "1")
    for x in ("NaN", "Infinity", "-NaN", "-Infinity", "- Infinity", "nan", "inf", "infinity", "Inf", "+1.5", "1.", ".5", "1.5.5", "1e5", "1.5e5", "1.0e-5",
              "1.5f", "0x1.8", "0b1.1", "1_0.5", "1.5_5", "true.5", "1.-5", "--1.5", "-.5"):
        yield one("eF", x)
        yield one("eI", x)


def bools():
    for x in ("true", "false", "True", "FALSE", "truE", "true1", "not true", "1", "0"):
        yield one("eB", x)


def special(c):
    return c < 0x20 or c in (0x7f, 0x27, 0x5c, 0x22) or 0xd800 <= c < 0xe000


def runes_raw():
    yield from batch("eR", [f"'{chr(c)}'" for c in range(0x20, 0x110000) if not special(c)], 300)
    for c in list(range(0, 0x100)) + [0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x85, 0x2028, 0x2029, 0xa0]:
        if c != 0:
            yield one("eR", f"'{chr(c)}'")
            yield one("eS", f'"{chr(c)}"')
            yield one("eS", f'"a{chr(c)}b"')
            yield one("eR", f"'{chr(c)}x'")


def runes_hex(tier):
    step = 1 if tier != "quick" else 7
    cs = sorted(set(range(0, 0x110000, step)) | set(range(0, 0x3000)) | {0x10ffff, 0xffff, 0x10000, 0xfffe})
    yield from batch("eR", [f"'\\x{c:x}'" for c in cs if not 0xd800 <= c < 0xe000], 300)
    yield from batch("eS", [f'"\\x{c:x}"' for c in cs if not 0xd800 <= c < 0xe000 and c], 300)
    for c in (0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffff):
        yield one("eR", f"'\\x{c:x}'")
        yield one("eS", f'"\\x{c:x}"')


def strings_raw():
    cs = [c for c in range(0x20, 0x110000) if not special(c)]
    for i in range(0, len(cs), 50 * 60):
        yield judge.pre("".join('eS("' + "".join(map(chr, cs[j:j + 50])) + '")\n' for j in range(i, min(i + 3000, len(cs)), 50)))


def escapes():
    for c in range(1, 0x180):
        ch = chr(c)
        yield one("eR", f"'\\{ch}'")
        yield one("eS", f'"\\{ch}"')
        yield one("eS", f'"a\\{ch}b"')
    hexd = "0123456789abcdefABCDEFgxG_ "
    for k in (0, 1, 2):
        for t in itertools.product(hexd, repeat=k):
            yield one("eR", "'\\x" + "".join(t) + "'")
            yield one("eS", '"\\x' + "".join(t) + '"')
    for k in range(0, 12):
        for d in "01fF":
            for tail in ("", "g", " ", "\\n", "z"):
                yield one("eS", '"\\x' + d * k + tail + '"')
            yield one("eR", "'\\x" + d * k + "'")
            yield one("eR", "'\\x" + "0" * k + "41'")
            yield one("eS", '"\\x' + "0" * k + '41"')


PIECES = ["a", "\\n", "\\t", "\\r", "\\x41", "\\\\", "\\\"", "\\'", "'", "\u00e9", "\u2603", "\U0001f600", " ", "\t", "\n", "#", "{", "}", "#{", "#}", "\\x7f",
          "\\xe9", "%d", "0", "//"]


def strings(n):
    for k in range(0, n + 1):
        for t in itertools.product(PIECES, repeat=k):
            yield one("eS", '"' + "".join(t) + '"')


def sinks():
    lits = {"Int": ["0", "-1", "255", "9223372036854775807", "-9223372036854775807", "0xff", "0b11"], "Float": ["0.0", "-1.5", "NaN", "Infinity", "0.1"],
            "Bool": ["true", "false"], "Rune": ["'a'", "'\\n'", "'\u2603'", "'\\x1f600'"], "Str": ['""', '"a"', '"\\n\\x41"', '"\u2603"']}
    e = {"Int": "eI", "Float": "eF", "Bool": "eB", "Rune": "eR", "Str": "eS"}
    for t, ls in lits.items():
        for x in ls:
            for s in ("x := @\n#(x)", "mut x := @\n#(x)", "x: T = @\n#(x)", "export x := @\n#(x)", "f(a: T) {\n#(a)\n}\nf(@)", "f() T {\nreturn @\n}\n#(f())",
                      "f() {\nx := @\n#(x)\n}\nf()", "f() {\nmut x := @\n#(x)\n}\nf()", "namespace n {\nx := @\n}\n#(n.x)", "if vB(true) {\nx := @\n#(x)\n}",
                      "x := @\ny := &x\n#(*y)", "#((@))", "x := @\ny := x\nz := y\n#(z)", "while vB(true) {\nx := @\n#(x)\nbreak\n}", "#(@)\n#(@)\n#(@)",
                      "f(a: T, b: T) {\n#(b)\n#(a)\n}\nf(@, @)"):
                yield judge.pre(s.replace("@", x).replace("#", e[t]).replace("T", t) + "\n")
    for x in lits["Int"]:
        yield f"return {x}\n"


ALIKE = [1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]


def alike(tier, types="ISFR"):
    """Literals that hardly differ, all in one program: each keeps its value."""
    if "S" in types:
        for n in ALIKE:
            if n > 600 and tier == "quick" and n not in (1024, 4096):
                continue
            step = max(1, n // 12)
            ws = ["k" * n] + ["k" * p + c + "k" * (n - 1 - p) for p in [*range(0, n, step), n - 1] for c in "jK"]
            ws += [w[:m] for w in ws[:3] for m in (0, 1, n // 2, n - 1)] + ["k" * (n + m) for m in (1, 2, n)]
            ws += ["k" * (n - 1) + "\\n", "k" * (n - 1) + "\\t", "\u00e9" + "k" * (n - 1), "\u00e8" + "k" * (n - 1), "\u2603" + "k" * (n - 1)]
            for order in (ws, ws[::-1], ws + ws):
                yield judge.pre("".join(f'eS("{w}")\n' for w in order))
                yield judge.pre("".join(f'x{i} := "{w}"\n' for i, w in enumerate(order)) + "".join(f"eS(x{i})\n" for i in range(len(order))))
                yield judge.pre("".join(f'f{i}() Str {{\nreturn "{w}"\n}}\n' for i, w in enumerate(order)) + "".join(f"eS(f{i}())\n" for i in range(len(order))))
            for w in ws:
                yield judge.pre("mut m := vS(\"" + w + "\")\n" + "".join(f'if m is "{x}" {{\neI({i})\n}}\nif "{x}" isnt m {{\neI({i + 1000})\n}}\n' for i, x in enumerate(ws)))
    lists = []
    if "I" in types:
        for k in range(0, 63):
            lists.append(("eI", "Int", [str(2**k + d) for d in range(-3, 4) if abs(2**k + d) < 2**63] + [str(-(2**k) + d) for d in range(-3, 4)] + [str(2**k + 2**j) for j in range(0, 63, 8) if 2**k + 2**j < 2**63]))
    if "F" in types:
        for k in range(0, 22):
            lists.append(("eF", "Float", ["0." + "0" * k + x for x in ("1", "10000000000000001", "1000000000000001", "10000000000001", "2", "15", "09999999999999999", "-"[:0] + "12345678901234567")] +
                          ["1" + "0" * k + x for x in (".0", ".5", ".25", ".000001", ".0000000001")] + ["-0.0", "0.0", "-0." + "0" * k + "1"]))
    if "R" in types:
        for a in (0x21, 0x61, 0xa1, 0x101, 0x2603, 0xff01, 0x1f600, 0x10fff0):
            lists.append(("eR", "Rune", [f"'{chr(c)}'" for c in range(a, a + 14) if chr(c) not in "'\\"] + [f"'\\x{c:x}'" for c in range(a, a + 14)]))
    for e, t, xs in lists:
        for order in (xs, xs[::-1]):
            yield judge.pre("".join(f"{e}({x})\n" for x in order))
            yield judge.pre("".join(f"x{i} := {x}\n" for i, x in enumerate(order)) + "".join(f"{e}(x{i})\n" for i in range(len(order))))
            yield judge.pre("".join(f"f{i}() {t} {{\nreturn {x}\n}}\n" for i, x in enumerate(order)) + "".join(f"{e}(f{i}())\n" for i in range(len(order))))


def families(tier):
    q = tier == "quick"
    return [("integers", lambda: ints(tier)), ("integer-like tokens", lambda: int_tokens(4 if q else 5)), ("digits", digits_in_base),
            ("underscores", underscores), ("floats", lambda: floats(tier)), ("booleans", bools), ("raw runes", runes_raw),
            ("hex runes", lambda: runes_hex(tier)), ("raw strings", strings_raw), ("escapes", escapes), ("strings", lambda: strings(3)),
            ("sinks", sinks), ("literals alike", lambda: alike(tier)), ("ladders", lambda: ladders.all_ladders(tier, {
                "string_length", "string_length_unicode", "string_wide_length", "string_highest_length", "string_escapes", "digits", "leading_zeros", "underscores", "float_digits", "float_int_digits",
                "strings"}))]


def run(rep, tier):
    rep.assumptions = ["code points above 0x10FFFF and denormal floats are unspecified"]
    std.sweep(rep, families(tier), check, limit=60)


def replay(item):
    return std.replay_with(check, item)
