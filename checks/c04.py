"""Static typing: every operator x operand kinds x place of use, every call
signature x argument list, every return, against the reference checker."""
import itertools
import re

from vlib import gen, judge, ladders, std

TYPES = ["Int", "Float", "Bool", "Rune", "Str"]
LIT = {"Int": "1", "Float": "1.5", "Bool": "true", "Rune": "'c'", "Str": '"s"', "&Int": "ri", "&Bool": "rb"}
PRELUDE = """ci := 1
cf := 1.5
cb := true
cr := 'c'
cs := "s"
mut mi := 1
mut mf := 1.5
mut mb := true
mut mr := 'c'
mut ms := "s"
ri := &ci
rb := &cb
external fi() Int
external ff() Float
external fb() Bool
external fr() Rune
external fs() Str
external fv()
external ti(a: Int)
external tf(a: Float)
external tb(a: Bool)
external tr(a: Rune)
external ts(a: Str)
external tp(a: &Int)
external t2(a: Int, b: Float)
Ali := Int
namespace ns {
ni := 1
nf := 2.5
ng() Bool {
return true
}
}
"""
DECLS = {}
for _d in re.split(r"(?<=\n)(?=ci|cf|cb|cr|cs|mut|ri|rb|external|Ali|namespace)", PRELUDE):
    DECLS[re.match(r"(?:mut |external |namespace )?(\w+)", _d)[1]] = _d
NEED = {"ri": ("ci",), "rb": ("cb",)}


def with_prelude(s):
    """s, preceded by the declarations it needs."""
    words = set(re.findall(r"\w+", s))
    for a, bs in NEED.items():
        if a in words:
            words.update(bs)
    return "".join(d for n, d in DECLS.items() if n in words) + s


OPERANDS = ["1", "1.5", "true", "'c'", '"s"', "ci", "cf", "cb", "cr", "cs", "mi", "mb", "ms", "fi()", "ff()", "fb()",
            "fr()", "fs()", "fv()", "ri", "rb", "*ri", "&ci", "fi", "Ali", "Int", "ns", "ns.ni", "ns.ng()", "(ci)",
            "nope", "nope()", "NaN", "0xff"]
BIN = ["+", "-", "*", "/", "mod", "<<", ">>", "^", "is", "isnt", "<", "<=", ">", ">=", "and", "or", "xor"]
UN = ["not ", "- ", "*", "&"]
USES = (["q := @", "@", "if @ {\nnoop\n}", "while @ {\nnoop\n}", "if fb() {\nnoop\n} elif @ {\nnoop\n}", "return @",
         "mi = @", "mf = @", "mb = @", "mr = @", "ms = @", "ti(@)", "tf(@)", "tb(@)", "tr(@)", "ts(@)", "tp(@)",
         "t2(1, @)", "t2(@, 1.5)", "mut q := @", "export q := @"]
        + [f"q: {t} = @" for t in TYPES + ["&Int", "Ali", "Void", "&Void", "Nope"]]
        + [f"q() {t} {{\nreturn @\n}}" for t in TYPES + ["&Int", "Ali", "Void"]] + ["q() {\nreturn @\n}"])


def check(ctx, src):
    return judge.front(ctx, src, proj="errors")


FEW = ["1", "cf", "true", "'c'", "cs", "mi", "fi()", "fb()", "fv()", "ri", "nope"]


def exprs(operands):
    yield from OPERANDS
    for u in UN:
        for a in OPERANDS:
            yield u + a
    for o in BIN:
        for a in operands:
            for b in operands:
                yield f"{a} {o} {b}"


def uses(tier):
    for u in USES:
        full = True
        for e in exprs(OPERANDS if full else FEW):
            yield with_prelude(u.replace("@", e) + "\n")


def nested(tier):
    lits = ["1", "mf", "fb()", "'c'", '"s"'] if tier == "quick" else ["1", "1.5", "true", "'c'", '"s"', "mi", "fb()"]
    for o1 in BIN:
        for o2 in BIN:
            for a, b, c in itertools.product(lits, repeat=3):
                yield with_prelude(f"q := {a} {o1} {b} {o2} {c}\n")
    if tier != "quick":
        for o1 in BIN:
            for o2 in BIN:
                for a, b, c in itertools.product(lits, repeat=3):
                    yield with_prelude(f"q := {a} {o1} ({b} {o2} {c})\n")
    for u1 in UN:
        for o in BIN:
            for u2 in UN:
                for a, b in itertools.product(["1", "mf", "fb()", "'c'", '"s"', "ri", "ci"], repeat=2):
                    yield with_prelude(f"q := {u1}{a} {o} {u2}{b}\n")


def calls(tier):
    ts = ["Int", "Float", "Bool", "Str", "&Int"]
    n = 3 if tier == "quick" else 4
    for np in range(0, 3 if tier == "quick" else 4):
        for ps in itertools.product(ts, repeat=np):
            for na in range(0, n):
                for args in itertools.product(ts, repeat=na):
                    sig = ", ".join(f"p{i}: {t}" for i, t in enumerate(ps))
                    a = ", ".join(LIT[t] for t in args)
                    yield f"ci := 1\nri := &ci\ng({sig}) {{\nnoop\n}}\ng({a})\n"


def signatures(tier):
    """Functions of every list of parameter types, references and aliases among
    them, called with every list of arguments; what each parameter is taken for
    is observed in the body."""
    ts = ["Int", "Bool", "&Int", "&Bool", "&&Int", "&&Bool", "Ali", "&Ali"]
    lit = {"Int": "1", "Bool": "true", "&Int": "ri", "&Bool": "rb", "&&Int": "rri", "&&Bool": "rrb", "Ali": "ci", "&Ali": "ra"}
    head = "ci := 1\ncb := true\nri := &ci\nrb := &cb\nrri := &ri\nrrb := &rb\nAli := Int\nca: Ali = 2\nra := &ca\n"
    use = {0: "u{i} := p{i}\n", 1: "u{i} := *p{i}\n", 2: "u{i} := *p{i}\nw{i} := *u{i}\n"}
    for ext in ("", "external "):
        for np in (1, 2, 3):
            some = ts if np < 3 else ts[1:4] if tier == "quick" else ts[:5]
            for ps in itertools.product(some, repeat=np):
                sig = ", ".join(f"p{i}: {t}" for i, t in enumerate(ps))
                for args in itertools.product(some, repeat=np):
                    call = "g(" + ", ".join(lit[t] for t in args) + ")\n"
                    if ext:
                        yield f"{head}external g({sig})\n{call}"
                    else:
                        yield f"{head}g({sig}) {{\nnoop\n}}\n{call}"
                for k in range(np):
                    for t in ("Int", "Bool", "&Int", "&Bool"):
                        if not ext:
                            body = "".join(use[p.count("&")].format(i=i) for i, p in enumerate(ps))
                            last = f"w{k}" if ps[k].count("&") == 2 else f"u{k}"
                            yield f"{head}g({sig}) {t} {{\n{body}return {last}\n}}\nz := g({', '.join(lit[p] for p in ps)})\n"
                            yield f"{head}g({sig}) {t} {{\nreturn p{k}\n}}\nz := g({', '.join(lit[p] for p in ps)})\ny: {t} = z\n"


RET_BODIES = ["return @", "if true {\nreturn @\n}\nreturn #", "if true {\nreturn #\n}\nreturn @",
              "if true {\nreturn #\n} else {\nreturn @\n}", "while true {\nreturn @\n}\nreturn #",
              "if true {\nif true {\nreturn @\n}\n}\nreturn #", "while true {\nif true {\nreturn #\n} elif true {\nreturn @\n}\n}\nreturn #",
              "namespace nn {\nreturn @\n}", "x := @\nreturn x", "if true {\nreturn\n}\nreturn #", "z() @T {\nreturn @\n}\nz()\nreturn #",
              "if true {\nz() @T {\nreturn @\n}\nz()\n}\nreturn #", "return @\nreturn #"]


def returns(tier):
    ts = TYPES + ["&Int"]
    for b in RET_BODIES:
        for t in ts + ["Void", "Ali", ""]:
            for u in ts + ["Void"]:
                e = LIT.get(u, "fv()")
                own = LIT.get(t, "1")
                body = b.replace("@T", u if u != "Void" else "").replace("@", e).replace("#", own)
                if t in ("Void", ""):
                    body2 = b.replace("@T", u if u != "Void" else "").replace("return #", "return").replace("@", e)
                    yield with_prelude(f"q() {t} {{\n{body2}\n}}\n")
                yield with_prelude(f"q() {t} {{\n{body}\n}}\n")
    for e in OPERANDS:
        for w in ("return @", "if true {\nreturn @\n}", "while true {\nreturn @\n}", "namespace nn {\nreturn @\n}"):
            yield with_prelude(w.replace("@", e) + "\n")


ALIAS = ["A := Int", "A := Float", "B := A", "B := Bool", "A := &Int", "x: A = 1", "x: A = 1.5", "x: B = true", "x: B = 1",
         "g(p: A) A {\nreturn p\n}", "y := g(1)", "y := g(x)", "mut z: A = 1", "z = 1.5", "z = x", "A := B", "A := 1", "Int := Float",
         "y: A = &x", "mut A := Int", "export A := Int", "x := A", "Int := Int", "B := &A", "B := Void", "w: B = &x"]


def aliases(tier):
    yield from gen.sequences(ALIAS, 3 if tier == "quick" else 4)


CHAIN = {"Int": "1", "Str": '"s"'}
SINKS = ["e: @T = @v", "t(@v)\nexternal t(a: @T)", "external t(a: @T)\nt(@v)", "g() @T {\nreturn @v\n}",
         "mut e := @w\ne = @v", "e := @v is @w", "if @v {\nnoop\n}", "e: @T = @v\ne2: @T = e"]


def chains(tier):
    """References to references: types of every depth first met in every order,
    values of every depth where a type of every depth is expected."""
    depth = 4 if tier == "quick" else 5
    for order in itertools.permutations(range(1, depth)):
        intro = "".join(f"external o{k}(a: {'&' * k}Int)\n" for k in order)
        for base in CHAIN:
            decl = f"v0 := {CHAIN[base]}\n" + "".join(f"v{i} := &v{i - 1}\n" for i in range(1, depth + 1))
            other = CHAIN["Str" if base == "Int" else "Int"]
            decl2 = f"w0 := {other}\n" + "".join(f"w{i} := &w{i - 1}\n" for i in range(1, depth + 1))
            for want in range(depth + 1):
                for have in range(depth + 1):
                    for via in [f"v{have}", f"w{have}"] + [f"{'*' * n}v{have + n}" for n in range(1, depth - have + 1)]:
                        for s in SINKS:
                            yield (intro + decl + (decl2 if "w" in via else "")
                                   + s.replace("@T", "&" * want + base).replace("@v", via).replace("@w", f"v{want}") + "\n")


def families(tier):
    return [("uses of expressions", lambda: uses(tier)), ("nested operators", lambda: nested(tier)),
            ("calls", lambda: calls(tier)), ("signatures", lambda: signatures(tier)), ("returns", lambda: returns(tier)), ("reference chains", lambda: chains(tier)),
            ("type aliases", lambda: aliases(tier)),
            ("statements in contexts", lambda: gen.in_contexts(gen.STMTS, 1)),
            ("statements in blocks", lambda: gen.in_blocks(gen.STMTS if tier == "thorough" else gen.CORE, 2)),
            ("statement pairs", lambda: gen.sequences(gen.STMTS if tier != "quick" else gen.CORE, 2)),
            ("ladders", lambda: ladders.all_ladders(tier))]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
