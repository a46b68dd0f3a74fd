"""The C backend means the same as the native one: C that the real compiler
emits is compiled, run on every decision script and compared with the
reference interpreter."""
import itertools
import re

from vlib import build, gen, judge, ladders, native, ref, std
from vlib.client import CBACK, DEBUG, WANT
from vlib.interp import Interp, binop, externals_known
from checks import c08, c09, c10, c11, c12
from checks.c13 import every

DEPTH, RUNS = 3, 8
PURE = {"vI", "vF", "vB", "vR", "vS"}
RESERVED = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union "
               "unsigned void volatile while asm typeof main init pow exp log sin cos tan y0 y1 yn j0 j1 jn gamma".split())


class Inexpressible(Exception):
    """Outside of the property (see its statement)."""


class Shape:
    """Walks an accepted program; raises Inexpressible."""

    def __init__(self, v):
        self.v = v
        self.funcs, self.vars, self.depth = set(), set(), {}
        self.block(v.nodes, 0, [], True)

    def block(self, nodes, depth, funcs, static):
        for n in nodes:
            if n.kind == "func":
                name = n.name.text
                if name in self.funcs or name in RESERVED:
                    raise Inexpressible("function name")
                self.funcs.add(name)
                if n.child is not None and not n.external:
                    for p in n.sym.psyms or ():
                        self.name(p.name)
                    self.block(n.child, 0, funcs + [n.sym], False)
                continue
            if n.kind == "def" and n.sym is not None and n.sym.kind == "var":
                self.name(n.sym.name)
                if n.sym.func is self.v.main:
                    self.depth[n.sym.uid] = depth
            if n.expr is not None and not (n.kind == "def" and (n.sym is None or n.sym.kind != "var")):
                self.expr(n.expr, funcs)
                if n.kind == "def" and not funcs and static and derefs(n.expr):
                    raise Inexpressible("initialized with what a reference refers to")
            if n.child:
                self.block(n.child, depth + 1, funcs, static and n.kind == "namespace")
        if self.funcs & self.vars:
            raise Inexpressible("a name of two kinds")

    def name(self, n):
        if n in RESERVED:
            raise Inexpressible("variable name")
        self.vars.add(n)

    def expr(self, e, funcs):
        """(has an effect, reads something that can change)"""
        if e.op == "const":
            return False, False
        if e.op == "id":
            self.use(e, funcs)
            return False, not e.sym.const
        if e.op in ("ref", "deref", "neg", "not"):
            a = self.expr(e.rhs, funcs)
            return a[0], a[1] or e.op == "deref"
        if e.op == "call":
            if "." in e.tok.text:
                raise Inexpressible("namespace member")
            if e.sym in funcs[:-1]:
                raise Inexpressible("inner function calls outer")
            kids = [self.expr(a, funcs) for a in e.args]
        else:
            kids = [self.expr(e.lhs, funcs), self.expr(e.rhs, funcs)]
            if e.op in ("and", "or") and kids[1][0]:
                raise Inexpressible("short circuit")
        effects = sum(k[0] for k in kids)
        if effects > 1 or (effects and any(r and not f for f, r in kids)):
            raise Inexpressible("evaluation order")
        return bool(effects) or (e.op == "call" and e.sym.name not in PURE), any(k[1] for k in kids)

    def use(self, e, funcs):
        if "." in e.tok.text:
            raise Inexpressible("namespace member")
        if funcs and self.depth.get(e.sym.uid, 0) > 0:
            raise Inexpressible("function uses a variable of a block")


def derefs(e):
    return e.op == "deref" or any(derefs(x) for x in (e.lhs, e.rhs, *(e.args or ())) if x is not None)


class CInterp(Interp):
    """Leaves out what the C emitted for Int computes differently."""

    def apply(self, e, a, b):
        v = super().apply(e, a, b)
        if e.op == ">>" and a < 0:
            raise ref.Unspecified("shift of a negative number")
        if e.type == "Int" and narrow(e):
            if not -2**31 <= v < 2**31 or (e.op in ("<<", ">>") and b >= 32):
                raise ref.Unspecified("32-bit arithmetic")
        return v


def narrow(e):
    """Made of small literals only."""
    if e.op == "const":
        return -2**31 <= e.value < 2**31
    if e.op in ("id", "call", "deref", "ref", "^"):
        return False
    if e.op == "neg":
        return narrow(e.rhs)
    if e.op in ("<<", ">>"):
        return narrow(e.lhs)
    return narrow(e.lhs) and narrow(e.rhs)


def simulate(src, whole=False):
    v = judge.model(src)
    if v is None or not v.ok or v.captures or not externals_known(v):
        return None, "not a program"
    try:
        if not whole:
            Shape(v)
        it = (Interp if whole else CInterp)(v, DEPTH)
        return it.runs(RUNS), it.total_steps
    except Inexpressible as x:
        return None, str(x)
    except (ref.Unspecified, RecursionError):
        return None, "unspecified"


def result(rv):
    if rv in ("cut", "None"):
        return rv
    n = int(rv) & 0xFFFFFFFF
    return str(n - 2**32 if n >= 2**31 else n)


EXTS = re.compile(r"(?:external .*\n)*")


def merged(ctx, srcs, size=40):
    """Programs that only call externals, joined."""
    out, good = [], []
    for s in srcs:
        m, why = simulate(s)
        if m is None:
            ctx.outcome(why)
        else:
            k = EXTS.match(s).end()
            good.append((s[:k], s[k:]))
    for i in range(0, len(good), size):
        part = good[i:i + size]
        exts = dict.fromkeys(x for e, _ in part for x in e.splitlines())
        out.append("".join(x + "\n" for x in exts) + "".join(b if b.endswith("\n") else b + "\n" for _, b in part))
    return out


def check(ctx, item):
    dbg, srcs = item
    want, w = {}, native.get(ctx)
    if dbg == "merge":
        dbg, srcs = False, merged(ctx, srcs)
    for i, s in enumerate(srcs):
        m, why = simulate(s, dbg == "whole")
        if m is None:
            ctx.outcome(why)
            continue
        r = ctx.run(s, CBACK | WANT | (DEBUG if dbg is True else 0), name=f"m{i}.sk")
        if r.crash or r.rc or not r.art:
            return f"no C for {s!r}: {r.brief()}"
        want[i] = [(a, result(b), c) for a, b, c in m]
        w.write(f"m{i}.c", r.art)
        ctx.outcome("compared")
        ctx.count("runs", len(m))
        ctx.count("steps", why)
    if not want:
        return None
    ctx.nontrivial()
    for i in want:
        defs = [f"-D{n}={n}_{i}" for n in ("main", "_strcmp", "_int_pow", "_float_pow")]
        r = native.run(["gcc", "-std=gnu2x", "-w", "-O0", "-fPIC", "-pipe", "-c", f"m{i}.c", "-o", f"m{i}.o"] + defs, w.dir)
        if r.returncode:
            return f"the C for {srcs[i]!r} does not compile: {r.stdout[:600]}"
    r = native.run(["gcc", "-shared", "-Wl,-z,norelro,-z,now", "-o", "t.so"] + [f"m{i}.o" for i in want] + ["-lm"], w.dir)
    if r.returncode:
        return f"does not link: {r.stdout[-600:]}"
    r = native.run([build.tool("crun"), w.path("t.so"), str(DEPTH), str(RUNS), "20"] + [f"main_{i}" for i in want], w.dir)
    got = native.parse(r.stdout)
    for i in want:
        g = got.get(f"main_{i}", "no result: " + r.stdout[-300:])
        if g != want[i]:
            return f"C of {srcs[i]!r}: expected {want[i]!r:.500}, got {g!r:.500}"
    return None


def batches(progs, size=25, dbg=False):
    seen = set()

    def fresh():
        for p in progs:
            if p not in seen:
                seen.add(p)
                yield p
    it = fresh()
    while True:
        b = tuple(itertools.islice(it, size))
        if not b:
            return
        yield (dbg, b)


FEW = {0, 1, -1, 2, -2, 3, -7, 10, 31, 32, 63, 64, -64, 255, 2**31 - 1, -2**31, 2**31, 2**32, -2**32, 2**53 + 1, 2**63 - 1, -2**63}


def operators(form, few):
    """c08's grids without the operands that the property leaves out."""
    for t, ops in (("Int", c08.IOPS), ("Float", c08.FOPS), ("Rune", ["is", "isnt"]), ("Str", ["is", "isnt"]),
                   ("Bool", ["and", "or", "xor", "is", "isnt"])):
        for op in ops:
            if form == "condition" and op not in c08.BOOLR:
                continue
            ps = [(a, b) for a, b in itertools.product(c08.operand_sets(t), repeat=2) if c08.defined(t, op, a, b)
                  and (t != "Int" or not few or {a, b} <= FEW) and (t != "Int" or int_defined(op, a, b, form))]
            for i in range(0, len(ps), 100):
                yield re.sub(r"\by(\d+)", r"w\1", c08.program(t, op, form, ps[i:i + 100]))


def int_defined(op, a, b, form):
    if op == ">>" and a < 0:
        return False
    small = [-2**31 <= x < 2**31 for x in (a, b)]
    if op in ("<<", ">>"):
        small[1] = True
    if all(small) and form in ("literals", "lit-run") and op in ("<<", ">>"):
        return b < 32 and -2**31 <= binop(op, "Int", a, b) < 2**31
    if all(small) and form == "literals" and op not in c08.BOOLR and op != "^":
        return -2**31 <= binop(op, "Int", a, b) < 2**31
    return True


def flows(n):
    for k in range(1, n + 1):
        for t in gen.flow_programs(k, live=True):
            yield judge.pre(gen.flow_text(t))


def unaries():
    un = ["", "- ", "not ", "-"]
    for op in c09.OPS:
        for u, v in itertools.product(un, repeat=2):
            for ks in ("ii", "bb", "ff"):
                for wrap in (False, True):
                    a, b = (c09.operand(k, ks[k], False) for k in (0, 1))
                    if wrap:
                        a = f"v{ks[0].upper()}({a})"
                    yield judge.pre(f"{c09.result_sink(ks, (op,))}({u}{a} {op} {v}{b})\n")


def variables(n):
    for t in c11.T:
        yield from c11.globals_(t, n)
        yield from c11.locals_(t, n)
    yield from c11.recursion(n + 1)
    yield from c11.passing(n, False)
    yield from c11.passing(n, True)


def families(tier):
    q = tier == "quick"
    n = 2 if q else 3
    progs = [("programs", lambda: gen.PROGRAMS),
             ("statements in contexts", lambda: gen.in_contexts(gen.CORE if q else gen.STMTS, 1)),
             ("trees at top level", lambda: c10.fam_main(n + 1)), ("trees in functions", lambda: c10.fam_void(n + 1)),
             ("trees in Int functions", lambda: c10.fam_int(n + 1)), ("bigger trees", lambda: flows(n + 2)),
             ("trees with comments", lambda: c10.fam_gaps(n)),
             ("operator sinks", c09.sinks),
             ("variables", lambda: variables(n)),
             ("loop bodies at top level", lambda: c11.loops(n + 1, False)), ("loop bodies in functions", lambda: c11.loops(n + 1, True)), ("literal sinks", c12.sinks)]
    merge = [("chains of 1", lambda: c09.chains(1, c09.OPS, "ibf", False)), ("chains of 2", lambda: c09.chains(2, c09.OPS, "ibf", False)),
             ("bracketed", lambda: c09.bracketed(3, c09.REPR if q else c09.OPS)), ("unary operators", unaries),
             ("integers", lambda: c12.ints("quick")), ("floats", lambda: c12.floats("quick")), ("escapes", c12.escapes),
             ("strings", lambda: c12.strings(n))]
    progs += [(f"operators, {f}", (lambda f=f: operators(f, q))) for f in c08.FORMS]
    progs += [("unary", c08.unary), ("powers", lambda: c08.powers("quick")), ("compound", c08.compound),
              ("calls with effects", gen.effects), ("conditions", lambda: every(gen.conditions(), 4 if q else 1)), ("ladders", lambda: every(ladders.all_ladders(tier), 5 if q else 1)),
              ("statements in blocks", lambda: every(gen.in_blocks(gen.STMTS, 2), 20 if q else 2))]
    big = [("runes", c12.runes_raw), ("hex runes", lambda: c12.runes_hex("quick")), ("raw strings", c12.strings_raw)]
    return [(name, (lambda g=g: batches(itertools.islice(g(), 60 if q else None), 3))) for name, g in big] + [
        (name, (lambda g=g: batches(g()))) for name, g in progs] + [
        (name, (lambda g=g: batches(g(), 200, "merge"))) for name, g in merge] + [
        (name + ", debug", (lambda g=g: batches(g(), dbg=True))) for name, g in progs[:3 if q else len(progs)]]


# One program for each way in which the C is known to differ (the property
# leaves these out).
DIFFERENT = {
    "evaluation-order": "g(a: Int, b: Int) Int {\nreturn a + b\n}\neI(g(lI(1, 1), lI(2, 2)))\n",
    "short-circuit": "eB(vB(false) and lB(1, true))\n",
    "same-function-name": "a() {\nh() {\neI(1)\n}\nh()\n}\nb() {\nh() {\neI(2)\n}\nh()\n}\na()\nb()\n",
    "reserved-words": "int := 1\neI(int)\n",
    "name-of-two-kinds": "a() {\nh := 1\neI(h)\n}\nb() {\nh() {\neI(2)\n}\nh()\n}\nmut h := 3\na()\nb()\neI(h)\n",
    "namespace-member": "namespace n {\nx := 1\n}\neI(n.x)\n",
    "block-variable": "if vB(true) {\nx := 1\nh() {\neI(x)\n}\nh()\n}\n",
    "inner-calls-outer": "a(n: Int) {\nb(m: Int) {\nif m > 0 {\na(m - 1)\n}\n}\neI(n)\nb(n)\n}\na(2)\n",
    "negative-shift": "eI(vI(-8) >> 1)\n",
    "narrow-literals": "eI(1 << 40)\n",
    "dereferenced-initializer": "x := 1\ny := &x\nz := *y\neI(z)\n",
}


def different(rep):
    for slug, body in DIFFERENT.items():
        src = judge.pre(body)
        text = std.replay_with(check, ("whole", (src,)))
        if text is None:
            continue
        if slug in rep.known_cases:
            rep.known.append(rep.known_cases[slug])
        else:
            rep.violations.append(("known differences", ("whole", (src,)), text))


def run(rep, tier):
    build.tool("crun")
    different(rep)
    std.sweep(rep, families(tier), check, rule="each program of each family is translated to C, compiled, and executed on every decision script of depth 3")


def replay(item):
    return std.replay_with(check, item)
