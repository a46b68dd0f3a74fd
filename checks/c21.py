"""White space, blank lines and comments between statements change nothing:
every such edit at every place, compared with the unedited program and with
the reference model."""
import itertools
import re

from vlib import gen, judge, ladders, std
from vlib.client import RUN
from checks.c15 import FAULTS, HOLDERS, TOK

SPACES = ["  ", "\t", " \t ", " " * 20]
LINES = [" \n", "\t \n", "\n\n", "\n \n", "\n\t", "\n   ", "\n# c\n", "\n\t# \u00e9 \"'{}(\n", "\n#{ c #}\n", "\n#{ a\nb \" #}\n", "\n\n# c\n\n# d\n", "\n#{ c #} #{ d #}\n"]
ENDS = [" # c\n", " #{ c #}\n", ",", ", ", ",\n", " # \u2603 } \" '\n"]
DEF = re.compile(r"^\s*(external\b|mut\b|export\b|[^\W\d]\w*\s*:)")


def edits(src):
    """[(position, length, replacement)] of src"""
    out = []
    pos = 0
    toks = TOK.findall(src)
    last = len(toks) - 1
    for i, t in enumerate(toks):
        nxt = toks[i + 1] if i < last else ""
        if t.strip(" \t") == "":
            start = not i or toks[i - 1] == "\n"
            for g in SPACES + ([""] if start else []):
                if g != t:
                    out.append((pos, len(t), g))
        elif t == "\n":
            line = src[:pos].rsplit("\n", 1)[-1]
            for g in LINES:
                if i < last or g.endswith("\n"):
                    out.append((pos, 1, g))
            if line.strip() and not DEF.match(line) and ":=" not in line and "#" not in line and not line.rstrip().endswith(","):
                for g in ENDS:
                    if (i < last or g.endswith("\n")) and not (g[0] == "," and ("#" in src[pos:].split("\n")[1] or line.rstrip().endswith("{"))):
                        out.append((pos, 1, g))
        elif t[0] not in "\"'#":
            # around brackets, commas, stars and ampersands
            for m in re.finditer(r"[*&]", t):
                at = pos + m.start()
                if at and src[at - 1] not in " \t\n":
                    out += [(at, 0, " "), (at, 0, "\t")]
                elif at > 1 and src[at - 1] in " \t" and src[at - 2] not in " \t\n":
                    out.append((at - 1, 1, ""))
                if at + 1 < len(src) and src[at + 1] not in " \t\n":
                    out += [(at + 1, 0, " "), (at + 1, 0, "\t")]
                elif at + 2 < len(src) and src[at + 1] in " \t" and src[at + 2] not in " \t\n":
                    out.append((at + 1, 1, ""))
            for m in re.finditer(r"[(){},]", t):
                at = pos + m.start()
                b = src[at]
                if b != "(":
                    if src[at - 1] not in " \t\n":
                        out += [(at, 0, " "), (at, 0, "\t")]
                    elif src[at - 1] in " \t" and src[at - 2] in "(),{}":
                        out.append((at - 1, 1, ""))
                if at + 1 < len(src) and src[at + 1] not in " \t\n" and b != "}":
                    out += [(at + 1, 0, " "), (at + 1, 0, "\t")]
                elif at + 1 < len(src) and src[at + 1] in " \t" and b in "(,":
                    out.append((at + 1, 1, ""))
        pos += len(t)
    return out


def apply(src, es):
    for p, n, g in sorted(es, reverse=True):
        src = src[:p] + g + src[p + n:]
    return src


def outcome(ctx, src, opts):
    r = ctx.run(src, opts, 3, 16)
    if r.crash:
        return (r.crash,)
    # (a refused program may be refused before or after warnings were found)
    return (r.rc, sorted((k, t) for k, _, t in judge.messages(r) if r.rc == 0 or k != "W"), r.rs, r.runs if r.rs == 1 else None)


class Memo(dict):
    def close(self):
        pass


def check(ctx, item):
    base, edited = item
    memo = ctx.local.setdefault("memo", Memo())
    if base not in memo:
        if len(memo) > 50:
            memo.clear()
        # run it only where the model says that it ends
        opts = RUN if judge.simulate(judge.model(base), 3, 16)[0] is not None else 0
        memo[base] = (opts, outcome(ctx, base, opts))
    opts, a = memo[base]
    b = outcome(ctx, edited, opts)
    ctx.outcome("accepted" if a[0] == 0 else "rejected")
    ctx.nontrivial()
    if a != b:
        v = judge.model(base)
        if v is None or v.captures:
            return None
        return f"differs: {a!r:.600} / {b!r:.600}"
    return None


def singles(progs):
    for p in progs:
        for e in edits(p):
            yield (p, apply(p, [e]))


def alls(progs):
    """The same edit everywhere at once."""
    for p in progs:
        es = edits(p)
        for g in sorted({g for _, _, g in es}):
            chosen = {}
            for e in es:
                if e[2] == g:
                    chosen.setdefault(e[0], e)
            yield (p, apply(p, chosen.values()))


def pairs(progs):
    for p in progs:
        es = edits(p)
        for a, b in itertools.combinations(es, 2):
            if a[0] + a[1] < b[0]:
                yield (p, apply(p, [a, b]))


TWO = [judge.pre(s) for s in ["if chB() {\neI(1)\n}\nelse {\neI(2)\n}\n", "f(a: Int, b: Int) {\neI(a + b)\n}\nf(1, 2)\n", "while chB() {\nbreak\n}\nx := 1\neI(x)\n",
                              "if chB() {\nnoop\n}\nelif chB() {\nnoop\n}\nelse {\neI(1)\n}\n"]]


def held():
    for h, f in itertools.product(HOLDERS, FAULTS):
        if f != "}\n" and not any(b in f for b in ("#{", "@", '"a\n', "'\\q", "mut\n", "x :=\n", "+\n", "(1", "{\n" if f.count("{") != f.count("}") else "\0")):
            yield judge.pre(h.replace("@", f) + "\n")


def trees(n):
    for k in range(1, n + 1):
        for t in gen.flow_programs(k):
            yield judge.pre(gen.flow_text(t))


def families(tier):
    q = tier == "quick"
    ctxs = gen.CONTEXTS if not q else gen.CONTEXTS[::5]
    return [
        ("programs, one edit", lambda: singles(gen.PROGRAMS)),
        ("programs, same edit everywhere", lambda: alls(gen.PROGRAMS)),
        ("small programs, two edits", lambda: pairs(TWO if not q else TWO[:1] + TWO[2:3])),
        ("control flow, one edit", lambda: singles(trees(3 if q else 4))),
        ("control flow, same edit everywhere", lambda: alls(trees(4))),
        ("faults, one edit", lambda: singles(held()) if not q else singles(itertools.islice(held(), 0, None, 4))),
        ("faults, same edit everywhere", lambda: alls(held())),
        ("statements in contexts, same edit everywhere", lambda: alls(gen.in_contexts(gen.CORE, 1, ctxs)))]


def run(rep, tier):
    std.sweep(rep, families(tier), check, rule="each edit of each program is compiled and, when accepted, executed on every decision script of depth 3")


def replay(item):
    return std.replay_with(check, item)
