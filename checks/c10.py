"""Control flow: every control-flow tree up to a size, every decision script."""
from vlib import gen, judge, std


def check(ctx, src):
    return judge.behave(ctx, src, depth=6, max_runs=64)


def fam_main(n):
    for k in range(1, n + 1):
        for p in gen.flow_programs(k):
            yield judge.pre(gen.flow_text(p) + "eI(99)\n")


def fam_void(n):
    for k in range(1, n + 1):
        for p in gen.flow_programs(k):
            yield judge.pre("f() {\n" + gen.flow_text(p, ret="return") + "}\nf()\neI(99)\n")


def fam_int(n):
    for k in range(1, n + 1):
        for p in gen.flow_programs(k):
            yield judge.pre("f() Int {\n" + gen.flow_text(p) + "return 98\n}\neI(f())\neI(99)\n")
            yield judge.pre("f() Int {\n" + gen.flow_text(p) + "}\neI(f())\neI(99)\n")


def fam_live(n):
    """Bigger trees, without statements that can never be reached."""
    for p in gen.flow_programs(n, live=True):
        yield judge.pre("f() Int {\n" + gen.flow_text(p) + "return 98\n}\neI(f())\neI(99)\n")


GAPS = ["# a\n", "# a\n# b\n", "\n\n", "#{ a #}\n\n# b\n#{ c\nd #} ", "\t \n"]


def fam_gaps(n):
    """Comments and blank lines before elif and else, and after every line."""
    for k in range(1, n + 1):
        for p in gen.flow_programs(k):
            for g in GAPS:
                t = gen.flow_text(p, gap=g)
                if g in t:
                    yield judge.pre(t + "eI(99)\n")
                yield judge.pre(t.replace("\n", "\n" + g) + "eI(99)\n")


def families(tier):
    n = 6 if tier == "thorough" else 5
    return [("trees at top level", lambda: fam_main(n)), ("trees in functions", lambda: fam_void(n)),
            ("trees in Int functions", lambda: fam_int(n)), ("bigger trees", lambda: fam_live(n + 1)),
            ("trees with comments", lambda: fam_gaps(n - 1)), ("calls with effects", gen.effects), ("conditions", gen.conditions)]


def run(rep, tier):
    std.sweep(rep, families(tier), check)


def replay(item):
    return std.replay_with(check, item)
