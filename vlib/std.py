"""Boilerplate shared by the explorations of the in-process compiler."""
from . import build, explore

FILES = {"mod1.sk": "x := 1\n", "m.sk": "x := 1\n"}


def sweep(rep, families, judge, variants=("plain",), budget=None, rule=None, limit=20, max_viol=3, setup=None):
    o = explore.explore(families, judge, variants, limit, FILES, budget, max_viol)
    rep.add(o, rule)
    return o


def replay_with(judge, item, variants=("plain",)):
    ctx = explore.Ctx({v: build.build("driver", v) for v in variants}, 60, FILES)
    ctx.fresh = True
    try:
        return judge(ctx, item)
    finally:
        ctx.close()


def one(src, opts=0, variant="plain", limit=60, **kw):
    """One case in a driver of its own."""
    ctx = explore.Ctx({variant: build.build("driver", variant)}, limit, FILES)
    ctx.fresh = True
    try:
        return ctx.run(src, opts, variant=variant, **kw)
    finally:
        ctx.close()
