"""Sharded exhaustive exploration: every worker walks the same deterministic
enumeration and takes the cases whose index is its own (mod workers)."""
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib

from . import build
from .client import Driver

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Ctx:
    """What a judge gets: drivers of this worker, and coverage counters."""

    def __init__(self, exes, limit, files):
        self.exes, self.limit, self.files = exes, limit, files
        self.drivers = {}
        self.counters = {}
        self.outcomes = {}
        self.fresh = False
        self.impl_calls = 0
        self.seen = set()
        self.item_key = 0
        self.local = {}

    def run(self, src, opts=0, depth=0, max_runs=1, name="m.sk", variant=None):
        variant = variant or next(iter(self.exes))
        self.impl_calls += 1
        d = self.drivers.get(variant)
        if d is None:
            d = self.drivers[variant] = Driver(self.exes[variant], self.limit, self.files, self.fresh)
        r = d.run(src, opts, depth, max_runs, name)
        if r.crash and not self.fresh:
            # in the exploration a crash ends the driver: run it again alone
            r2 = self.alone(variant, src, opts, depth, max_runs, name)
            return r2
        return r

    def alone(self, variant, src, opts, depth, max_runs, name):
        d = Driver(self.exes[variant], self.limit * 3, self.files, True)
        try:
            return d.run(src, opts, depth, max_runs, name)
        finally:
            d.close()

    def nontrivial(self):
        """The current case is not trivial (counted once per distinct case)."""
        self.seen.add(self.item_key)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def close(self):
        for d in self.drivers.values():
            d.close()
        self.drivers = {}
        for d in self.local.values():
            d.close()
        self.local = {}


def key_bytes(item):
    if isinstance(item, str):
        return item.encode("utf-8", "surrogateescape")
    if isinstance(item, bytes):
        return item
    return repr(item).encode("utf-8", "surrogateescape")


def _worker(k, n, families, judge, exes, limit, files, q, deadline, max_viol):
    ctx = Ctx(exes, limit, files)
    viol, done, samples, timed_out = [], {}, {}, False
    try:
        for fam, gen in families:
            c = 0
            t0 = time.time()
            for item in gen():
                kb = key_bytes(item)
                if zlib.crc32(kb) % n != k:
                    continue
                c += 1
                ctx.item_key = hash(kb)
                v = judge(ctx, item)
                if v:
                    # replay before report: alone, in fresh drivers, twice
                    again = []
                    for _ in range(2):
                        fctx = Ctx(exes, limit * 3, files)
                        fctx.fresh = True
                        again.append(judge(fctx, item))
                        fctx.close()
                    if all(again):
                        viol.append((fam, item, again[-1]))
                        if len(viol) >= max_viol:
                            break
                    else:
                        ctx.count("not_reproduced_alone")
                        if len(samples.setdefault("not_reproduced_alone", [])) < 3:
                            samples["not_reproduced_alone"].append((repr(item)[:2000], str(v)[:2000]))
                if c <= 1 or c == 1000:
                    samples.setdefault(fam, []).append(item)
                if deadline and time.time() > deadline:
                    timed_out = True
                    break
            done[fam] = c
            done[("t", fam)] = time.time() - t0
            if len(viol) >= max_viol or timed_out:
                break
        q.put((k, viol, done, ctx.counters, ctx.outcomes, samples, timed_out, (ctx.impl_calls, len(ctx.seen)), None))
    except BaseException:
        q.put((k, viol, done, ctx.counters, ctx.outcomes, samples, timed_out, (ctx.impl_calls, len(ctx.seen)),
               traceback.format_exc()))
    finally:
        ctx.close()


class Outcome:
    pass


def explore(families, judge, variants=("plain",), limit=20, files=None, budget=None, max_viol=3):
    """families: [(name, generator function)].  judge(ctx, item) -> None or text."""
    exes = {v: build.build("driver", v) for v in variants}
    mp_ctx = mp.get_context("fork")
    q = mp_ctx.Queue()
    deadline = time.time() + budget if budget else None
    ps = [mp_ctx.Process(target=_worker, args=(k, WORKERS, families, judge, exes, limit, files, q,
                                               deadline, max_viol))
          for k in range(WORKERS)]
    for p in ps:
        p.start()
    o = Outcome()
    o.violations, o.per_family, o.counters, o.outcomes, o.samples = [], {}, {}, {}, {}
    o.times, o.impl_calls, o.timed_out = {}, 0, False
    o.distinct = 0
    errs = []
    got = 0
    while got < len(ps):
        try:
            k, viol, done, cnt, outs, samples, to, calls, err = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                errs.append("a worker died")
                break
            continue
        got += 1
        if err:
            errs.append(err)
        o.violations += viol
        o.timed_out |= to
        o.impl_calls += calls[0]
        o.distinct += calls[1]
        for f, c in done.items():
            if isinstance(f, tuple):
                o.times[f[1]] = max(o.times.get(f[1], 0), c)
            else:
                o.per_family[f] = o.per_family.get(f, 0) + c
        for d, s in ((o.counters, cnt), (o.outcomes, outs)):
            for a, b in s.items():
                d[a] = d.get(a, 0) + b
        for f, s in samples.items():
            o.samples.setdefault(f, []).extend(s[:2])
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if errs:
        raise RuntimeError("\n".join(errs))
    o.total = sum(o.per_family.values())
    return o
