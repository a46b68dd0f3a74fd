"""Evidence, violations and known findings of one check run."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tojson(x):
    if isinstance(x, bytes):
        return {"b": x.hex()}
    if isinstance(x, tuple):
        return {"t": [tojson(y) for y in x]}
    if isinstance(x, list):
        return [tojson(y) for y in x]
    if isinstance(x, str):
        try:
            x.encode()
        except UnicodeEncodeError:
            return {"b": x.encode("utf-8", "surrogateescape").hex(), "s": 1}
    return x


def unjson(x):
    if isinstance(x, dict) and "t" in x:
        return tuple(unjson(y) for y in x["t"])
    if isinstance(x, dict) and "b" in x:
        b = bytes.fromhex(x["b"])
        return b.decode("utf-8", "surrogateescape") if x.get("s") else b
    if isinstance(x, list):
        return [unjson(y) for y in x]
    return x


def known_cases(pid):
    """case name -> description, from the "known:" lines of known-findings.txt"""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("case="):
                out[w[2][5:]] = w[3].strip()
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = "exploration"
        self.coverage = {}
        self.assumptions = []
        self.violations = []   # (family, item, text)
        self.known = []
        self.known_cases = known_cases(pid)

    def add(self, o, rule=None):
        """Fold in an exploration outcome."""
        c = self.coverage
        c["evaluations"] = c.get("evaluations", 0) + o.total
        c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + o.distinct
        c["implementation_calls"] = c.get("implementation_calls", 0) + o.impl_calls
        c.setdefault("families", {}).update(o.per_family)
        for k, v in o.outcomes.items():
            d = c.setdefault("outcomes", {})
            d[str(k)] = d.get(str(k), 0) + v
        for k, v in o.counters.items():
            d = c.setdefault("counters", {})
            d[k] = d.get(k, 0) + v
        c.setdefault("seconds", {}).update({k: round(v, 1) for k, v in o.times.items()})
        s = c.setdefault("samples", [])
        for f, items in sorted(o.samples.items()):
            for it in items[:2]:
                if len(s) < 40:
                    t = tojson(it)
                    s.append({"family": f, "case": t if len(repr(t)) <= 1500 else repr(t)[:1500] + " ..."})
        c["exhaustive"] = c.get("exhaustive", True) and not o.timed_out and not o.violations
        if rule:
            c["rule"] = rule
        self.violations += o.violations

    def finish(self, wall):
        c = self.coverage
        c.setdefault("rule", "every case of each listed family is generated once, in order; distinct cases are counted "
                             "by hash of the case, and a case is non-trivial when the compiler's lexer accepted it")
        c.setdefault("evaluations", 0)
        c.setdefault("distinct_nontrivial", 0)
        c.setdefault("samples", [])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for n, (fam, item, text) in enumerate(self.violations[:5]):
            p = os.path.join(VERIF, "replay", f"{self.pid}-{n}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "family": fam, "item": tojson(item), "text": str(text)}, f, indent=1)
            print(f"-- {fam}: {item!r:.1500}")
            print(f"   {text!s:.1500}")
            print(f"VIOLATION property={self.pid} replay={p}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {c['evaluations']} cases, {len(self.violations)} violations, {wall:.1f} s")
        return 1 if self.violations else 0
