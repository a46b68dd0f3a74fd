#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property on /repo's tree."""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("checks." + pid.lower())
    if "--replay" in sys.argv:
        case = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        v = mod.replay(report.unjson(case["item"]))
        print(v or "holds on this case")
        return 1 if v else 0
    t0 = time.time()
    rep = report.Report(pid, tier)
    mod.run(rep, tier)
    return rep.finish(time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
