"""Collections and text helpers against mathematical counterparts."""
import os
import subprocess

from vlib import build


def execute(tier):
    exe = build.build("containers", "asan")
    env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:exitcode=77")
    try:
        p = subprocess.run([exe, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=600)
    except subprocess.TimeoutExpired:
        return None, "does not end"
    counts = [l for l in p.stdout.split("\n") if l.startswith("COUNTS")]
    fails = [l for l in p.stdout.split("\n") if l.startswith("FAIL")]
    if fails:
        return counts, "; ".join(fails[:5])
    if p.returncode or not counts:
        i = p.stderr.find("ERROR")
        return counts, f"exit {p.returncode}: " + p.stderr[max(i, 0):][:1500]
    return counts, None


def run(rep, tier):
    counts, bad = execute(tier)
    rep.level = "model_checking"
    c = rep.coverage
    s, t, n = map(int, counts[0].split()[1:]) if counts else (0, 0, 0)
    c.update(states=s, transitions=t, traces_validated_against_impl=n, evaluations=n, distinct_nontrivial=n, exhaustive=not bad,
             rule="every push/pop sequence up to a length, with a freeze at every point; every sequence of additions over 12 colliding "
                  "and similar keys up to a length; every word over 4 characters up to a length; every code point",
             samples=[{"vector": "push push pop push freeze push pop"}, {"hash table": ["a", "ab", "a", "ba", ""]}])
    if bad:
        rep.violations.append(("containers", tier, bad))


def replay(item):
    return execute(item)[1]
