#!/usr/bin/env python3
"""Regression of the checks: apply each small edit of dev/mutants.py to a
scratch copy of /repo's sources and compare the checks' verdicts with the
expected ones.  Not used by the checks.

    python3 dev/mutate.py [name-prefix ...]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS
from mutants2 import M2
from mutants3 import M3
from mutants4 import M4
from mutants5 import M5
MUTANTS = MUTANTS + M2 + M3 + M4 + M5


def one(m):
    name, edits, expect = m
    d = tempfile.mkdtemp(prefix="tsamut")
    try:
        shutil.copytree("/repo/turbustat", d + "/turbustat",
                        ignore=shutil.ignore_patterns("__pycache__", "*.so",
                                                      "tests"))
        for path, old, new in edits:
            fn = os.path.join(d, "turbustat", path)
            s = open(fn).read()
            if s.count(old) < 1:
                return name, "EDIT DOES NOT APPLY: %s" % old[:50]
            s = s.replace(old, new, 1)
            compile(s, fn, "exec")
            open(fn, "w").write(s)
        out = []
        for pid, want in sorted(expect.items()):
            e = dict(os.environ, TSA_REPO=d, TSA_EVIDENCE=d)
            r = subprocess.run([sys.executable, HERE + "/../check.py", pid],
                               capture_output=True, text=True, env=e)
            ok = r.returncode == want
            txt = [x for x in r.stdout.splitlines() if not
                   x.startswith("VIOLATION")]
            out.append("%s rc=%d want=%d%s" % (
                pid, r.returncode, want, "" if ok else "   <<<<<< " +
                " | ".join(txt[:2])[:300]))
        return name, "; ".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sel = [m for m in MUTANTS if not sys.argv[1:] or any(
        m[0].startswith(a) for a in sys.argv[1:])]
    with ThreadPoolExecutor(7) as ex:
        for name, res in ex.map(one, sel):
            print(name, "::", res)
