#!/usr/bin/env python3
"""Runs checks on the current /repo tree: all.py [-j N] [ids...]; prints one line per check."""
import subprocess, sys, time, os
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = int(a[a.index("-j") + 1]) if "-j" in a else 2
ids = [x for x in a if x.startswith("C")] or ["C%02d" % n for n in range(1, 21)]
def one(p):
    t = time.time()
    r = subprocess.run(["python3", "check.py", p], cwd=V, capture_output=True, text=True)
    l = [x for x in (r.stdout + r.stderr).split("\n") if x.startswith(("VIOL", "UNDEC", "ERR", "Trace", "KNOWN", "  "))]
    print("%s rc=%d %.0fs %s" % (p, r.returncode, time.time() - t, " | ".join(l)[:600]), flush=True)
with ThreadPoolExecutor(j) as ex: list(ex.map(one, ids))
