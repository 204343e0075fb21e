#!/usr/bin/env python3
"""Applies planted bugs to /repo one after another and runs checks: catch.py [--all-checks] [ids...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all-checks" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
for i in ids:
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    pids = ["C%02d" % n for n in range(1, 21)] if allc else [m["property"]]
    subprocess.run(["git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % i], check=True)
    try:
        for p in pids:
            t = time.time()
            r = subprocess.run(["python3", "check.py", p], cwd=V, capture_output=True, text=True)
            hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
            if hit or not allc or r.returncode not in (0, 1):
                print("%-20s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, "; ".join(l for l in r.stdout.split("\n") if l.startswith(("  [", "  ", "UNDEC", "ERR")))[:330]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
