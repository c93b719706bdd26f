#!/usr/bin/env python3
"""score.py [ID...]: runs the property's quick check against each planted bug
(applied to /repo and undone) and prints what it said."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    if subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout.strip():
        sys.exit("/repo is not clean")
    subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "/verif/check.py", p, "quick"], cwd="/verif", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{i} {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time()-t:.0f}s {v[:1]}", flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-1500:])
