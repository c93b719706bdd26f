#!/usr/bin/env python3
"""plant.py ID PROPERTY: records the change made in /tmp/w (a copy of /repo) as
a planted bug, with the demonstration /tmp/demo_test.go (package in $PKG), and
checks it. NEEDS and BREAKS come from the environment."""
import json, os, shutil, subprocess, sys

bid, prop = sys.argv[1:3]
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


diff = run("git diff", "/tmp/w").stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
shutil.copy("/tmp/demo_test.go", d + "/demo_test.go")
if os.environ.get("PKG"):
    open(d + "/pkg", "w").write(os.environ["PKG"])
if os.environ.get("FLAGS"):
    open(d + "/flags", "w").write(os.environ["FLAGS"])
json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
r = run("go build ./... && go test -count=1 ./...", "/tmp/w")
print("tests with the bug:", "ok" if r.returncode == 0 else "FAIL\n" + r.stdout[-1500:])
r0 = run("bash %s/demo.sh" % d, "/repo")
print("demo without:", r0.returncode, "" if r0.returncode == 0 else r0.stdout[-1500:])
r1 = run("bash %s/demo.sh" % d, "/tmp/w")
print("demo with:", r1.returncode, "" if r1.returncode else "NOT SHOWN", r1.stdout[:300])
