#!/usr/bin/env python3
"""Rewrites the generated lists of DESIGN.md: the bounds of every harness and the
planted bugs."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "harness", "p")


def bounds():
    d = {}
    for f in sorted(os.listdir(H)):
        if f.endswith(".go"):
            s = open(os.path.join(H, f)).read()
            for m in re.finditer(r"((?:^// .*\n)*)^func (C\d+)_(\w+)\(\)", s, re.M):
                d.setdefault(m[2], []).append("`%s` (%s): %s" % (m[3], f, " ".join(x[3:] for x in m[1].splitlines())))
    out = []
    for k in sorted(d):
        out.append("**%s**" % k)
        out += ["- " + x for x in d[k]]
        out.append("")
    return "\n".join(out)


def planted():
    out = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
    S = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, b, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"]))
    return "\n".join(out)


p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for name, text in (("bounds", bounds()), ("planted", planted())):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + "\n" + s[j:]
open(p, "w").write(s)
