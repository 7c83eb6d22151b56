#!/usr/bin/env python3
"""Writes SEEDED.md from seeded/*/meta.json and logs of tools/catch.sh (arguments)."""
import glob, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (\S+) rc=(\d+)", l)
        if m:
            res.setdefault(m[1], {})[m[2]] = m[3] == "1"
out = ["# Planted bugs", "", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    by = ", ".join(p for p, ok in sorted(res.get(n, {}).items()) if ok) or "**not caught**"
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append(f"| {n} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {by} |")
open(os.path.join(V, "SEEDED.md"), "w").write("\n".join(out) + "\n")
