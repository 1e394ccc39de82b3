#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    j = json.load(open(m))
    rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["needs"].replace("\n", " ").replace("|", "/")))
s = open(root + "/DESIGN.md").read()
head = "| bug | property | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\nWhat they taught")
s = s[:a] + "\n".join(f"| {i} | {p} | {n} |" for p, i, n in sorted(rows)) + s[b:]
open(root + "/DESIGN.md", "w").write(s)
print(len(rows), "bugs")
