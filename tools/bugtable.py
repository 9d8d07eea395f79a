#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
HEAD = "## Planted bugs and the checks that catch them\n"
rows = []
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append((m["property"], i, m["needs"], m.get("also", "")))
rows.sort()
d = open(os.path.join(V, "DESIGN.md")).read()
if HEAD in d:
    d = d[:d.index(HEAD)]
d = d.rstrip() + "\n\n" + HEAD + """Each passes all 613 tests, has a demonstration, and is caught by the quick check of its property (`tools/plant.py confirm`
and `tools/plant.py catch` redo both). About seventy more changes were tried in scratch copies; those that survived the tests
and broke a property were caught by that property's check, or the check was extended until it was.

| caught by | bug | needs |
|---|---|---|
""" + "".join("| %s%s | %s | %s |\n" % (p, (", " + a) if a else "", i, n) for p, i, n, a in rows)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
