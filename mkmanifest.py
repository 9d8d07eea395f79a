#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and rules.py."""
import json
import os
from rules import RULES, LEVEL
V = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "property-based testing, invariant oracle", "C02": "property-based testing, invariant oracle", "C03": "property-based testing against a brute-force reference model",
    "C04": "property-based testing against a brute-force reference model", "C05": "property-based testing against a brute-force reference model", "C06": "property-based testing, replay of every pick against a reference model",
    "C07": "property-based testing against a brute-force reference model", "C08": "property-based testing, bound oracle", "C09": "property-based testing, metamorphic and differential",
    "C10": "property-based testing, invariant oracle", "C11": "property-based testing, partition oracle", "C12": "property-based testing, inputs with known answer",
    "C13": "property-based testing against the definition", "C14": "property-based testing against the definition", "C15": "property-based testing against a brute-force feasibility model",
    "C16": "property-based testing, fault catalogue over valid calls", "C17": "stateful property-based testing under sanitizers", "C18": "allocation-fault enumeration over generated calls",
    "C19": "callback-fault enumeration over generated calls", "C20": "property-based testing, contract-monitoring back end, differential", "C21": "property-based testing against brute force",
    "C22": "metamorphic property-based testing over histories", "C23": "stateful model-based testing", "C24": "metamorphic property-based testing", "C25": "differential property-based testing across configurations",
    "C26": "stateful property-based testing of error text",
    "C27": "property-based testing against a reference model with backtracking", "C28": "property-based testing, differential against spelled-out options",
    "C29": "property-based testing, differential against the built-in search", "C30": "metamorphic property-based testing",
}
COMMON = " Random search over generated cases with shrinking to a replay file; the thorough tier runs more and larger cases and a coverage-guided libFuzzer campaign over the same generators. Nothing is proved beyond the cases run."
NOTE = {
    "C18": "For each generated call every allocation (up to 60 spread evenly, all of them in most cases) is failed singly and from there on, so fault points are enumerated per call while the calls are sampled." + COMMON,
    "C19": "For each generated call every callback of the user back end (up to 50 spread evenly) is failed singly and from there on; calls are sampled." + COMMON,
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks build /repo's sources with build files of their own in five configurations. The commits in /repo are fixes of defects (known_findings.txt)."}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py --prop %s --tier quick" % i, "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, RULES[i].get("note", "") + COMMON).strip()})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
