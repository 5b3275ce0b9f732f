#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the specs, the property list, known_findings.txt and
the results of the last run of each planted bug (tools/seed_results.json)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "bin"))
from specs import SPECS, NOT_APPLICABLE
from design_notes import INTRO, NOTES, TAIL
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
o = [INTRO.strip(), "", "## The properties, one by one", ""]
for p in props:
    i = p["id"]
    o.append(f"### {i}: {p['title']}\n")
    if i not in SPECS:
        o += [f"Not claimed: {NOT_APPLICABLE.get(i, 'no check built')}.", ""]
        continue
    s = SPECS[i]
    o.append(f"*Method:* {s['technique']}.\n")
    o.append(f"*Workload and oracle:* {s['rule']}.\n")
    o.append("*Runs (quick / thorough cases):* " + "; ".join(
        f"{r['variant']} build, mode `{r['mode']}` of `harness/{r['harness']}.cpp`: {r['quick']} / {r['thorough']}" for r in s["runs"]) + ".\n")
    if s["require"]:
        o.append("*A run only counts if it observed at least:* " + ", ".join(f"{k} {v}" for k, v in s["require"].items()) + ".\n")
    o.append("*Why tests can't settle it:* " + p["why_tests_cant"] + "\n")
    if i in NOTES: o.append("*Bounds and remarks:* " + NOTES[i].strip() + "\n")
    else: o.append("*Bounds:* " + s["level_note"] + ".\n")
o += ["## Defects found in libcosim", "",
      "All were shown with a failing input, schedule or history against the real code, and repaired with a `fix:` commit:", ""]
for l in open(os.path.join(root, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append(f"- {m[1]} ({m[2]}): {m[3]}")
    m = re.match(r"finding: property=(\S+) .* -- (.*)", l)
    if m: o.append(f"- {m[1]} (**not repaired**): {m[2]}")
o += ["", "## Planted bugs and which checks catch them", "",
      "Each was written from the property's text and the code, in a scratch copy; the demonstration passes without and fails with it, and the existing tests pass with it.", "",
      "| planted bug | property | what it breaks | needs | result of the property's quick check |", "|---|---|---|---|---|"]
res = json.load(open(os.path.join(root, "tools/seed_results.json")))
sd = os.path.join(root, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    o.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(n, "(not run)").replace("|", "/")))
o += ["", TAIL.strip(), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(o))
print(len(o), "lines; planted bugs without result:", [n for n in os.listdir(sd) if n not in res])
