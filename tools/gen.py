#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bounds.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from props import P
NA = []
try:
    from props import NA
except ImportError: pass
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + [n["prop"] for n in NA]:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": ["return values and result objects of the public functions"], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
  "evidence_file": "evidence/%s.json" % p["id"], "technique": "explicit-state exhaustive exploration of the compiled implementation (stateless model checking over a bounded alphabet of inputs and operation histories) against an independent reference model",
  "level": "model_checking", "level_note": "Exhaustive within bounds: " + p["bounds"] + ". Oracle: " + p["note"] + ". Trusts the reference in mc/ref.hpp and the numerical tolerances; nothing is claimed beyond the bounds."} for p in P]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NA],
  "hooks": {"guard": "none", "enable": "no hooks: checks compile /repo/src/LNLib unmodified together with a driver from /verif/checks", "source_commits": []},
  "notes": "Every check compiles the library from /repo's working tree with ASan and libstdc++ assertions and explores its bounded space completely with 8 worker processes. Known findings and repaired defects: known_findings.json."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: {"bounds": p["bounds"], "assumptions": p["assume"] + ["oracle: " + p["note"], "floating point: x86-64 double, gcc -O1"]} for p in P}, open(os.path.join(V, "bounds.json"), "w"), indent=1)
print(len(P), "properties")
# DESIGN.md
cj = os.path.join(V, "tools", "caught.json"); caught = json.load(open(cj)) if os.path.exists(cj) else {}
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(V, "tools", "design_head.md")).read())
    f.write("\n## Properties\n")
    for p in P:
        f.write("\n### %s – %s\n\n%s\n\n*Enumerated (bounds, quick – thorough):* %s.\n*Oracle:* %s.\n*Why tests cannot settle it:* %s.\n*Anchors:* %s.\n" % (p["id"], p["title"], p["statement"], p["bounds"], p["note"], p["why"], "; ".join(a for a, b in p["mech"])))
    f.write("\n## Not applicable\n\n")
    for n in NA: f.write("* %s (%s): %s\n" % (n["prop"]["id"], n["prop"]["title"], n["reason"]))
    if not NA: f.write("None of the listed properties.\n")
    tail = os.path.join(V, "tools", "design_tail.md")
    if os.path.exists(tail): f.write("\n" + open(tail).read())
    f.write("\n## Known findings and repairs\n\n")
    for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"]: f.write("* %s\n" % (k["what"] if k["status"] == "fixed" else "OPEN property=%s key=%s: %s" % (k["property"], k["key"], k["what"])))
    f.write("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
    sd = os.path.join(V, "seeded")
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json"))); f.write("| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], caught.get(b, "not run")))
