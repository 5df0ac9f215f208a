#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "online monitors at the API boundary compared with an executable reference model (sequential histories) and with settled-state oracles (concurrent histories with injected delays, re-entrancy and panics), in virtual-time bubbles, under the Go race detector"
TABLE = json.load(open(os.path.join(V, "tools", "checks.json")))
NOTE = "Held on the generated executions only (counts in the evidence): case lists fixed by VERIF_SEED, scheduling left to the runtime with GOMAXPROCS 1 to 8. Trusts the Go toolchain (testing/synctest, race detector) and the harness model."
checks, rules = [], {}
for c in TABLE["checks"]:
    checks.append({
        "property": c["id"], "quick_cmd": "python3 run.py " + c["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + c["id"],
        "technique": "runtime monitoring: " + (c.get("technique") or CORE),
        "level": "exploration", "level_note": (c.get("note", "") + " " + NOTE).strip(),
    })
    rules[c["id"]] = {"rule": c["rule"], "assumptions": c.get("assumptions", [])}
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
           "not_applicable": TABLE["not_applicable"],
           "notes": "No hooks in /repo: every monitor observes the exported API. Known findings: known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(rules, open(os.path.join(V, "tools", "rules.json"), "w"), indent=1)
