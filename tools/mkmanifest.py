#!/opt/venv/bin/python
"""Regenerates /verif/MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, "tools")]
import mkprops  # noqa: E402

WHAT = {
    "exploration": "Seeded search over the schedules, histories and faults described in DESIGN.md; a clean batch is evidence, not proof.",
    "fault_enumeration": "Seeded choice of fault points and sequences over all calls a run makes; sampled, not exhaustive.",
}
checks, na = [], [{"property": n[0], "reason": n[4]} for n in mkprops.NA]
for p in mkprops.P:
    i = p["id"]
    if i in [n[0] for n in mkprops.NA]:
        continue
    m = importlib.import_module("props." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "deterministic simulation with fault injection: " + m.TECHNIQUE,
        "level": m.LEVEL,
        "level_note": WHAT[m.LEVEL] + " Assumes: " + "; ".join(m.ASSUME) + ". Real: " + ", ".join(m.REAL) +
                      ". Stubbed: " + ", ".join(m.STUBS) + ".",
    })
out = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: schedules and faults enter through sys.monitoring, the simulated user's own callables, a "
             "simulated disk under open(), the plotting library's timer class and forked processes. Defects found and "
             "repaired are listed in known_findings.txt.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
