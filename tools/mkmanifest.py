#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the registry in props/ and the reasons in mkprops.py."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, V)
import mkprops  # noqa: E402

registry = re.search(r"MODULES = \{(.*?)\}", open(os.path.join(V, "props", "__init__.py")).read(), re.S).group(1)
claimed = re.findall(r'"(S\d\d)"', registry)
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
PY = "/opt/venv/bin/python"
checks = []
for pid in claimed:
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} check.py {pid} --tier quick",
        "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
        "level": "exploration",
        "level_note": NOTE.get(pid, NOTE["default"]),
    })
out = {
    "version": 1,
    "setup_cmd": f"{PY} check.py --setup",
    "hooks": {"guard": "POSTBOUND_SIM", "enable": "No hooks were needed: all seams are at the standard library / driver level. "
              "The checks set POSTBOUND_SIM=1 for completeness; no code in /repo reads it.", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"] or "Planned for simulation; the check is not finished yet."} for p in mkprops.P if p["id"] not in claimed],
    "notes": "See DESIGN.md. 'fix:' commits in /repo repair defects found by these checks; KNOWN_FINDINGS.json lists them.",
}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(out["not_applicable"]), "not applicable")
