#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that plans.py has a plan for."""
import json
import re
from pathlib import Path

here = Path(__file__).resolve().parent
plans = set(re.findall(r"^def (c\d\d)\(c\)", (here / "harness/plans.py").read_text(), re.M))
notes = json.loads((here / "harness/levels.json").read_text())
checks, na = [], []
for line in (here / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    if pid.lower() in plans:
        n = notes.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "technique": n.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
            "level": "model_checking",
            "level_note": n["note"],
        })
    else:
        na.append({"property": pid, "reason": "the check for it is not built yet"})
(here / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "All checks use TLA+ with TLC; no hooks in the code under test. See DESIGN.md.",
}, indent=1) + "\n")
