#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
import run, checks
props = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "none", "enable": "no hooks are needed: all monitors observe the public API and the SerialPort trait boundary", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "See DESIGN.md. Repaired defects are listed in known-findings.txt.",
}
for p in props:
    c = checks.CHECKS.get(p)
    if c is None:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": f"python3 run.py {p} quick",
        "thorough_cmd": f"python3 run.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
