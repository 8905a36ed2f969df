#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the list of properties."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from checks.registry import CHECKS, TECHNIQUE  # noqa: E402

NA = {
    "C39": "decoding cost is a runtime quantity; which chunks are decoded is data-dependent and no static bound in reach "
    "separates 'decoded' from 'cast lazily by the Arrow kernels'",
    "C40": "the shortest round-tripping text of a double is produced inside the Arrow and NumPy kernels, not by source in "
    "this repository; there is nothing here a static rule could decide",
}
PENDING = "no check is registered yet"

ids = [json.loads(x)["id"] for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
doc = {
    "version": 1,
    "setup_cmd": "python3 -m py_compile run_check.py sa/*.py checks/*.py",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 run_check.py {p} --tier quick",
            "thorough_cmd": f"python3 run_check.py {p} --tier thorough",
            "technique": TECHNIQUE[p][0],
            "level": "other",
            "level_note": TECHNIQUE[p][1],
        }
        for p in ids
        if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in ids if p not in CHECKS],
    "notes": "Every check parses the current sources of /repo and interprets them abstractly; nothing of /repo is imported or run. No hooks.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1, ensure_ascii=False) + "\n")
print(len(doc["checks"]), "checks,", len(doc["not_applicable"]), "not applicable")
