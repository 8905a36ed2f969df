#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose below with tables from the registry, the findings and the planted bugs."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from checks.registry import CHECKS, TECHNIQUE  # noqa: E402

PROSE = (ROOT / "tools" / "design.md").read_text()

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
doc = json.loads((ROOT / "MANIFEST.json").read_text())
known = (ROOT / "known_findings.txt").read_text().splitlines()


def table(head, rows):
    out = ["| " + " | ".join(head) + " |", "|" + "---|" * len(head)]
    out += ["| " + " | ".join(str(x).replace("|", "\\|").replace("\n", " ") for x in r) + " |" for r in rows]
    return "\n".join(out)


per = table(
    ("id", "property", "decided in", "method", "covers, and what it trusts"),
    [(p["id"], p["title"], f"checks/{CHECKS[p['id']][0]}.py", *TECHNIQUE[p["id"]]) for p in props if p["id"] in CHECKS],
)
na = table(("id", "property", "why not"), [(x["property"], next(p["title"] for p in props if p["id"] == x["property"]), x["reason"]) for x in doc["not_applicable"]])
fixes = []
for x in known:
    if x.startswith("fixed: "):
        p, commit, what = x[7:].split(" ", 2)
        fixes.append((commit, p.split("=")[1], what))
found = []
for x in known:
    if x.startswith("finding: "):
        head, what = x[9:].split(" | ", 1)
        p, key = head.split(" ", 1)
        found.append((p.split("=")[1], key.split("=", 1)[1], what))
seeds = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeds.append((d.name, m["property"], m["needs"], m["what_it_breaks"]))
text = PROSE.replace("@PER@", per).replace("@NA@", na)
text = text.replace("@FIXES@", table(("commit", "property", "what failed"), fixes))
text = text.replace("@FOUND@", table(("property", "key", "what fails"), found))
text = text.replace("@SEEDS@", table(("planted bug", "caught by", "needs", "what it breaks"), seeds))
(ROOT / "DESIGN.md").write_text(text)
print(len(text.splitlines()), "lines")
