"""Obligations, findings, evidence and exit codes of a check."""
from __future__ import annotations

import json
import os
import time

from .engine import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings(pid):
    """Keys of the listed findings of the property (`fixed:` lines suppress nothing)."""
    out = {}
    if os.path.isfile(KNOWN):
        with open(KNOWN, encoding="utf-8") as io:
            for line in io:
                if line.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in line.split("|")[0].split()[1:3])
                    if d.get("property") == pid:
                        out[d["key"]] = line.split("|", 1)[1].strip()
    return out


class Report:
    def __init__(self, pid, tier, repo="/repo"):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.rules = {}  # rule -> {"obligations": n, "violated": n}
        self.findings = {}  # key -> dict
        self.samples = []
        self.undecided = []
        self.functions = set()
        self.call_sites = set()
        self.files = set()
        self.paths = self.steps = self.complete = 0
        self.bounds = []
        self.notes = []
        self.info = {}

    # -------------------------------------------------------------- collecting

    def ok(self, rule, n=1):
        r = self.rules.setdefault(rule, {"obligations": 0, "violated": 0})
        r["obligations"] += n

    def bad(self, rule, construct, msg, loc=None, trace=()):
        """A violated obligation; `construct` names the offender without line numbers."""
        r = self.rules.setdefault(rule, {"obligations": 0, "violated": 0})
        r["obligations"] += 1
        r["violated"] += 1
        key = f"{rule}:{construct}".replace(" ", "_")
        if key not in self.findings:
            self.findings[key] = {
                "rule": rule,
                "construct": construct,
                "message": msg,
                "location": self.show_loc(loc),
                "path": [f"{self.show_loc(a)}: {b}" for a, b in trace][-60:],
                "count": 0,
            }
        self.findings[key]["count"] += 1

    def expect(self, cond, rule, construct, msg, loc=None, trace=()):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, construct, msg, loc, trace)
        return cond

    def show_loc(self, loc):
        if not loc:
            return "?"
        f, line, fn = loc
        if isinstance(f, str) and f.startswith(self.repo):
            f = os.path.relpath(f, self.repo)
        return f"{f}:{line} in {fn}"

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def engine(self, eng, res=None):
        """Account for what an engine analysed."""
        self.functions |= eng.functions_seen
        self.call_sites |= eng.call_sites
        self.files |= eng.files_read
        if res is not None:
            self.paths += res.paths
            self.steps += res.steps
            self.complete += res.complete
            for what, loc, _ in res.undecided:
                s = f"{self.show_loc(loc)}: {what}"
                if s not in self.undecided:
                    self.undecided.append(s)
            if res.truncated:
                self.bounds.append(res.truncated)

    # -------------------------------------------------------------- finishing

    def finish(self, explanation, minimum=1, out=print):
        known = known_findings(self.pid)
        new = {k: f for k, f in self.findings.items() if k not in known}
        ev = os.environ.get("RXLS_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        obligations = sum(r["obligations"] for r in self.rules.values())
        violated = sum(r["violated"] for r in self.rules.values())
        cov = {
            "explanation": explanation,
            "obligations": obligations,
            "discharged": obligations - violated,
            "rules": self.rules,
            "functions_analysed": sorted(self.functions),
            "call_sites_evaluated": len(self.call_sites),
            "files_read": sorted(self.files),
            "abstract_paths": self.paths,
            "abstract_paths_complete": self.complete,
            "abstract_steps": self.steps,
            "undecided_paths": self.undecided[:40],
            "undecided_count": len(self.undecided),
            "bounds_reached": self.bounds,
            "samples": self.samples,
            "notes": self.notes,
            **self.info,
        }
        doc = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        with open(os.path.join(ev, f"{self.pid}.json"), "w", encoding="utf-8") as io:
            json.dump(doc, io, indent=1, ensure_ascii=False, default=str)
        for k in known:
            if k in self.findings:
                out(f"KNOWN-FINDING: property={self.pid} {known[k]}")
        code = 0
        for i, (k, f) in enumerate(sorted(new.items())):
            path = os.path.join(ev, f"replay-{self.pid}-{i}.json")
            with open(path, "w", encoding="utf-8") as io:
                json.dump({"property": self.pid, "key": k, **f}, io, indent=1, ensure_ascii=False, default=str)
            out(f"{f['location']}: [{f['rule']}] {f['construct']}: {f['message']}")
            out(f"VIOLATION property={self.pid} replay={path}")
            code = 1
        if code == 0:
            # what is left undecided is said, and no reason to refuse an answer, unless hardly anything is decided
            if obligations < minimum and not (self.undecided and obligations >= minimum / 10):
                msg = f"only {obligations} obligations were decided ({minimum} expected)"
                if self.undecided:
                    msg += "; undecided: " + "; ".join(self.undecided[:5])
                raise AnalysisBroken(msg)
            out(
                f"OK property={self.pid} obligations={obligations} paths={self.paths} "
                f"functions={len(self.functions)} undecided={len(self.undecided)} wall={time.time() - self.t0:.1f}s"
            )
        return code


ASSUMPTIONS = [
    "models of the Python builtins and of the library calls the package makes (sa/lib.py, sa/models*.py) follow their documentation",
    "no monkey patching of the analysed package at run time",
]
