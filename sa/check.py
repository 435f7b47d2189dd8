"""Driver shared by all checks: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import re
import sys
import time
import traceback

from .program import Broken, Program
from .types import Types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.prog = None
        self.types = None
        self.obligations = {}      # rule -> [n, discharged]
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.violations = {}
        self.assumptions = []
        self.notes = []
        self.samples = {}

    # -- collecting -----------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text
        self.obligations.setdefault(rid, [0, 0])

    def require(self, cond, rid, where, msg, key=None):
        """One obligation of rule `rid` at construct `where` ("file:line (function)")."""
        o = self.obligations.setdefault(rid, [0, 0])
        o[0] += 1
        if cond:
            o[1] += 1
            s = self.samples.setdefault(rid, [])
            if len(s) < 5 and where not in s:
                s.append(where)
            return True
        key = key or re.sub(r":\d+", "", str(where)).replace(" ", "_")
        k = f"{rid}:{key}"
        v = self.violations.setdefault(k, dict(key=k, rule=rid, text=self.rules.get(rid, ""),
                                               where=str(where), message=msg, count=0))
        v["count"] += 1
        return False

    def fail(self, rid, where, msg, key=None):
        return self.require(False, rid, where, msg, key)

    def floor(self, rid, n, what=""):
        """The rule must have had at least n obligations, otherwise the analysis lost its subject."""
        got = self.obligations.get(rid, [0, 0])[0]
        if got < n:
            raise Broken(f"{self.prop}/{rid}: only {got} obligations found (expected at least {n}) {what}")

    def analysed(self, *funcs):
        for f in funcs:
            self.functions.add(getattr(f, "qual", str(f)))

    # -- running --------------------------------------------------------
    def load(self):
        self.prog = Program()
        self.types = Types(self.prog)

    def evidence(self, wall, err=None):
        tot = sum(o[0] for o in self.obligations.values())
        ok = sum(o[1] for o in self.obligations.values())
        cov = {
            "explanation": "Static analysis of the current source; no project code is executed. "
            "Each obligation is a construct (call site, store, path) to which a rule was applied.",
            "rules": self.rules,
            "per_rule": {k: {"generated": v[0], "discharged": v[1]} for k, v in self.obligations.items()},
            "obligations": tot,
            "discharged": ok,
            "functions_analysed": sorted(self.functions),
            "n_functions": len(self.functions),
            "paths": self.paths,
            "sites": self.sites,
            "samples": [{"rule": k, "where": w} for k, v in self.samples.items() for w in v],
            "notes": self.notes,
        }
        if err:
            cov["error"] = err
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "wall_s": round(wall, 3),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(os.environ.get("VERIF_EVIDENCE_DIR") or VERIF + "/evidence"), exist_ok=True)
        path = os.path.join(os.environ.get("VERIF_EVIDENCE_DIR") or VERIF + "/evidence", f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)


def main(prop, tier="quick", verbose=False):
    t0 = time.time()
    c = Check(prop, tier)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        c.load()
        mod.run(c)
    except Exception as exc:
        err = "".join(traceback.format_exception(exc))
        # a lost anchor is no verdict; but a violation already established stands
        if not c.violations or isinstance(exc, ImportError):
            c.evidence(time.time() - t0, err)
            sys.stderr.write(err)
            print(f"ANALYSIS-ERROR property={prop} {type(exc).__name__}: {exc}")
            return 2
        c.notes.append("analysis stopped early: " + err[-600:])
    known = known_findings(prop)
    new = []
    for k, v in c.violations.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]}")
        else:
            new.append(v)
    c.evidence(time.time() - t0)
    if new:
        rp = os.path.join(os.environ.get("VERIF_EVIDENCE_DIR") or VERIF + "/evidence", f"{prop}.violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print(f"  [{v['rule']}] {v['where']}: {v['message']} (key={v['key']}, x{v['count']})")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    tot = sum(o[0] for o in c.obligations.values())
    print(f"OK property={prop} obligations={tot} functions={len(c.functions)} paths={c.paths} "
          f"wall={time.time() - t0:.1f}s")
    return 0
