"""Bookkeeping of one check: obligations, violations, known findings, evidence."""
import json
import os
import time

from .model import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Ctx:
    def __init__(self, pid, project):
        self.pid = pid
        self.p = project
        self.t0 = time.time()
        self.obligations = []      # (rule, construct, where)
        self.violations = {}       # key -> dict
        self.rules = {}
        self.functions = set()
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text

    def fn(self, fi):
        if fi is not None:
            self.functions.add(fi.key)

    def ok(self, rule, construct, where=""):
        self.obligations.append((rule, construct, where))

    def bad(self, rule, construct, where, msg):
        """A violated rule instance; keyed by rule and construct, never by line."""
        self.obligations.append((rule, construct, where))
        key = f"{rule}:{construct}"
        self.violations.setdefault(key, {"key": key, "rule": rule, "construct": construct,
                                         "where": where, "message": msg})

    def check(self, cond, rule, construct, where, msg):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, where, msg)
        return cond

    def floor(self, what, n, minimum):
        if n < minimum:
            raise AnalysisBroken(f"{what}: {n} instance(s) found, at least {minimum} expected")


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def load_project():
    return Project(os.path.join(REPO, "src"), repo_root=REPO)


def evidence(ctx, tier, seed, level, viols, known, technique):
    ev = {
        "property": ctx.pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "explanation": technique,
            "rules": ctx.rules,
            "modules_parsed": len(ctx.p.modules),
            "functions_analysed": sorted(ctx.functions),
            "rule_instances": len(ctx.obligations),
            "instances_per_rule": {r: sum(1 for o in ctx.obligations if o[0] == r) for r in
                                   sorted({o[0] for o in ctx.obligations})},
            "instances_holding": len(ctx.obligations) - len(viols) - len(known),
            "samples": [f"{r}: {c} @ {w}" for r, c, w in ctx.obligations[:40]],
            "notes": ctx.notes,
            "known_findings": known,
        },
        "assumptions": [
            "Python semantics of the statement kinds used in the package; no monkey patching of package classes",
            "user-supplied subclasses and functions are outside the analysed program",
        ],
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(viols),
    }
    d = OUT
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{ctx.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
