#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: run the static rules of one property
on /repo's current source tree."""
import importlib
import json
import os
import sys
import traceback

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import ctx as C          # noqa: E402
from sa.model import AnalysisBroken   # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cx, broken = None, None
    try:
        mod = importlib.import_module(f"sa.rules.{pid.lower()}")
        project = C.load_project()
        cx = C.Ctx(pid, project)
        mod.check(project, cx)
        if tier == "thorough" and hasattr(mod, "thorough"):
            mod.thorough(project, cx)
        if not cx.obligations:
            raise AnalysisBroken("no rule instance found")
    except AnalysisBroken as e:
        broken = f"{e}"
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={pid} cannot parse: {e}")
        return 2
    except Exception:
        print("\n".join(traceback.format_exc().splitlines()[-14:]), file=sys.stderr)
        broken = "internal error"
    if broken is not None and (cx is None or not cx.violations):
        print(f"ANALYSIS-BROKEN property={pid} {broken}")
        return 2
    known = {k["key"]: k for k in C.load_known() if k["property"] == pid and k.get("status") != "fixed"}
    viols = [v for k, v in cx.violations.items() if k not in known]
    hits = [known[k] for k in cx.violations if k in known]
    C.evidence(cx, tier, seed, getattr(mod, "LEVEL", "other"), viols, [h["key"] for h in hits], mod.TECHNIQUE)
    if broken is not None:
        print(f"ANALYSIS-BROKEN property={pid} {broken}")
        if not viols:
            return 2
    for h in hits:
        print(f"KNOWN-FINDING: property={pid} {h['key']} {h['what']}")
    print(f"{pid}: {len(cx.obligations)} rule instances in {len(cx.functions)} functions, "
          f"{len(viols)} violation(s), {len(hits)} known finding(s)")
    if viols:
        path = os.path.join(C.OUT, f"{pid}.violations.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "rules": cx.rules, "violations": viols}, f, indent=1)
        for v in viols:
            print(f"  {v['where']}: [{v['rule']}] {v['construct']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
