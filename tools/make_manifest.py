"""Writes /verif/MANIFEST.json from the rule modules present in sa/rules."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
NA = {
    "N02": "a numerical equality of images between interpolations: pixel values, no structural clause of which breaking it necessarily breaks the property.",
    "N03": "a statement about probability distributions over runtime random draws.",
    "N04": "relates a computed number to the number of samples user functions, filters and files deliver at run time.",
    "N05": "memory and latency bounds are quantitative runtime measurements.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "sa", "rules", pid.lower() + ".py")):
        m = importlib.import_module("sa.rules." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "technique": m.TECHNIQUE,
            "level": "other",
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no sound rule built yet.")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 -c \"import ast,sys; sys.exit(0)\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis of /repo/src/megatron/energon only: an AST based whole-package model and an abstract "
             "interpreter (provenance terms, inlining, rule automata). Nothing of /repo is executed. Exit 2 = anchor vanished.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
