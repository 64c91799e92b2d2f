"""Regenerates MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)
from yva.registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(HOME, "properties.jsonl"))]
NA = {
 "N01": "whether a pattern keeps gliding is a fact about concrete floating-point trajectories over thousands of steps; no sound static argument in reach bounds it",
 "N02": "convergence order of the numerical integration depends on the smoothness and stiffness of the concrete growth function; needs numerical analysis or execution, not source analysis",
 "N03": "the reached training error depends on the optimiser's trajectory on run-time data",
 "N04": "rounding and device kernels are below the level of the source; the sources contain nothing to analyse that bounds them",
 "N05": "progress of a stochastic search is a statistical property of run-time fitness values",
}
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q yva check.py",
     "checks": [{"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --thorough",
                 "evidence_file": f"evidence/{pid}.json", "technique": c[1], "level": "other", "level_note": c[3]}
                for pid, c in sorted(CHECKS.items())],
     "not_applicable": na}
json.dump(m, open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in na])
