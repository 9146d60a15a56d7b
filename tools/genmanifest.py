"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every choice vector of the scenarios within their deviation bound is executed on the real code and judged by an independent reference model; "
        "nothing is claimed for values and sizes outside the enumerated alphabets (see DESIGN.md). Trusted: the reference model in mc/, CPython for exploring (violations are confirmed under the project's PyPy).")
TECH = "stateless bounded-exhaustive model checking of the real implementation (deviation-bounded enumeration of operation histories, arguments, topologies and environment answers against a reference model)"
m = dict(version=1, setup_cmd="bash run.sh selftest",
         checks=[dict(property=p["id"], quick_cmd="bash run.sh check %s quick" % p["id"], thorough_cmd="bash run.sh check %s thorough" % p["id"], technique=TECH, level="model_checking", level_note=NOTE) for p in props],
         not_applicable=[],
         notes="No hooks are needed in /repo: the checks import the working tree and drive its public API. bash run.sh replay FILE re-executes a reported violation.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
