"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
SEQ = "stateless explicit-state model checking of the real code: exhaustive enumeration of bounded histories and random-choice deviations"
NOTE = "exhaustive within the bounds stated in DESIGN.md: every operation sequence to the stated depth and every set of deviations of the random choices up to the stated bound"
T = {
    "C14": ("controlled-scheduler model checking of the real code: OpenMP workers run as virtual threads, every schedule up to a delay bound is enumerated with happens-before race detection on each execution, over enumerated thread counts and chunkings", "every schedule of the OpenMP workers up to the stated delay bound on the explored populations; capped scenarios are reported as such in the evidence"),
    "C18": ("stateless model checking of the Python extension: exhaustive enumeration of bounded fit configurations and call histories against a reference trial model", NOTE),
    "C22": ("stateless model checking of the Python extension under AddressSanitizer: exhaustive enumeration of array layouts, shapes, arguments and call histories against the same calls on plain copies", NOTE),
}
T["C23"] = ("stateless explicit-state model checking of the real reader and program: exhaustive enumeration of bounded configuration texts (layouts, damages, truncations) and command lines against a reference reading", NOTE)
T["C24"] = ("stateless model checking of the Python extension: exhaustive enumeration of bounded learned systems, inputs, trees and graphs, each export evaluated by a reference interpreter and compared with the rule", NOTE)
done = [p["id"] for p in props if os.path.exists(os.path.join(H, "harness", p["id"].lower() + ".cpp")) or os.path.exists(os.path.join(H, "harness", p["id"].lower() + ".py"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in done:
        t = T.get(i, (SEQ, NOTE))
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": "model_checking", "level_note": t[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
