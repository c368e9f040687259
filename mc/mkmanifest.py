"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engines
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
tech = {
    "E1": "exhaustive enumeration of call histories on the real code (history explorer)",
    "E2": "exhaustive enumeration of test programs x flags x seeded directories run by real test binaries (run explorer)",
    "E3": "exhaustive exploration of all interleavings (dynamic partial-order reduction with sleep sets, or all schedules up to a preemption bound) and of all single-fault points of the real code under a controlled scheduler, every execution also under the race detector where shared memory matters",
    "E4": "exhaustive enumeration of call shapes x options x builds x working directories (location explorer)",
}
notes = json.load(open(os.path.join(V, "mc", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in engines.ENGINES:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": "model checking of the implementation: " + "; ".join(tech[e] for e in engines.ENGINES[i]),
            "level": "model_checking",
            "level_note": notes.get(i, "Holds for every element of the stated finite space (evidence: rule, counts); assumes the Go toolchain and the reference model in /verif/mc."),
        })
    else:
        na.append({"property": i, "reason": "no check registered yet; work in progress"})
m = {"version": 1, "setup_cmd": "python3 mc/setup.py",
     "hooks": {"guard": "none (no hook is committed in /repo)", "enable": "checks build /repo's tree as it is; the schedule explorer rewrites imports in an overlay copy at check time", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
