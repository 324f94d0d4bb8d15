import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import info
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, inputs and faults"
checks = []
for k, c in info.CHECKS.items():
    checks.append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                   "technique": TECH, "level": "exploration",
                   "level_note": c.get("note", "Held on every seed explored.") + " The real programs run inside the simulator; "
                   "trusted: the simulator's network, disk and clock models and the independent reference model."})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in info.NA.items()],
     "notes": "No hooks in /repo: every seam is an interposed libc, OpenSSL or allocator symbol (tools/build.py, sim/world.cpp). "
              "Replay a reported case with: ./replay.sh FILE [trace]. Defects repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
