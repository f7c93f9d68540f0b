"""Writes MANIFEST.json from the table below (only properties whose harness exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i, "technique": T[i]["technique"],
                       "level": "exploration", "level_note": T[i]["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the library sources of /repo together with its harness (about 45 s on 8 cores) "
              "and then runs generated cases in 8 processes; objects are cached by content in build/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
