"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/checks/%s.py" % (V, i.lower())) and i in TECH:
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i,
                       "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": TECH[i]["technique"], "level": "exploration",
                       "level_note": TECH[i]["note"], "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks drive the unmodified public entry points; no hooks in /repo are needed."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
