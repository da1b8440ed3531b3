"""MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import specs
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    s = specs.SPECS.get(i)
    if s is None:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check has been built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 lib/check.py %s --tier quick" % i, "thorough_cmd": "python3 lib/check.py %s --tier thorough" % i,
                   "technique": s.get("technique", specs.TECHNIQUE), "level": s.get("level", "model_checking"), "level_note": s["what"]})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))' && g++ --version && mkdir -p evidence", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
