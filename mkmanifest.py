"""writes MANIFEST.json from conf.json and properties.jsonl"""
import json
conf = json.load(open("conf.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c or c.get("not_applicable"):
        na.append({"property": p["id"], "reason": (c or {}).get("not_applicable", "no check yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
