"""Regenerates MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in ids:
    if p in registry.DOC:
        t, n, l = registry.DOC[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
