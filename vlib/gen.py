#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
ids = [p["id"] for p in props.PROPS]
assert set(checks.CHECKS) <= set(ids), set(checks.CHECKS) - set(ids)
m = {"version": 1, "setup_cmd": "python3 vlib/build.py",
     "hooks": props.HOOKS,
     "checks": [{"property": i,
                 "quick_cmd": "python3 vlib/check.py %s quick" % i,
                 "thorough_cmd": "python3 vlib/check.py %s thorough" % i,
                 "technique": "deterministic simulation with fault injection: seeded search, " + checks.CHECKS[i].get("oracle", "lock-step reference model"),
                 "level": "exploration",
                 "level_note": checks.CHECKS[i].get("note", props.NOTE)} for i in ids if i in checks.CHECKS],
     "not_applicable": [{"property": i, "reason": props.NA[i]} for i in ids if i not in checks.CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
