#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/meta.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
import meta
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in meta.PROPS + [x for x, _ in meta.NOT_APPLICABLE]:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
json.dump({"version": 1, "setup_cmd": "python3 lib/extract.py",
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in meta.PROPS],
           "not_applicable": [{"property": x["id"], "reason": r} for x, r in meta.NOT_APPLICABLE]},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
