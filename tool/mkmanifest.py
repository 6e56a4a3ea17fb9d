"""Writes properties.jsonl and MANIFEST.json from one table (tool/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tool"))
from props import PROPS, NA  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only: nothing of /repo is compiled into or run by a check. setup.py builds the clang-based extractor (tool/extract.cpp); every check re-extracts /repo's current sources. Violation reports: out/<id>.txt. Findings and repairs: known-findings.txt.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
