#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand
after editing; no check uses it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), technique=None, note=None, na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(
        p={"id": id, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": files,
                       "mechanism": [{"name": a, "where": b}
                                     for a, b in mechanism],
                       "state": [{"name": a, "meaning": b, "where": c}
                                 for a, b, c in state],
                       "observe_at": list(observe), "hook_needed": None}},
        technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in PROPS:
        f.write(json.dumps(x["p"]) + "\n")
checks, na = [], []
for x in PROPS:
    i = x["p"]["id"]
    if x["na"]:
        na.append({"property": i, "reason": x["na"]})
    else:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i}",
            "technique": x["technique"],
            "level": "other",
            "level_note": x["note"],
        })
json.dump({"version": 1,
           "setup_cmd": "python3 setup_tools.py",
           "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: every check re-reads /repo's "
                    "current sources (Python syntax trees, and C++ through a "
                    "clang-based extractor) on every run. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
