#!/usr/bin/env python3
"""Source of properties.jsonl. Run: python3 tools/props.py (rewrites properties.jsonl)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/archon/" + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": "src/archon/" + w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": hook}})


exec(open(os.path.join(ROOT, "tools", "props_list.py"), encoding="utf-8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
