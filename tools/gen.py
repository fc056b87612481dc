#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import P, TECHNIQUE, LEVEL_NOTE, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for i, p in P.items():
        a = dict(files=p["files"], mechanism=p["mechanism"])
        if p["state"]:
            a["state"] = p["state"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, i
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks are needed: the checks use the public interface", source_commits=[]),
         checks=[dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                      technique=TECHNIQUE[p["engine"]], level="model_checking", level_note=LEVEL_NOTE[p["engine"]])
                 for i, p in P.items() if i not in NA],
         not_applicable=[dict(property=i, reason=r) for i, r in NA.items()])
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
