#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (committed outputs; not run by the checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/cryptovampire/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[{"name": n, "where": w} for n, w in mech], technique=technique, note=note, level=level, na=na))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh --build",
       "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
if HOOKS: man["hooks"] = HOOKS
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
