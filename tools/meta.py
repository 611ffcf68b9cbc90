#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note=None, level="exploration", tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state or [], observe=observe or [], note=note, level=level, tech=tech))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    for p in NA:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": ["inputs"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [], "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": [], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash build.sh",
  "hooks": {"guard": "none: every seam is below the code (libc interposition and compiler-inserted coverage callbacks in the harness build); /repo carries no hooks",
            "enable": "build.sh compiles /repo with -sanitizer-coverage-trace-pc-guard into /verif/target and links harness/rt/simrt.c", "source_commits": []},
  "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
     "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P],
  "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
  "notes": "One binary (vsim) built from /repo's working tree decides every property by seeded deterministic simulation; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
