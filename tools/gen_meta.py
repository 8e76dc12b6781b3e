#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = "src/predicates/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook, na=na, state=state or []))
exec(open(os.path.join(ROOT, "tools", "properties.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "checks": [], "not_applicable": [],
     "notes": "One Rust harness (harness/) linked against /repo's working tree; check.sh rebuilds it and runs one property's monitors. See DESIGN.md."}
if HOOK_COMMITS:
    m["hooks"] = {"guard": "verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.sh)", "source_commits": HOOK_COMMITS}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
            "quick_cmd": f"bash check.sh run {p['id']} quick",
            "thorough_cmd": f"bash check.sh run {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
