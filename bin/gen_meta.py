#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below and from props.PROPS (what has a check)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS
from prop_texts import TEXTS, NOT_APPLICABLE


def main():
    lines, checks, na = [], [], []
    for t in TEXTS:
        lines.append(json.dumps({
            "id": t["id"], "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["forall"]},
            "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]],
                        "observe_at": t.get("observe", []), "hook_needed": t.get("hook")},
        }, ensure_ascii=False))
        assert len(t["title"]) <= 80, t["id"]
        if t["id"] in PROPS:
            checks.append({
                "property": t["id"],
                "quick_cmd": f"python3 bin/check.py {t['id']} quick",
                "thorough_cmd": f"python3 bin/check.py {t['id']} thorough",
                "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"],
            })
        else:
            na.append({"property": t["id"], "reason": NOT_APPLICABLE.get(t["id"], "no check is registered for it yet")})
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        f.write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the monitors use public interfaces only, so /repo carries only fix: commits."}
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
