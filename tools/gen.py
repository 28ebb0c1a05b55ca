"""Write properties.jsonl and MANIFEST.json from tools/props.py (python3-vt tools/gen.py)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import NOT_APPLICABLE, NOTES, PROPS  # noqa: E402

import jsonschema  # noqa: E402


def main():
    pschema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    mschema = json.load(open("/root/.vp/MANIFEST.schema.json"))
    lines, checks = [], []
    for p in PROPS:
        doc = {
            "id": p["id"],
            "title": p["title"],
            "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"],
            },
        }
        jsonschema.validate(doc, pschema)
        lines.append(json.dumps(doc))
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")) and not p.get("unclaimed"):
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": "./run.sh %s quick" % p["id"],
                    "thorough_cmd": "./run.sh %s thorough" % p["id"],
                    "technique": p["technique"],
                    "level": "model_checking",
                    "level_note": " ".join(p["note"].split()),
                }
            )
    claimed = {c["property"] for c in checks}
    ids = {p["id"] for p in PROPS}
    assert len(ids) == len(PROPS), "duplicate id"
    na = [{"property": i, "reason": r} for i, r in NOT_APPLICABLE]
    missing = ids - claimed - {n["property"] for n in na}
    assert not missing, missing
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": NOTES,
    }
    jsonschema.validate(man, mschema)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(lines), "properties,", len(checks), "checks")


main()
