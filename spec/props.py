#!/usr/bin/env python3
"""The properties and their checks; writes ../properties.jsonl and ../MANIFEST.json.

Each entry: P(id, title, statement, over, quantifier text, why tests can't, files,
              [(mechanism, where)], technique, level, note).  Claimed = a check exists.
"""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []
HOOKS = []


def P(id, title, statement, over, text, why, files, mech, technique, level, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, level=level, note=note, observe=observe))


exec(open(os.path.join(ROOT, "spec", "list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

have = {p["id"] for p in PROPS if os.path.exists(os.path.join(ROOT, "mc/src/bin", p["id"].lower() + ".rs"))}
missing = [p["id"] for p in PROPS if p["id"] not in have]
na = {n["property"] for n in NOT_APPLICABLE}
manifest = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [{"property": p["id"], "quick_cmd": f"bash bin/check {p['id']} quick",
                "thorough_cmd": f"bash bin/check {p['id']} thorough", "technique": p["technique"],
                "level": p["level"], "level_note": p["note"]} for p in PROPS if p["id"] in have],
    "not_applicable": NOT_APPLICABLE + [{"property": m, "reason": "no check has been built yet"} for m in missing if m not in na],
}
if HOOKS:
    manifest["hooks"] = {"guard": "acorn_verif", "enable": 'RUSTFLAGS="--cfg acorn_verif" (bin/env.sh)', "source_commits": HOOKS}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print("claimed", sorted(have), "unclaimed", missing)
