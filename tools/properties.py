#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/properties.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/core/algorithm/"
G = "src/core/geom/"
I = G + "implementation/"
M = "src/core/math/"
U = "src/core/util/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, note=note, technique=technique))

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["return values and by-reference results of the library calls named under mechanism"],
                        "hook_needed": "crate-private modules re-exported under --cfg geos_verif"},
        }) + "\n")

hook = os.popen("git -C /repo log --format=%H --grep='^verif hook' ").read().split()
man = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "cfg(geos_verif)", "enable": "RUSTFLAGS=\"--cfg geos_verif\" (set by check.sh for the harness build)",
              "source_commits": hook},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick ./check.sh %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    } for p in P],
    "not_applicable": [],
    "notes": "One harness crate (harness/) drives the real crate through re-exports compiled only under --cfg geos_verif. DESIGN.md describes the oracles; known_findings.txt lists the defects found and repaired.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sp)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties, valid")
except ImportError:
    print(len(P), "properties (not validated: no jsonschema)")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
