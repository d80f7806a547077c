"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import rx
from props import P, NA

with open(os.path.join(rx.VERIF, "properties.jsonl"), "w") as f:
    for p in P + [dict(n, level=None) for n in NA]:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="bash lib/setup.sh", checks=[], not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
         notes="Contract-based deductive verification of the extracted real code (Verus) and full-domain contract harnesses on the real crate (Kani); "
               "see DESIGN.md. Every check also drives the real code to look for a failing input.")
for p in P:
    m["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 lib/check.py " + p["id"],
                            thorough_cmd="VERIF_TIER=thorough python3 lib/check.py " + p["id"], technique=p["technique"],
                            level=p.get("level", "proof"), level_note=p["note"]))
with open(os.path.join(rx.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
for p in P + NA:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "claimed", len(NA), "not applicable")
