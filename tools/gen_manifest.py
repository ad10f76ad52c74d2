"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        q = {k: v for k, v in p.items() if k not in ("over", "text", "files", "mech", "note")}
        q["quantifier"] = dict(over=p["over"], text=p["text"])
        q["anchors"] = dict(
            files=p["files"],
            mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
            hook_needed=None,
        )
        fh.write(json.dumps(q) + "\n")
checks = [
    dict(
        property=p["id"],
        quick_cmd=f"VERIF_TIER=quick ./check.sh {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique="property-based testing (Hypothesis generators, shrinking): " + p["note"][0],
        level="exploration",
        level_note=p["note"][1]
        + " Held on every generated case of the run; nothing is claimed beyond the"
        " generators' domain.",
    )
    for p in PROPS
]
json.dump(
    dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT_APPLICABLE),
    open(os.path.join(root, "MANIFEST.json"), "w"),
    indent=1,
)
