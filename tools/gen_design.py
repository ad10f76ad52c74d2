"""Author-side: writes DESIGN.md from tools/design_head.md, the properties, the facets and tools/caught.json."""
import importlib, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/vendor", V + "/tools", "/repo"]
from props import PROPS  # noqa: E402
from pbt import registry  # noqa: E402
from pbt.budget import QUICK  # noqa: E402
from pbt import core  # noqa: E402

NOTES = json.load(open(V + "/tools/design_notes.json"))
caught = json.load(open(V + "/tools/caught.json"))
out = [open(V + "/tools/design_head.md").read()]
out.append("\n## Properties\n")
for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    importlib.import_module("pbt.props." + registry.MODULES[i])
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Quantified over:* {p['text']}.\n")
    out.append(f"*Decided by:* {p['note'][0]}. {p['note'][1]}\n")
    out.append(f"*Beyond the tests:* {p['why_tests_cant']}\n")
    out.append("*Facets* (quick tier; thorough is 12 times as many):\n")
    for f in core.FACETS[i].values() if isinstance(core.FACETS[i], dict) else core.FACETS[i]:
        doc = (f.check.__doc__ or "").strip().split("\n\n")[0].replace("\n", " ")
        doc = re.sub(r"\s+", " ", doc)
        n, s = QUICK.get(i, {}).get(f.name, (f.quick, f.shards))
        out.append(f"- `{f.name}`: {n * s} cases; non-trivial: {f.rule.split(': ', 1)[1]}. {doc}".rstrip())
    for line in NOTES.get(i, []):
        out.append(f"- {line}")
    mine = {k: v for k, v in caught.items() if v["property"] == i}
    if mine:
        out.append("\n*Planted changes:* " + "; ".join(f"{k} ({v['result']})" for k, v in sorted(mine.items())) + ".")
    out.append("")
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
out.append("## Findings recorded, not repaired\n")
for k in kf:
    if k["status"] == "known":
        out.append(f"- {k['property']} `{k['id']}`: {k['what']}")
out.append("\n## Defects repaired in /repo (`fix:` commits)\n")
for k in kf:
    if k["status"] == "fixed":
        out.append(f"- {k['property']} {k['commit']}: " + k["what"].split("not the case that ", 1)[-1])
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
