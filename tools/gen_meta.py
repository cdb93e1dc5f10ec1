"""Write properties.jsonl and MANIFEST.json from the table in tools/meta.py,
for every property that has a module in pbt/props."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, here)
from tools.meta import NOT_APPLICABLE, NOTES, P  # noqa: E402

lines, checks = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if not os.path.exists(os.path.join(here, "pbt", "props", p["id"].lower() + ".py")):
        print("no module yet:", p["id"])
        continue
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
        anchors=dict(files=sorted({m[1].split(":")[0] for m in p["mech"]}),
                     mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=p["observe"], hook_needed=None))))
    checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
                       thorough_cmd=f"bash check.sh {p['id']} thorough", technique=p["technique"],
                       level="exploration", level_note=p["note"]))
for q in NOT_APPLICABLE:
    lines.append(json.dumps(q["prop"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
                   not_applicable=[dict(property=q["prop"]["id"], reason=q["reason"]) for q in NOT_APPLICABLE],
                   notes=NOTES), f, indent=1)
    f.write("\n")
print(len(checks), "checks")
