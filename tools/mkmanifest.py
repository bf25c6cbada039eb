"""Writes properties.jsonl and MANIFEST.json from the table below and checks/index.json (run after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
idx = json.load(open(os.path.join(V, "checks/index.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in idx:
        checks.append(dict(property=p["id"], quick_cmd="python3 lib/run.py %s" % p["id"],
                           thorough_cmd="python3 lib/run.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level="exploration",
                           level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na", "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 lib/build.py", hooks=dict(guard="none", enable="no hooks are needed: the checks build /repo's sources as they are", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Property-based testing against numpy reference models; see DESIGN.md. Every check rebuilds riptide_cpp from /repo/src (content-hashed objects under /verif/.cache).")
if "hooks" in m and m["hooks"]["guard"] == "none":
    del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("properties %d, claimed %d" % (len(PROPS), len(checks)))
