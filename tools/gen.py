import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                 observe_at=["state dumps and output files of real runs"]))
        f.write(json.dumps(d) + "\n")
M = dict(version=1, setup_cmd="python3-vt tools/selftest.py", checks=[], not_applicable=[])
for p in P:
    c = "python3-vt checks/run.py " + p["id"]
    M["checks"].append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c + " --tier thorough", technique=p["technique"], level="model_checking",
                            level_note=p["note"]))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
