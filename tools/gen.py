import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NAP
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def line(i, p):
    return json.dumps(dict(id=i, title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))

allp = {**P, **NAP}
for i, p in allp.items():
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    assert p["statement"].count(". ") <= 2, i
with open(V + "/properties.jsonl", "w") as f:
    for i in sorted(allp):
        f.write(line(i, allp[i]) + "\n")
man = dict(version=1, setup_cmd="python3 -c 'import ast'", checks=[dict(property=i,
    quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
    technique=P[i]["technique"], level="other", level_note=P[i]["note"]) for i in sorted(P)],
    not_applicable=[dict(property=i, reason=NAP[i]["reason"]) for i in sorted(NAP)])
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
