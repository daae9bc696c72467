import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
import jsonschema
M = json.load(open("/root/.vp/MANIFEST.schema.json"))
NOTE = ("Complete within the stated bounds (every execution in the space is run on the real code and compared with a "
        "reference model); says nothing about values and sizes outside them. Trusts the harness' reference model, "
        "CPython and numpy.")
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NA}
for p in P:
    if p["id"] in [n["property"] for n in NA]:
        continue
    man["checks"].append({"property": p["id"], "level": "model_checking", "technique": p["technique"],
                          "level_note": NOTE, "quick_cmd": "./check %s --tier quick" % p["id"],
                          "thorough_cmd": "./check %s --tier thorough" % p["id"]})
if "--show" in sys.argv:
    print(json.dumps(M, indent=1)[:6000])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
jsonschema.validate(man, M)
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), S)
print(len(P), "properties")
