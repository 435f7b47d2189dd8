import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props_a, props_b, props_c
ps = props_a.P
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
assert len({x["id"] for x in ps}) == len(ps)
for x in ps: assert len(x["title"]) <= 80, x["title"]
for x in ps:
    for f in x["anchors"]["files"]:
        assert os.path.exists("/repo/"+f), f
with open(out, "w") as f:
    for x in ps: f.write(json.dumps(x) + "\n")
print(len(ps))
