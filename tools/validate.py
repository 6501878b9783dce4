"""python3-vt tools/validate.py: checks properties.jsonl, MANIFEST.json and evidence files against the schemas."""
import json, os, sys, glob
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
ps = json.load(open(S + "PROPERTIES.schema.json"))
ids = []
for l in open(R + "/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, ps); ids.append(d["id"])
    for f in d["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
m = json.load(open(R + "/MANIFEST.json"))
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
c = [x["property"] for x in m["checks"]] + [x["property"] for x in m["not_applicable"]]
assert sorted(c) == sorted(ids), (set(c) ^ set(ids))
es = json.load(open(S + "EVIDENCE.schema.json"))
for f in glob.glob(R + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), es)
print("ok", len(ids))
