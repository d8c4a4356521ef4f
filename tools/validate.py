#!/opt/veriftools/pyvenv/bin/python
import json, jsonschema, glob
S="/root/.vp/"
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open(S+"MANIFEST.schema.json")))
ps=json.load(open(S+"PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    p=json.loads(l); jsonschema.validate(p, ps); assert p["statement"].count(". ")<=2, p["id"]
for f in glob.glob("/verif/evidence/*.json"): jsonschema.validate(json.load(open(f)), json.load(open(S+"EVIDENCE.schema.json")))
print("valid")
