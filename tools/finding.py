"""finding.py known PROP KEY WHAT | fixed PROP COMMIT WHAT: append to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
kind, prop, key, what = sys.argv[1:5]
if kind == "known":
    e = {"property": prop, "key": key, "what": what, "status": "known"}
else:
    e = {"property": prop, "key": "fixed-" + key, "what": "fixed: property=%s %s %s" % (prop, key, what), "status": "fixed", "commit": key}
k["findings"] = [x for x in k["findings"] if (x["property"], x["key"]) != (e["property"], e["key"])] + [e]
json.dump(k, open(p, "w"), indent=1)
