#!/usr/bin/python3
"""Writes DESIGN.md from design_head.md, the checks' RULE and ASSUMPTIONS, the known findings and the planted bugs."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
checks = {x["property"]: x for x in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
found = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", "",
       "The statements are in properties.jsonl.", ""]
for p in props:
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    if p["id"] not in checks:
        out += ["Not claimed: %s" % na[p["id"]], ""]
        continue
    f = glob.glob(os.path.join(HERE, "checks", p["id"].lower() + "_*.py"))[0]
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "ASSUMPTIONS") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    fixes = [x for x in found if x["property"] == p["id"] and x["status"] == "fixed"]
    out += ["- method: %s (`checks/%s`)" % (checks[p["id"]]["technique"], os.path.basename(f)),
            "- generated, over: %s" % p["quantifier"]["text"],
            "- cases and oracle: %s" % consts["RULE"]]
    out += ["- taken as given: %s" % a for a in consts.get("ASSUMPTIONS", [])]
    out += ["- why tests cannot: %s" % p["why_tests_cant"]]
    if fixes:
        out += ["- defects repaired: %d (listed below)" % len(fixes)]
    out += [""]
out += ["## Known findings (genuine defects that are not repaired)", ""]
out += ["* %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in found if x["status"] == "known"]
out += ["", "Each is identified by the input or call that fails; the check re-tries it on every run and prints KNOWN-FINDING. They are not repaired because",
        "a stable test fixes the wrong answer, or because the repair would change the design (representation of bytes and of untagged union members).", "",
        "## Defects repaired (one \"fix:\" commit each)", ""]
out += ["* %s %s: %s" % (x["property"], x["commit"], x["what"].split(x["commit"], 1)[1].strip()) for x in found if x["status"] == "fixed"]
out += ["", "## Planted bugs", "",
        "Written from the property's text and the code (`seeded/<id>`), kept whether or not a check catches them. The last column is the outcome of the property's quick check.", ""]
res = json.load(open(os.path.join(HERE, "tools", "seeded_results.json"))) if os.path.exists(os.path.join(HERE, "tools", "seeded_results.json")) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    out += ["* `%s` (%s): %s Needs: %s -> %s" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "caught"))]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
