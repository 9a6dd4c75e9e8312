#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, re, props, checks, bounds
V = os.path.dirname(os.path.abspath(__file__)); out = []; ids = set()
for p in props.PROPS:
    assert p["id"] not in ids, p["id"]; ids.add(p["id"]); assert len(p["title"]) <= 80, p["title"]
    for f in p["files"]: assert os.path.exists("/repo/" + f), f
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["see"], "hook_needed": None}})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
cs = []
for o in out:
    if o["id"] in checks.CHECKS:
        c = checks.CHECKS[o["id"]]
        cs.append({"property": o["id"], "quick_cmd": "python3 check.py %s --tier quick" % o["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % o["id"],
                   "technique": "symbolic execution of the LLVM bitcode of the real code, Z3 deciding path feasibility and assertions, native replay", "level": "model_checking",
                   "level_note": c.get("note") or "Holds for every value, choice%s within the bounds stated in DESIGN.md and in the evidence; nothing is claimed outside them. Trusts clang's lowering, the executor in engine/, Z3, and the environment model in rt/ (sampled paths are replayed against the natively compiled code on every run)." % (" and schedule" if "schedules" in o["quantifier"]["over"] else "")})
na = [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")]
for o in out: assert (o["id"] in checks.CHECKS) != (o["id"] in [x["property"] for x in na]), "no check and no reason: " + o["id"]
assert set(checks.CHECKS) <= ids, set(checks.CHECKS) - ids
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": cs, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile the sources as they are. Generated by gen.py from props.py and checks.py."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "properties,", len(cs), "checks,", len(na), "not applicable")
t = "| id | oracle | bounds (quick) |\n|---|---|---|\n" + "".join("| %s %s | %s | %s |\n" % ((o["id"], o["title"]) + bounds.B[o["id"]]) for o in out if o["id"] in checks.CHECKS)
d = open(V + "/DESIGN.md").read(); d = re.sub(r"(?s)<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + t + "<!-- /table -->", d)
k = json.load(open(V + "/known_findings.json")); f = "Open findings (reported as KNOWN-FINDING, the check exits 0):\n\n" + "".join("* %s: %s\n" % (x["property"], x["what"]) for x in k["findings"]) + "\nRepaired (the checks report them again should they return):\n\n" + "".join("* %s\n" % x[7:].replace("property=", "") for x in k["fixed"])
d = re.sub(r"(?s)<!-- findings -->.*<!-- /findings -->", lambda m: "<!-- findings -->\n" + f + "<!-- /findings -->", d); open(V + "/DESIGN.md", "w").write(d)
