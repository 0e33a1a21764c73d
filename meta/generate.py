#!/usr/bin/env python3
"""writes properties.jsonl, checks.json and MANIFEST.json from meta/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = {"assumptions": props.ASSUMPTIONS, "checks": {}}
man = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": [], "notes": props.NOTES}
for p in props.PROPS:
    if "na" in p:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    c = p["check"]
    checks["checks"][p["id"]] = c
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": "dynamic symbolic execution of the real LLVM IR, Z3 decides every branch and assertion", "level": "model_checking",
                          "level_note": "Every path of the harness over the real code is executed and every branch side is either executed or refuted by Z3, within: " + c["bounds"] + " Trusted: the instrumentation pass and run time (counterexamples are confirmed on an uninstrumented build before being reported), Z3, clang, uninstrumented libxml2 / libstdc++ internals on concrete data."})
import design
out = open(os.path.join(V, "meta", "design_head.md")).read()
for p in props.PROPS:
    out += "\n### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"])
    if "na" in p:
        out += "\n*Not applicable*: %s\n" % p["na"]
        continue
    out += "\n- Decided by: `harness/%s.cpp`. %s\n- Bounds: %s\n- Why tests cannot: %s\n- Code: %s\n" % (p["check"]["file"], design.HOW[p["id"]], p["check"]["bounds"], p["why_tests_cant"], ", ".join("`%s`" % f for f in p["anchors"]["files"]))
out += open(os.path.join(V, "meta", "design_tail.md")).read()
out = out.replace("@FINDINGS@", "".join("- %s\n" % l.strip() for l in open(os.path.join(V, "known-findings.txt")) if l.strip() and not l.startswith("#")))
seeds = ""
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds += "| %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), design.CAUGHT.get(d, "?"))
out = out.replace("@SEEDS@", seeds)
if seeds or not os.path.exists(os.path.join(V, "DESIGN.md")):
    open(os.path.join(V, "DESIGN.md"), "w").write(out)
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
