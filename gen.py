#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the META entries in props/."""
import glob, importlib, json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
TECH = "contract-based deductive verification: CBMC function and loop contracts (goto-instrument --dfcc) on mechanically extracted /repo sources"
props, checks, na, design = [], [], [], []
mods = [os.path.basename(p)[:-3] for p in sorted(glob.glob(V + "/props/c[0-9][0-9].py"))]
for m in mods:
    mod = importlib.import_module(m)
    if not hasattr(mod, "META"):
        continue
    M = mod.META
    pid = m.upper()
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append({"id": pid, "title": M["title"], "statement": M["statement"], "quantifier": {"over": M.get("over", ["inputs"]), "text": M["forall"]},
                  "why_tests_cant": M["why"], "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mechanism"]],
                                                          "observe_at": M.get("observe", "return values, written memory and diagnostics of the functions under contract"), "hook_needed": "none"}})
    if getattr(mod, "UNITS", None):
        checks.append({"property": pid, "quick_cmd": "python3 vc.py check %s --tier quick" % pid, "thorough_cmd": "python3 vc.py check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": M.get("technique", TECH), "level": getattr(mod, "LEVEL", "proof"), "level_note": M["note"]})
        if getattr(mod, "LEVEL", "proof") == "proof":
            checks[-1]["theorems"] = ["%s/%s" % (pid, u.name) for u in mod.UNITS if u.kind == "proof"]
        us = "; ".join("%s (%s%s%s)" % (u.name, u.kind, ", " + u.bound_note if u.bound_note else "", ", callees by contract: " + " ".join(u.replace) if u.replace else "") for u in mod.UNITS)
        design.append("### %s %s\n\n%s\n\nHow it is decided: %s\n\nUnits: %s.\n\nLevel: %s. %s\n" % (pid, M["title"], M["statement"], M["how"], us, getattr(mod, "LEVEL", "proof"), M["note"]))
    else:
        na.append({"property": pid, "reason": M["na"]})
        design.append("### %s %s\n\n%s\n\nNot applicable: %s\n" % (pid, M["title"], M["statement"], M["na"]))
json.dump({"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
           "notes": "One driver (vc.py) per property; see DESIGN.md. No hooks are needed in /repo."}, open(V + "/MANIFEST.json", "w"), indent=1)
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
d = open(V + "/DESIGN.md").read() if os.path.exists(V + "/DESIGN.md") else "<!-- BEGIN PROPERTIES -->\n<!-- END PROPERTIES -->\n"
d = re.sub(r"(?s)(<!-- BEGIN PROPERTIES -->\n).*(<!-- END PROPERTIES -->)", lambda m: m.group(1) + "\n".join(design) + m.group(2), d)
tab = ["| planted change | property | what it needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); tab.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], " ".join(str(j["needs"]).split()), j.get("caught_by", j["property"])))
if len(tab) > 2:
    d = re.sub(r"(?s)(<!-- BEGIN SEEDED -->\n).*(<!-- END SEEDED -->)", lambda m: m.group(1) + "\n".join(tab) + "\n" + m.group(2), d)
open(V + "/DESIGN.md", "w").write(d)
print(len(props), "properties,", len(checks), "checks,", len(na), "n/a")
