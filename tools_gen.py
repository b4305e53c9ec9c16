#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from siren_sa/registry.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from siren_sa.registry import RULES
from siren_sa.not_applicable import NA

props, checks = [], []
for pid, r in sorted(RULES.items()):
    props.append({"id": pid, "title": r["title"], "statement": r["statement"],
                  "quantifier": {"over": r["over"], "text": r["quant"]}, "why_tests_cant": r["why"],
                  "anchors": {"files": r["files"], "mechanism": [{"name": a, "where": b} for a, b in r["mech"]]}})
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s" % pid,
                   "technique": r["technique"], "level": "other",
                   "level_note": r.get("note", "static analysis of the whole program's syntax tree: " + r["explanation"])[:1500]})
na = []
for r in NA:
    props.append({"id": r["id"], "title": r["title"], "statement": r["statement"],
                  "quantifier": {"over": r["over"], "text": r["quant"]}, "why_tests_cant": r["why"],
                  "anchors": {"files": r["files"], "mechanism": [{"name": a, "where": b} for a, b in r["mech"]]}})
    na.append({"property": r["id"], "reason": r["reason"]})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")

from siren_sa.design_notes import HEADER, NOTES, FOOTER
import glob
out = [HEADER]
for pid, r in sorted(RULES.items()):
    out.append("### %s %s\n" % (pid, r["title"]))
    out.append("*Property.* %s Quantifies over %s. Tests cannot settle it: %s.\n" % (r["statement"], r["quant"], r["why"]))
    out.append("*Decided by* `siren_sa/rules/%s.py`, %s. %s\n" % (r["run"].split(":")[0], r["technique"], r["explanation"]))
    out.append("*Assumes:* %s.\n" % "; ".join(r["assumptions"]))
    out.append("*Floors* (fewer means the analysis lost its anchors): %s.\n" % ", ".join("%s %s" % (v, k) for k, v in r["floors"].items()))
    for n in NOTES.get(pid, []):
        out.append("* " + n)
    if NOTES.get(pid):
        out.append("")
out.append("## Not applicable\n")
for r in NA:
    out.append("* **%s %s.** %s. Reason: %s." % (r["id"], r["title"], r["statement"].rstrip("."), r["reason"]))
kf = [json.loads(l) for l in open(os.path.join(here, "known_findings.jsonl")) if l.strip()]
out.append("\n## Genuine defects: repaired in /repo (`fix:` commits)\n")
for k in kf:
    if k["status"] == "fixed":
        out.append("* %s %s" % (k["commit"], k["what"].replace("fixed: property=%s %s " % (k["property"], k["commit"]), k["property"] + ": ")))
out.append("\n## Genuine defects: recorded (`KNOWN-FINDING` lines)\n")
for k in kf:
    if k["status"] == "known":
        out.append("* %s `%s`: %s" % (k["property"], k["key"], k["what"]))
out.append("\n## Planted bugs and the checks that catch them\n\nEach is verified with `devtests/seed.py` (applies, builds, stable tests pass, demo passes without and fails with it) and caught by the named check.\n")
out.append("| bug | caught by | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
n = sum(len(json.load(open(f))) for f in glob.glob(os.path.join(here, "devtests", "mutants*.json")))
q = sum(1 for f in glob.glob(os.path.join(here, "devtests", "mutants*.json")) for m in json.load(open(f)) if not m.get("property"))
out.append("\nBesides these, `devtests/mutants_*.json` holds %d breaking edits and %d edits that keep the behaviour, all answered as wanted at the last full replay.\n" % (n - q, q))
out.append(FOOTER)
with open(os.path.join(here, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
