#!/usr/bin/env python3
"""check.py <property id> | --all | --setup

Decides one property from /repo's current sources.  Exit 0: held on everything
analysed.  Exit 1: at least one violation that known_findings.jsonl does not
list.  Exit 2: the analysis itself could not be carried out (anchors gone,
sources not parseable)."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from siren_sa import facts as facts_mod          # noqa: E402
from siren_sa.facts import AnalysisBroken         # noqa: E402
from siren_sa.registry import RULES               # noqa: E402


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self._facts = None
        self.violations = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.repo = facts_mod.REPO

    @property
    def F(self):
        if self._facts is None:
            self._facts = SHARED.get("facts") or facts_mod.load()
            SHARED["facts"] = self._facts
        return self._facts

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def ok(self, what):
        """one discharged obligation"""
        self.count("obligations")
        self.count("discharged")
        if len(self.samples) < 12 or (len(self.samples) < 40 and self.counts["obligations"] % 17 == 0):
            self.samples.append(what)

    def violate(self, key, where, msg):
        self.count("obligations")
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "where": where, "msg": msg})

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


SHARED = {}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == pid:
                out[d["key"]] = d
    return out


def run(pid):
    t0 = time.time()
    rule = RULES[pid]
    ctx = Ctx(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn = rule["run"].split(":")
    try:
        getattr(importlib.import_module("siren_sa.rules." + mod), fn)(ctx)
        if ctx._facts is not None and ctx._facts.errors:
            ctx.notes.append("parse diagnostics: %d (first: %s)" % (len(ctx._facts.errors), ctx._facts.errors[0][:200]))
        for k, v in rule.get("floors", {}).items():
            if ctx.counts.get(k, 0) < v and not ctx.violations:
                raise AnalysisBroken("only %d %s were found, at least %d are expected" % (ctx.counts.get(k, 0), k, v))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = known_findings(pid)
    new, old = [], []
    for v in ctx.violations:
        (old if v["key"] in known else new).append(v)
    evdir = os.environ.get("SIREN_SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = {"obligations": ctx.counts.get("obligations", 0), "discharged": ctx.counts.get("discharged", 0),
           "explanation": rule["explanation"]}
    for k, v in ctx.counts.items():
        if k not in cov:
            cov[k] = v
    cov["samples"] = ctx.samples[:30]
    if ctx._facts is not None:
        cov["functions_in_fact_base"] = len(ctx._facts.functions)
        cov["classes_in_fact_base"] = len(ctx._facts.classes)
    if ctx.notes:
        cov["notes"] = ctx.notes
    cov["violations_found"] = [dict(v) for v in ctx.violations][:50]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "other", "coverage": cov, "assumptions": rule.get("assumptions", []),
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    for v in old:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, v["key"], v["where"], v["msg"]))
    rep = os.path.join(evdir, pid + ".violations.txt")
    if new:
        with open(rep, "w") as f:
            for v in new:
                f.write("%s\n  where: %s\n  %s\n" % (v["key"], v["where"], v["msg"]))
        for v in new:
            print("  %s: %s [%s]" % (v["where"], v["msg"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if os.path.exists(rep):
        os.unlink(rep)
    print("OK property=%s %s (%.1fs)" % (pid, " ".join("%s=%s" % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    return 0


def main(argv):
    if argv == ["--setup"]:
        facts_mod.extractor_path()
        return 0
    if argv == ["--all"]:
        rc = 0
        for pid in RULES:
            r = run(pid)
            rc = max(rc, r)
        return rc
    if len(argv) >= 1 and all(a in RULES for a in argv):
        rc = 0
        for a in argv:
            rc = max(rc, run(a))
        return rc
    print("usage: check.py <property id>")
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
