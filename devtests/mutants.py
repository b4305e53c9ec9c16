#!/usr/bin/env python3
"""Development aid, not a check: applies small edits to scratch copies of the
sources and reports which checks answer.  An entry is
  {"id", "property" (or null for an edit that keeps the behaviour), "file", "old", "new"[, "edits": [[file, old, new], ...]]}

usage: mutants.py [substring of ids ...]
"""
import concurrent.futures as cf
import glob
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALLCHECKS = None
SLOTS = queue.Queue()
for _i in range(4):
    SLOTS.put(_i + (4 if HERE.startswith("/tmp") else 0))


def one(m, checks):
    slot = SLOTS.get()
    tmp = os.path.join(tempfile.gettempdir(), "mslot%d" % slot)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        r = os.path.join(tmp, "r")
        os.makedirs(r)
        for d in ("projects", "vendor", "python", "resources", "tests"):
            shutil.copytree(os.path.join("/repo", d), os.path.join(r, d))
        for f in glob.glob("/repo/*.txt") + glob.glob("/repo/*.toml") + glob.glob("/repo/*.py"):
            shutil.copy(f, r)
        w = os.path.join(tmp, "w")
        os.makedirs(w)
        for e in glob.glob(os.path.join(VERIF, "_work", "extract-*")):
            shutil.copy(e, w)
        edits = m.get("edits") or [[m["file"], m["old"], m["new"]]]
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return m, "NOT-APPLIED (%s)" % f, ""
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        env = dict(os.environ, SIREN_SA_REPO=r, SIREN_SA_WORK=w, SIREN_SA_EVIDENCE=os.path.join(tmp, "ev"),
                   SIREN_SA_DEVCACHE="/tmp/mslotcache%d" % slot)
        out = []
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py")] + checks, capture_output=True, text=True, env=env)
        hits = sorted({l.split("property=")[1].split()[0] for l in p.stdout.splitlines() if l.startswith("VIOLATION")})
        broken = [l for l in p.stdout.splitlines() if l.startswith("ANALYSIS-BROKEN")]
        detail = "\n".join("      " + l for l in p.stdout.splitlines() if l.startswith("  "))
        err = [l for l in p.stdout.splitlines() if "parse diagnostics" in l]
        return m, "hits=%s%s" % (",".join(hits) or "-", " BROKEN " + "; ".join(broken) if broken else ""), detail
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        cache = "/tmp/mslotcache%d" % slot
        # (headers edited: everything is extracted anew)
        fs = sorted(glob.glob(cache + "/*.json"), key=os.path.getmtime)
        for f in fs[:-150]:
            os.unlink(f)
        SLOTS.put(slot)


def main():
    ms = []
    for f in sorted(glob.glob(os.path.join(HERE, "mutants*.json"))):
        ms += json.load(open(f))
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    if sel:
        ms = [m for m in ms if any(s in m["id"] or s == m.get("property") for s in sel)]
    sys.path.insert(0, VERIF)
    from siren_sa.registry import RULES
    checks = list(RULES)
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for m, res, detail in ex.map(lambda m: one(m, [m["property"]] if m.get("property") and "-a" not in sys.argv else checks), ms):
            hits = set(res.split("hits=")[1].split()[0].split(",")) - {"-"} if "hits=" in res else set()
            if m.get("property"):
                ok = m["property"] in hits
            else:
                ok = not hits and "BROKEN" not in res and "NOT" not in res
            bad += not ok
            print("%-4s %-34s want=%-5s %s" % ("ok" if ok else "MISS" if m.get("property") else "NOISE", m["id"], m.get("property") or "quiet", res), flush=True)
            if not ok or "-v" in sys.argv:
                print(detail)
    print("%d of %d as wanted" % (len(ms) - bad, len(ms)))


main()
