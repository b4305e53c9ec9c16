#!/usr/bin/env python3
"""Make and verify planted bugs.  Usage: seed.py [id ...] [--no-verify]
Each devtests/seeds/<id>.py defines: prop, needs, breaks, edits=[(file, old, new), ...] and demo (C++ source)
or pydemo (python source).  Writes seeded/<id>/ and verifies it in a scratch copy bind-mounted over /repo
inside a private mount namespace: builds, stable tests pass, demo 0 on the unchanged tree, nonzero with the patch,
and the claimed check reports it."""
import json, os, pathlib, runpy, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path("/tmp/scratch/repo")
DEMO_SH = r'''#!/bin/bash
# Exit 0: behaviour as promised. Nonzero: broken. Run with cwd = repository root, after its build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
inc=""
for p in "$repo"/projects/*/public "$repo"/vendor/rk "$repo"/vendor/crundec3; do inc="$inc -I$p"; done
g++ -std=c++17 -O1 -w $inc $(python3-config --includes 2>/dev/null || echo -I/usr/include/python3.12) "$here/demo.cc" -o "$d/demo" \
    -L"$repo/_build" -lSIREN -Wl,-rpath,"$repo/_build" -Wl,--whole-archive "$repo/_build/vendor/rk/librk_static.a" -Wl,--no-whole-archive \
    -lgsl -lgslcblas -lpython3.12 -pthread || exit 3
cd "$d" && timeout 120 ./demo
'''
PYDEMO_SH = r'''#!/bin/bash
# Exit 0: behaviour as promised. Nonzero: broken. Run with cwd = repository root, after its build.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
REPO=$PWD SCRATCH=$d PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/vp/venv/bin/python "$here/demo.py"
'''
INNER = r'''
mount --bind /tmp/scratch/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh > /tmp/scratch/build.log 2>&1 || { echo BUILD-FAILED; tail -30 /tmp/scratch/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/scratch/out.json > /tmp/scratch/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/scratch/out.json'))
base=set(b['stable'])
m=sorted(base-set(o.get('passed',[])))
print("tests:", "OK" if not m else "MISSING %s"%m[:5])
P
bash "$1/demo.sh" > /tmp/scratch/demo.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/scratch/demo.log
'''
def sh(*a, **k): return subprocess.run(a, text=True, capture_output=True, **k)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for p in sorted((V/"devtests/seeds").glob("*.py")):
        if ids and p.stem not in ids: continue
        m = runpy.run_path(str(p))
        d = V/"seeded"/p.stem; d.mkdir(parents=True, exist_ok=True)
        head = sh("git","-C","/repo","rev-parse","HEAD").stdout.strip()
        S.parent.mkdir(exist_ok=True)
        if not S.exists(): shutil.copytree("/repo", S, symlinks=True)
        sh("git","-C",str(S),"fetch","/repo","HEAD"); sh("git","-C",str(S),"checkout","-q","-f",head)
        print("==", p.stem)
        for f, old, new in m["edits"]:
            t = (S/f).read_text()
            if t.count(old) != 1: print("  EDIT MATCHES", t.count(old), f); break
            (S/f).write_text(t.replace(old, new))
        else:
            (d/"patch.diff").write_text(sh("git","-C",str(S),"diff").stdout)
            (d/"meta.json").write_text(json.dumps({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, indent=1)+"\n")
            if "pydemo" in m: (d/"demo.py").write_text(m["pydemo"]); (d/"demo.sh").write_text(PYDEMO_SH)
            else: (d/"demo.cc").write_text(m["demo"]); (d/"demo.sh").write_text(DEMO_SH)
            if "--no-verify" not in sys.argv:
                r = sh("bash", str(d/"demo.sh"), cwd="/repo"); print("  demo unchanged:", r.returncode, (r.stdout+r.stderr)[-300:] if r.returncode else "")
                r = sh("unshare","-m","bash","-c",INNER,"x",str(d)); print("  "+r.stdout.strip().replace("\n","\n  "), r.stderr[-300:])
                env = dict(os.environ, SIREN_SA_REPO=str(S), SIREN_SA_WORK="/tmp/scratch/work", SIREN_SA_EVIDENCE="/tmp/scratch/ev")
                r = sh(str(V/"check.py") if os.access(V/"check.py", os.X_OK) else "python3", *([] if os.access(V/"check.py", os.X_OK) else [str(V/"check.py")]), m["prop"], env=env)
                print("  check", m["prop"], "->", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2], r.stderr[-300:] if r.returncode not in (0,1) else "")
        sh("git","-C",str(S),"checkout","-q","-f","."); 
main()
