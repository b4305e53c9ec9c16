"""Builds the extractor, runs it over /repo's current sources, loads the facts.

Everything is derived from the working tree on every run.  The translation
units of a project are parsed together (one parse of the shared headers) and a
file that cannot be combined with the others (two files with an equally named
internal helper) is parsed on its own.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIREN_SA_REPO", "/repo")
WORK = os.environ.get("SIREN_SA_WORK", os.path.join(VERIF, "_work"))


class AnalysisBroken(Exception):
    pass


# translation units that are not part of the library any more (no build list
# names them) or that need third-party headers which are not installed here
SKIP = re.compile(r"(/test/|LeptonInjector\.cxx$|/Marley|/pyMarley|PythiaDIS)")


def extractor_path():
    src = os.path.join(VERIF, "extractor", "extract.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(WORK, exist_ok=True)
    cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    cxx = [f for f in cxx if not f.startswith("-std=")]
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti"] + cxx + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
           "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def flags():
    f = ["-std=c++17", "-I" + os.path.join(VERIF, "stubs")]
    for p in sorted(glob.glob(os.path.join(REPO, "projects/*/public"))):
        f.append("-I" + p)
    f += ["-I" + os.path.join(REPO, "vendor/rk"), "-I" + os.path.join(REPO, "vendor/crundec3"),
          "-I/usr/include/python3.12", "-w", "-ferror-limit=0", "-DSIREN_SA_ANALYSIS=1"]
    return f


def translation_units():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "projects")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".cxx") and not SKIP.search(p):
                out.append(p)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ("projects", "vendor/rk", "vendor/crundec3"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            if "/test" in d[len(REPO):]:
                continue
            for f in fs:
                if f.endswith((".cxx", ".h", ".tcc", ".hpp", ".txt")):
                    files.append(os.path.join(d, f))
    for d, _, fs in os.walk(os.path.join(VERIF, "stubs")):
        files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(VERIF, "extractor", "extract.cc"))
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _internal_names(path):
    """names that may clash when files are parsed together: a cheap textual
    over-approximation, used for grouping only (a clash that slips through is
    found by the parser and the file is then parsed alone)"""
    txt = open(path, errors="replace").read()
    names = set()
    if re.search(r"namespace\s*\{", txt) or re.search(r"^(static|inline|constexpr|const)\b", txt, re.M):
        for m in re.finditer(r"^(?:[A-Za-z_][\w:<>,&* ]*?[ &*])(\w+)\s*(?:\(|=|\[|\{)", txt, re.M):
            names.add(m.group(1))
        for m in re.finditer(r"^\s*(?:struct|class)\s+(\w+)\s*(?:\{|:)", txt, re.M):
            names.add(m.group(1))
    return names


def _chunks(tus):
    heavy = [t for t in tus if os.path.basename(t) == "AtomicMasses.cxx"]
    bind = [t for t in tus if "/pybindings/" in t]
    rest = [t for t in tus if t not in heavy and t not in bind]
    bins = [{"f": [], "n": set(), "s": 0} for _ in range(7)]
    proj = lambda t: t[len(REPO) + 1:].split("/")[1]
    for t in sorted(rest, key=lambda t: (proj(t), t)):
        n = _internal_names(t)
        c = [b for b in bins if not (b["n"] & n)] or bins
        b = min(c, key=lambda b: b["s"] + (0 if any(proj(x) == proj(t) for x in b["f"]) else 20000))
        b["f"].append(t); b["n"] |= n; b["s"] += os.path.getsize(t) if not DEVCACHE else os.path.getsize(t) // 8000 * 8000 + 4000
    return [[t] for t in heavy] + [b["f"] for b in bins if b["f"]] + [[t] for t in sorted(bind, key=lambda t: -os.path.getsize(t))]


def _run_one(args):
    exe, flagfile, tmp, ix, files = args
    unity = os.path.join(tmp, "unity_%s.cc" % ix)
    out = os.path.join(tmp, "out_%s.json" % ix)
    if len(files) == 1:
        src = files[0]
    else:
        with open(unity, "w") as f:
            for x in files:
                f.write('#include "%s"\n' % x)
        src = unity
    r = subprocess.run([exe, os.path.join(REPO, "projects"), out, flagfile, src], capture_output=True, text=True)
    tus = []
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                if l.strip():
                    tus.append(json.loads(l))
    if not tus:
        raise AnalysisBroken("extractor failed on %s: %s" % (files[:2], r.stderr[-500:]))
    return tus


# development aid: parts already extracted, for runs over many copies that differ in one file (not used by registered checks)
DEVCACHE = os.environ.get("SIREN_SA_DEVCACHE")
_headers = {}


def _extract_group(args):
    if not DEVCACHE:
        return _extract_files(args)
    files = args[4]
    if not _headers:
        h = hashlib.sha256()
        for base in ("projects", "vendor/rk", "vendor/crundec3"):
            for d, ds, fs in os.walk(os.path.join(REPO, base)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".tcc", ".hpp")):
                        h.update(os.path.join(d, f).encode() + open(os.path.join(d, f), "rb").read())
        h.update(open(os.path.join(VERIF, "extractor", "extract.cc"), "rb").read())
        _headers["h"] = h.digest()
    h = hashlib.sha256(_headers["h"])
    for f in files:
        h.update(f.encode() + open(f, "rb").read())
    c = os.path.join(DEVCACHE, h.hexdigest()[:32] + ".json")
    if os.path.exists(c):
        with open(c) as fh:
            return json.load(fh)
    r = _extract_files(args)
    os.makedirs(DEVCACHE, exist_ok=True)
    with open(c + ".tmp", "w") as fh:
        json.dump(r, fh)
    os.replace(c + ".tmp", c)
    return r


def _extract_files(args):
    exe, flagfile, tmp, gi, files = args
    solo = []
    rest = list(files)
    res = []
    it = 0
    while rest:
        tus = _run_one((exe, flagfile, tmp, "%s_%d" % (gi, it), rest))
        it += 1
        errs = [e for t in tus for e in t["errors"]]
        if not errs or len(rest) == 1:
            res += tus
            break
        bad = [f for f in rest if any(e.startswith(f + ":") for e in errs)]
        if not bad or it > 3:
            bad = list(rest)
        for f in bad:
            rest.remove(f)
            solo.append(f)
    for f in solo:
        res += _run_one((exe, flagfile, tmp, "%s_%d" % (gi, it), [f]))
        it += 1
    return res


class Facts:
    def __init__(self):
        self.functions = {}      # usr -> function
        self.classes = {}        # qualified name -> class
        self.classes_by_usr = {}
        self.enums = {}
        self.vars = []
        self.errors = []
        self.tus = 0

    def add(self, tu):
        self.tus += 1
        for e in tu["errors"]:
            if e not in self.errors:
                self.errors.append(e)
        for f in tu["functions"]:
            k = f["usr"] or f["qn"] + "@" + f["file"] + str(f["l"])
            if k not in self.functions:
                self.functions[k] = f
        for c in tu["classes"]:
            self.classes_by_usr.setdefault(c["usr"], c)
            if c["qn"] not in self.classes or (self.classes[c["qn"]].get("spec") and not c.get("spec")):
                self.classes[c["qn"]] = c
        for e in tu["enums"]:
            self.enums.setdefault(e["qn"], e)
        self.vars += tu["vars"]

    def finish(self):
        seen = set()
        vs = []
        for v in self.vars:
            k = (v["qn"], v["file"], v["l"], v["tw"])
            if k not in seen:
                seen.add(k)
                vs.append(v)
        self.vars = vs
        self.by_cls = {}
        self.by_qn = {}
        for f in self.functions.values():
            if f.get("cls"):
                self.by_cls.setdefault(f["cls"], []).append(f)
            self.by_qn.setdefault(f["qn"], []).append(f)
        self.derived = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived.setdefault(b.get("qn", ""), []).append(c["qn"])

    # -- queries
    def methods(self, cls, name):
        return [f for f in self.by_cls.get(cls, []) if f["n"] == name]

    def fields(self, cls, inherited=False):
        fs = []
        for q in [cls] + (self.bases(cls) if inherited else []):
            c = self.classes.get(q)
            if c:
                fs += c["fields"]
        return fs

    def bases(self, cls):
        """all transitive bases"""
        out = []
        todo = [cls]
        while todo:
            c = self.classes.get(todo.pop(0))
            for b in (c["bases"] if c else []):
                q = b.get("qn", "")
                if q not in out and q != cls:
                    out.append(q)
                    todo.append(q)
        return out

    def all_derived(self, cls):
        out = []
        todo = [cls]
        while todo:
            for d in self.derived.get(todo.pop(0), []):
                if d not in out and d != cls:
                    out.append(d)
                    todo.append(d)
        return out

    def rel(self, path):
        return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path

    def where(self, f, node=None):
        l = (node if isinstance(node, int) else (node or {}).get("l")) or f["l"]
        return "%s:%s" % (self.rel(f["file"]), l)


def load():
    exe = extractor_path()
    key = tree_hash()
    cache = os.path.join(WORK, "facts-" + key + ".json")
    tus = translation_units()
    if len(tus) < 100:
        raise AnalysisBroken("only %d translation units found under %s" % (len(tus), REPO))
    F = Facts()
    F.key = key
    F.tu_files = tus
    if os.path.exists(cache):
        try:
            with open(cache) as f:
                for l in f:
                    F.add(json.loads(l))
            F.finish()
            return F
        except Exception:
            F = Facts(); F.key = key; F.tu_files = tus
    tmp = tempfile.mkdtemp(prefix="siren_sa_")
    try:
        ff = os.path.join(tmp, "flags")
        with open(ff, "w") as f:
            f.write("\n".join(flags()) + "\n")
        groups = _chunks(tus)
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_extract_group, [(exe, ff, tmp, i, g) for i, g in enumerate(groups)]))
        for r in res:
            for t in r:
                F.add(t)
        F.finish()
        try:
            os.makedirs(WORK, exist_ok=True)
            for old in glob.glob(os.path.join(WORK, "facts-*.json")):
                os.unlink(old)
            t = cache + ".%d.tmp" % os.getpid()
            with open(t, "w") as f:
                f.write(json.dumps({"functions": list(F.functions.values()), "classes": list(F.classes_by_usr.values()),
                                    "enums": list(F.enums.values()), "vars": F.vars, "errors": F.errors}) + "\n")
            os.replace(t, cache)
        except OSError:
            pass
        return F
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
