"""What a setter stores is what the matching getter returns."""
import re
from ..interp import Interp, V, Thrown, TooComplex, UNKNOWN, walk
from .records import dotted, describe
from .serial import nm


class Acc(Interp):
    MAXDEPTH = 8

    def h_truth(self, v, node):
        return None

    def h_loop_iterations(self, n):
        return 1

    def mixed(self):
        """containers of the object that were added to without being emptied first"""
        return self.__dict__.setdefault("_mixed", set())

    def fresh(self):
        return self.__dict__.setdefault("_fresh", set())

    def method_call(self, n, name, obj, args, cands=None):
        b = obj.loc if obj.loc is not None else obj.path
        if b is not None and b[0] == "this" and (n.get("qn") or "std::").startswith("std::"):
            if name in ("clear", "assign", "swap"):
                self.fresh().add(b)
            elif name in ("push_back", "emplace_back", "insert", "emplace", "push_front") and b not in self.fresh():
                self.mixed().add(b)
        return super().method_call(n, name, obj, args, cands)

    def h_write(self, path, v, node):
        if path[-1] != "[]":
            self.fresh().add(path)


def flat(v):
    return v.elems if v is not None else None


def is_value(it, v):
    """'same' | 'derived' | 'other': relation of v to the argument p0"""
    if v is None:
        return "other"
    if v.path == ("p0",):
        return "same"
    els = v.elems
    if els is None and v.loc is not None:
        parts = {k[len(v.loc):]: x for k, x in it.st.store.items() if len(k) > len(v.loc) and k[:len(v.loc)] == v.loc}
        if parts:
            ok = all(x.path is not None and x.path[0] == "p0" and x.path[1:] == k or (not x.path and x.deps and all(d[0] == "p0" for d in x.deps)) for k, x in parts.items())
            return "same" if ok else "other"
    if els:
        ok = all(e.path == ("p0", "[%d]" % i) or (not e.path and e.deps and all(d[0] == "p0" for d in e.deps)) for i, e in enumerate(els))
        return "same" if ok else "other"
    if v.path is not None and v.path[0] == "this":
        parts = [x for k, x in it.st.store.items() if len(k) > len(v.path) and k[:len(v.path)] == v.path]
        if parts and all(x.deps and all(d[0] == "p0" for d in x.deps) for x in parts):
            return "same"       # filled element by element
    if v.path is not None:
        return "derived" if v.path[0] == "p0" else "other"
    if v.deps and all(d[0] == "p0" for d in v.deps):
        return "derived"
    return "other"


STRIP = re.compile(r"^(Set|set_?)(?=[A-Z_a-z])")


def run(ctx):
    F = ctx.F
    for cls in sorted(F.classes):
        if "/test" in F.classes[cls]["file"] or cls.split("::")[-1].lower().startswith("py"):
            continue
        ms = F.by_cls.get(cls, [])
        for s in sorted(ms, key=lambda f: f["l"]):
            m = STRIP.match(s["n"])
            if m and len(s["params"]) > 1 and s.get("acc") == "public" and not s.get("static") and s.get("body") is not None:
                several(ctx, F, cls, s)
            if not m or len(s["params"]) != 1 or s.get("acc") != "public" or s.get("static") or s.get("body") is None:
                continue
            base = s["n"][m.end():]
            getters = []
            for c in [cls] + F.bases(cls):
                getters = [g for g in F.by_cls.get(c, []) if g["n"] in ("Get" + base, "get" + base, "get_" + base) and not g["params"] and g.get("body") is not None]
                if getters:
                    break
            if not getters or s["n"] == "SetParticle":
                continue        # SetParticle/GetParticle: see the record hand-over rule
            for g in getters:
                pair(ctx, F, cls, s, g)
    run_ctors(ctx, F)


def bare(t):
    return t.replace("const ", "").replace("&", "").strip()


def several(ctx, F, cls, s):
    """a setter of several values: each that has a getter of its name"""
    for i, p in enumerate(s["params"]):
        for c in [cls] + F.bases(cls):
            gs = [g for g in F.by_cls.get(c, []) if not g["params"] and g["n"].lower().startswith("get") and norm(g["n"][3:]) == norm(p["n"]) and g.get("body") is not None
                  and bare(g.get("ret") or "") == bare(p["t"])]
            if gs:
                for g in gs:
                    pair(ctx, F, cls, s, g, i)
                break


def norm(n):
    return n.replace("_", "").lower()


class CAcc(Acc):
    MAXDEPTH = 4
    MAXSTEPS = 4000

    def should_inline(self, fn, obj, args, node):
        if fn.get("ctor") or fn["n"].lower().startswith("get"):
            return True
        return any(a is not None and a.path == ("p0",) for a in args)


def run_ctors(ctx, F):
    """an argument of a constructor that shares its name with a getter is what the getter returns"""
    for cls in sorted(F.classes):
        if "/test" in F.classes[cls]["file"] or cls.split("::")[-1].lower().startswith("py"):
            continue
        getters = {}
        for c in [cls] + F.bases(cls):
            for g in F.by_cls.get(c, []):
                if not g["params"] and g["n"].lower().startswith("get") and g.get("body") is not None and g.get("acc") == "public":
                    getters.setdefault(norm(g["n"][3:]), g)
                elif not g["params"] and g.get("const") and g.get("body") is not None and g.get("acc") == "public" and g.get("ret") != "void":
                    getters.setdefault(norm(g["n"]), g)
        if not getters:
            continue
        for f in F.by_cls.get(cls, []):
            if f.get("ctor") != "other" or f.get("body") is None:
                continue
            taken(ctx, F, cls, f)
            for i, p in enumerate(f["params"]):
                g = getters.get(norm(p["n"]))
                if g is not None:
                    ctor_pair(ctx, F, cls, f, i, g)


def taken(ctx, F, cls, f):
    """an argument of a constructor that is named like a member is looked at"""
    members = {x["n"].strip("_").lower() for x in F.fields(cls, True)}
    used = {n.get("id") for r in [f["body"]] + list(f.get("inits", [])) for n in walk(r) if n["k"] == "ref"}
    for p in f["params"]:
        n = p["n"].strip("_").lower()
        if not n or not any(m == n or m.endswith("_" + n) for m in members):
            continue
        ctx.count("constructor_arguments")
        if p["id"] in used:
            ctx.ok("%s(%s) uses %s" % (nm(cls), ", ".join(q["n"] for q in f["params"]), p["n"]))
        else:
            ctx.violate("%s(%s) ignores %s" % (nm(cls), ", ".join(q["n"] for q in f["params"]), p["n"]), F.where(f), "the argument %s is never used: the object does not depend on it" % p["n"])


def ctor_pair(ctx, F, cls, f, i, g):
    what = "%s(#%d of %d)/%s" % (nm(cls), i + 1, len(f["params"]), g["n"])

    def run1(it):
        args = [V(("p0",)) if k == i else V(("q%d" % k,)) for k in range(len(f["params"]))]
        try:
            it.call_function(f, V(("this",)), args)
        except Thrown:
            return it, None, "refused"
        try:
            r = it.call_function(g, V(("this",)), [])
        except Thrown:
            return it, None, "throws"
        return it, r, "ok"
    try:
        rs = CAcc.explore(lambda: CAcc(F, cls), run1, limit=128)
    except TooComplex:
        ctx.notes.append("%s: too many paths, not decided" % what)
        return
    ctx.count("constructor_pairs")
    oks = [(it, r) for it, r, oc in rs if oc == "ok"]
    bad = [(it, r) for it, r in oks if is_value(it, r) == "other"]
    good = len(oks) - len(bad)
    unknown = [1 for it, r in bad if r is None or not r.path and not r.deps and r.const is None and not r.elems]
    mixed = [1 for it, r in bad if r is not None and any(d[0] == "p0" for d in r.deps) and any(d[0].startswith("q") for d in r.deps)]
    if mixed:
        ctx.violate("%s:mixed" % what, F.where(f), "%s() after construction gives a mixture of the argument %s and other arguments" % (g["n"], f["params"][i]["n"]))
    elif not good and (len(unknown) == len(bad) or any(any(d[0] == "p0" for d in r.deps) for it, r in bad)):
        ctx.count("constructor_pairs_undecided")
    elif bad and not good:
        # not even on one path (arguments may be normalised or replaced by defaults on some)
        ctx.violate(what, F.where(f), "%s() after construction gives %s, not the argument %s" % (g["n"], describe(bad[0][1]), f["params"][i]["n"]))
    elif oks:
        ctx.ok("%s hands back the constructor's argument" % what)


def pair(ctx, F, cls, s, g, i=0):
    short = nm(cls)
    what = "%s::%s/%s" % (short, s["n"], g["n"])
    args = [V(("p0",)) if k == i else V(("q%d" % k,)) for k in range(len(s["params"]))]

    def run1(it):
        try:
            it.call_function(s, V(("this",)), list(args))
        except Thrown:
            return it, None, "refused"
        try:
            r = it.call_function(g, V(("this",)), [])
        except Thrown:
            return it, None, "throws"
        return it, r, "ok"
    try:
        rs = Acc.explore(lambda: Acc(F, cls), run1, limit=2048)
    except TooComplex:
        ctx.notes.append("%s: too many paths, not decided" % what)
        return
    ctx.count("pairs")
    ctx.count("paths", len(rs))
    if not any(oc == "ok" for _, _, oc in rs):
        ctx.count("refusing_setters")
        return
    rel = None
    for it, r, oc in rs:
        if oc == "refused":
            continue
        if oc == "throws":
            ctx.violate("%s:throws" % what, F.where(g), "after %s, %s of %s throws" % (s["n"], g["n"], short))
            continue
        k = is_value(it, r)
        p = None if r is None else (r.loc if r.loc is not None else r.path)
        if p in it.mixed():
            ctx.violate("%s:mixed" % what, F.where(s), "%s of %s adds to what was there before, so %s() gives more than what was set" % (s["n"], short, g["n"]))
            continue
        if k == "other":
            ctx.violate(what, F.where(s), "after %s(x), %s() of %s gives %s, not x" % (s["n"], g["n"], short, describe(r)))
        elif k == "derived":
            ctx.count("derived")
            ctx.ok("%s hands back a value computed from what was set only" % what)
        else:
            ctx.ok("%s hands back what was set" % what)
