"""Constructing an object from arguments leaves no scalar member indeterminate."""
import re
from ..interp import Interp, V, Thrown, TooComplex, walk
from .serial import nm

SCALAR = re.compile(r"^(const )?(volatile )?(double|float|int|bool|char|long|short|unsigned( \w+)*|long \w+|size_t|std::size_t|u?int\d+_t|.*\*|std::array<(double|float|int|bool), ?\d+>)$")


class Ctor(Interp):
    MAXDEPTH = 5
    MAXSTEPS = 20000

    def h_loop_iterations(self, n):
        return 1

    def should_inline(self, fn, obj, args, node):
        c = fn.get("cls") or ""
        return c == self.dyn_class or c in self.F.bases(self.dyn_class)

    def clobber(self, v, deps, node):
        # a library call that gets a member by reference may set it
        if v is not None and v.path is not None and v.path[0] == "this" and len(v.path) > 1:
            self.__dict__.setdefault("handed", set()).add(v.path[1])
        return super().clobber(v, deps, node)


def scalar(F, f):
    t = f["t"]
    return bool(SCALAR.match(t)) or t in F.enums or t.endswith("::ParticleType")


def flags(F, cls, m):
    """a bool member that says whether m is valid"""
    names = {x["n"] for x in F.fields(cls, False) if x["t"] == "bool"}
    return (m + "_set") in names or (m.rstrip("_") + "_set_") in names or (m + "_set_") in names


def run(ctx):
    F = ctx.F
    for cls in sorted(F.classes):
        k = F.classes[cls]
        if "/test" in k["file"] or "/pybindings/" in k["file"] or "/projects/" not in k["file"]:
            continue
        fl = [f for f in k.get("fields", []) if not f.get("static") and not f.get("init") and scalar(F, f)]
        if not fl:
            continue
        for f in F.by_cls.get(cls, []):
            if f.get("ctor") != "other" or not f["params"] or f.get("body") is None:
                continue
            one(ctx, F, cls, f, fl)
    ctx.require(ctx.counts.get("constructors", 0) > 20, "no constructors found")


def one(ctx, F, cls, f, fl):
    short = nm(cls)

    rest = [m for m in fl if m["n"] not in {i.get("m") for i in f.get("inits", [])} and not flags(F, cls, m["n"])]

    def go(it):
        ok = True
        try:
            it.call_function(f, V(("this",)), [V(("p%d" % i,)) for i in range(len(f["params"]))])
        except Thrown:
            ok = False
        return it, ok
    try:
        rs = Ctor.explore(lambda: Ctor(F, cls), go, limit=1500) if rest else []
    except TooComplex:
        rs = None
    listed = {i.get("m") for i in f.get("inits", []) if i.get("m")}
    ctx.count("constructors")
    for m in fl:
        if flags(F, cls, m["n"]):
            continue
        if m["n"] in listed:
            ctx.count("members")
            ctx.ok("%s initialises %s" % (short, m["n"]))
            continue
        if rs is None:
            ctx.notes.append("%s(%s): %s not decided" % (short, ", ".join(p["n"] for p in f["params"]), m["n"]))
            continue
        ctx.count("members")
        missing = False
        for it, ok in rs:
            if not ok:
                continue
            if m["n"] in it.__dict__.get("handed", ()):
                continue
            if not any(len(p) > 1 and p[0] == "this" and p[1] == m["n"] for p in it.st.store):
                missing = True
                break
        sig = "%s(%s)" % (short, ", ".join(p["n"] for p in f["params"]))
        if missing:
            ctx.violate("%s leaves %s" % (sig, m["n"]), F.where(f), "%s can finish without having given %s a value" % (sig, m["n"]))
        else:
            ctx.ok("%s sets %s" % (sig, m["n"]))
