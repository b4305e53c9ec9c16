"""C23: a call that is refused leaves the object as it was."""
import re
from ..interp import V, Thrown, TooComplex, walk
from ..effects import Effects
from .serial import nm
from .stale import Ev

# reading a file into an object is not undone when the file turns out to be bad half-way
LOADERS = re.compile(r"^(Load|AddModelFile|Read|Parse)")
# helpers that only fill in what is derived from the object's own state
FILLING = re.compile(r"^(Update|Ensure|Compute|Initialize)")
SKIP = {("siren::detector::GDMLData", "ThrowIfErrors"): "empties the list of errors while reporting them",
        ("siren::injection::Injector", "GenerateEvent"): "an attempt counts also when it fails"}


class Ref(Ev):
    MAXSTEPS = 12000

    def __init__(self, F, cls, eff):
        super().__init__(F, cls, eff)
        self.asked = []

    def filling(self):
        return any(FILLING.match(fr.fn["n"]) for fr in self.frames)

    def h_write(self, path, v, node):
        n = len(self.events)
        super().h_write(path, v, node)
        self.keep(n)

    def touch(self, v, n, name=None):
        k = len(self.events)
        super().touch(v, n, name)
        self.keep(k)

    def keep(self, n):
        if self.filling():
            del self.events[n:]

    def h_call(self, n, qn, obj, args):
        k = len(self.events)
        r = super().h_call(n, qn, obj, args)
        self.keep(k)
        return r

    def truth(self, v, node):
        t = super().truth(v, node)
        self.asked.append((len(self.frames), v))
        return t

    def x_throw(self, n):
        if not hasattr(self, "thrown"):
            self.thrown = (n, len(self.frames), list(self.asked))
        return super().x_throw(n)

    def x_try(self, n):
        try:
            return super().x_try(n)
        finally:
            pass


def may_throw(F, f, memo, depth=0):
    """a throw statement in the function or in functions of its class it calls"""
    u = f["usr"]
    if u in memo:
        return memo[u]
    memo[u] = False
    if f.get("body") is not None:
        for n in walk(f["body"]):
            if n["k"] == "throw":
                memo[u] = True
                break
            if n["k"] in ("call", "mcall") and depth < 6:
                g = F.functions.get(n.get("usr"))
                if g is not None and g.get("cls") == f.get("cls") and may_throw(F, g, memo, depth + 1):
                    memo[u] = True
                    break
    return memo[u]


def run(ctx):
    F = ctx.F
    eff = Effects(F)
    memo = {}
    n = 0
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        cls = f.get("cls") or ""
        if not cls or "(" in f["qn"] or cls not in F.classes or f.get("body") is None or f.get("ctor") or f.get("dtor") or f.get("static") or f.get("const") or f.get("assign"):
            continue
        if "/test/" in f["file"] or "/pybindings/" in f["file"] or f.get("acc") != "public" or f["n"] in ("load", "save", "serialize", "load_and_construct", "operator="):
            continue
        if LOADERS.match(f["n"]) or cls.split("::")[-1].startswith("py"):
            continue
        if not {m for (r, m) in eff.of(f) if r == "this"} or not may_throw(F, f, memo):
            continue
        if (cls, f["n"]) in SKIP:
            ctx.notes.append("%s: %s" % (f["qn"], SKIP[(cls, f["n"])]))
            continue
        n += 1
        one(ctx, F, eff, f)
    ctx.require(n >= 10, "no refusing functions found")


def one(ctx, F, eff, f):
    cls = f["cls"]
    ps = [("p%d" % i,) for i in range(len(f["params"]))]

    def go(it):
        try:
            it.call_function(f, V(("this",), cls=cls), [V(p) for p in ps])
        except Thrown as t:
            return it, t
        return it, None
    try:
        rs = Ref.explore(lambda: Ref(F, cls, eff), go, limit=1500)
    except TooComplex:
        ctx.count("undecided")
        ctx.notes.append("%s: too many paths, not decided" % f["qn"])
        return
    ctx.count("functions")
    ctx.count("paths", len(rs))
    refused = 0
    for it, t in rs:
        if t is None:
            continue
        refused += 1
        changed = {}
        for m, l, how in it.events:
            v = it.st.store.get(("this", m))
            if v is not None and v.path == ("this", m):
                continue        # put back
            changed.setdefault(m, l)
        if not changed:
            continue
        node, depth, asked = getattr(it, "thrown", (None, 1, []))
        if depth > 1:
            # a helper that complains about the object itself, whatever the call was
            own = [v for d, v in asked if d >= depth]
            if own and not any(d[0].startswith("p") and d[0][1:].isdigit() or d[:1] == ("this",) and len(d) > 1 and d[1] in changed for v in own for d in v.deps):
                continue
        m = sorted(changed, key=lambda m: (changed[m] or 0, m))[0]
        ctx.violate("%s changes %s before refusing" % (nm(f["qn"]), m), F.where(f, {"l": changed[m]} if changed[m] else None),
                    "%s can refuse the call (throw, line %s) after it has already changed %s" % (f["qn"], (t.node or {}).get("l"), ", ".join(sorted(changed))))
        return
    if refused:
        ctx.count("refusals", refused)
        ctx.ok("%s: nothing is changed on the %d ways to refuse" % (f["qn"], refused))
