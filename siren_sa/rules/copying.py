"""C06: copies, assignments, swaps and clones carry over every member."""
from ..interp import Interp, V, Thrown, TooComplex, walk
from ..effects import Effects
from .serial import nm

# members whose value a copy may legitimately not take over
NOT_COPIED = {
}


class Cp(Interp):
    """evaluates a copying function with the two objects `this` and `other`"""

    def h_compare(self, op, a, b, node):
        if {a.path, b.path} == {("this",), ("other",)} and op in ("==", "!="):
            return V(None, const=(op == "!="))      # two different objects
        return super().h_compare(op, a, b, node)

    def value(self, p):
        return self.st.store.get(p) or V(p)

    def all_fields(self, cls):
        return self.F.fields(cls, True)

    def copy_whole(self, cls, dst, src, node):
        vals = [(f["n"], self.member(src, f["n"], node)) for f in self.all_fields(cls)]
        for n, v in vals:
            self.write_to(dst, (n,), v.clone(loc=None), node)

    def swap_places(self, a, b, node):
        va, vb = self.value_of(a), self.value_of(b)
        self.write_to(a[0], a[1], vb, node)
        self.write_to(b[0], b[1], va, node)

    def value_of(self, lv):
        base, fields = lv
        p = (base.loc if base.loc is not None else base.path)
        if p is None:
            return V(None)
        p = p + tuple(fields)
        return self.st.store.get(p) or (V(p) if base.loc is None else V(base.path + tuple(fields)) if base.path else V(None))

    def place(self, n):
        lv = self.lvalue(n)
        if lv and lv[0] == "path":
            return (lv[1], lv[2])
        if lv and lv[0] == "var":
            v = self.st.env.get(lv[1])
            if v is not None and (v.loc is not None or v.path is not None):
                return (v, ())
        return None

    def h_call(self, n, callee, obj, args):
        name = n.get("fn") or (n.get("f") or {}).get("n") or ""
        if name == "swap" and n["k"] == "call" and len(args) == 2:
            a, b = self.place(n["a"][0]), self.place(n["a"][1])
            if a and b:
                self.swap_places(a, b, n)
                return V(None)
        if name == "swap" and n["k"] == "mcall" and len(args) == 1 and (n.get("qn") or "").startswith("std::"):
            a, b = self.place(n["obj"]), self.place(n["a"][0])
            if a and b:
                self.swap_places(a, b, n)
                return V(None)
        if name == "exchange" and len(args) == 2 and n["k"] == "call":
            a = self.place(n["a"][0])
            if a:
                old = self.value_of(a)
                self.write_to(a[0], a[1], args[1].clone(loc=None), n)
                return old
        if n["k"] == "ctor" and n.get("cp") and args and n.get("cls") in self.F.classes and args[0].path is not None and args[0].loc is None:
            # a copy of one of the two objects
            fn = self.F.functions.get(n.get("usr"))
            self.uid += 1
            loc = ("L", self.uid, "copy")
            o = V(None, args[0].deps, loc=loc, cls=n.get("cls"))
            if args[0].path in (("this",), ("other",)):
                self.copies.append((n, args[0].path, n.get("cls")))
                if fn is not None and fn.get("body") is not None and not defaulted(fn):
                    self.call_function(fn, o, args, n)
                else:
                    for f in self.all_fields(n["cls"]):
                        self.write_to(o, (f["n"],), self.member(args[0], f["n"], n).clone(loc=None), n)
                return o
            return args[0]
        if name == "operator=" and n["k"] == "mcall" and obj is not None and obj.path == ("this",) and len(args) == 1:
            fn = self.F.functions.get(n.get("usr"))
            cls = (n.get("qn") or "").rsplit("::", 1)[0]
            if fn is None or defaulted(fn):
                self.copy_whole(cls, obj, args[0], n)
                return obj
        return None

    def should_inline(self, fn, obj, args, node):
        if fn.get("ctor") or fn.get("assign") or fn["n"] == "swap":
            return True
        objs = [a for a in ([obj] if obj is not None else []) + list(args) if a is not None]
        roots = {p for a in objs for p in [a.path] if p in (("this",), ("other",))}
        if ("other",) in roots or len(self.frames) > 1 and any(a.loc is not None for a in args):
            return True
        return not fn.get("cls") and len(self.frames) < 3

    def method_call(self, n, name, obj, args, cands=None):
        fn = self.F.functions.get(n.get("usr"))
        if fn is not None and obj is not None and (obj.path == ("this",) or obj.loc is not None) and not self.should_inline(fn, obj, args, n) and fn["n"] not in ("swap",):
            # a step of the class that recomputes members from others
            eff = self.effects().of(fn)
            for (root, mem), w in eff.items():
                if root == "this" and mem != "*":
                    self.write_to(obj, (mem,), V(None, key=("rebuilt",)), n)
        return super().method_call(n, name, obj, args, cands)

    def effects(self):
        e = getattr(self.F, "_eff", None)
        if e is None:
            e = self.F._eff = Effects(self.F)
        return e

    def exec_init(self, init, fr):
        e = init.get("e")
        if "m" in init and not init.get("w"):
            # not written in the source: default initialisation only
            return
        return super().exec_init(init, fr)

    def e_opcall(self, n):
        if n["op"] == "=" and len(n["a"]) == 2:
            t = self.ev(n["a"][0])
            if t.path == ("this",) and t.loc is None:
                v = self.ev(n["a"][1])
                fn = self.F.functions.get(n.get("usr"))
                if fn is not None and not defaulted(fn):
                    return self.call_function(fn, t, [v], n)
                cls = (n.get("qn") or "").rsplit("::", 1)[0]
                if v.path is not None or v.loc is not None:
                    self.copy_whole(cls, t, v, n)
                    return t
        return super().e_opcall(n)

    def e_new(self, n):
        e = n.get("e") or {}
        if e.get("k") == "ilist" and len(e.get("a", [])) == 1:
            v = self.ev(e["a"][0])
            if v.path == ("this",):
                self.copies.append((n, v.path, n.get("of", "")))
        return super().e_new(n)

    def make_object(self, n, args):
        ta = (n.get("ta") or [""])[0] if n.get("ta") else ""
        if len(args) == 1 and args[0].path in (("this",), ("other",)):
            self.copies.append((n, args[0].path, pointee(n.get("t", ""))))
        return super().make_object(n, args)


def pointee(t):
    i = t.find("<")
    if i < 0:
        return t.replace("*", "").replace("const", "").strip()
    return t[i + 1:t.rfind(">")].split(",")[0].replace("const ", "").strip()


def defaulted(fn):
    return bool(fn.get("defaulted")) or fn.get("body") is None


def run_paths(F, fn, cls):
    other = V(("other",))

    def run(it):
        it.copies = []
        try:
            r = it.call_function(fn, V(("this",)), [other.clone()] if fn["params"] else [])
            return it, r, "ok"
        except Thrown:
            return it, None, "throw"
    return [x for x in Cp.explore(lambda: Cp(F, cls), run, limit=512)]


def from_field(v, root, name):
    """does v carry exactly member `name` of `root`?"""
    if v is None:
        return False
    p = (root, name)
    if v.key == ("rebuilt",):
        return True
    if v.path is not None:
        return v.path[:2] == p and all(str(x).startswith(("#", "[")) or x in ("first", "second") for x in v.path[2:])
    ds = [d for d in v.deps if d[0] in ("this", "other")]
    if v.elems and not ds:
        ds = [d for e in v.elems for d in e.deps]
    return bool(ds) and all(d[:2] == p for d in ds)


def final(it, root, name, whole=True):
    """value of a member at the end: direct, or assembled from parts"""
    p = (root, name)
    if p in it.st.store:
        return it.st.store[p]
    parts = {k: v for k, v in it.st.store.items() if k[:2] == p}
    if parts:
        d = frozenset()
        for v in parts.values():
            d |= v.deps
        return V(None, d)
    return None


def check_copy(ctx, F, fn, cls, kind):
    short = nm(cls)
    fields = [f for f in F.fields(cls, True) if not f.get("mut") and (cls, f["n"]) not in NOT_COPIED]
    try:
        rs = run_paths(F, fn, cls)
    except TooComplex as e:
        ctx.require(False, "%s: %s" % (fn["qn"], e))
    oks = [(it, r) for it, r, oc in rs if oc == "ok"]
    ctx.require(bool(oks), "%s never completes" % fn["qn"])
    for it, r in oks:
        for f in fields:
            ctx.count("members")
            v = final(it, "this", f["n"])
            src = v.clone() if v is not None else None
            if v is None:
                ctx.violate("%s:%s:missing:%s" % (short, kind, f["n"]), F.where(fn), "the %s of %s leaves member %s as it was" % (kind, short, f["n"]))
            elif not from_field(v, "other", f["n"]):
                ctx.violate("%s:%s:wrong:%s" % (short, kind, f["n"]), F.where(fn),
                            "the %s of %s gives member %s a value (%s) that is not the other object's %s" % (kind, short, f["n"], v, f["n"]))
            else:
                ctx.ok("%s of %s takes over %s" % (kind, short, f["n"]))
        if kind.endswith("assignment"):
            if r is not None and r.path is not None and r.path != ("this",):
                ctx.violate("%s:%s:result" % (short, kind), F.where(fn), "the %s of %s returns something else than the object itself" % (kind, short))


def check_swap(ctx, F, fn, cls):
    short = nm(cls)
    fields = [f for f in F.fields(cls, True) if not f.get("mut")]
    rs = run_paths(F, fn, cls)
    oks = [(it, r) for it, r, oc in rs if oc == "ok"]
    ctx.require(bool(oks), "%s never completes" % fn["qn"])
    for it, r in oks:
        for f in fields:
            ctx.count("members")
            a, b = final(it, "this", f["n"]), final(it, "other", f["n"])
            if a is None and b is None:
                ctx.violate("%s:swap:missing:%s" % (short, f["n"]), F.where(fn), "swap of %s does not exchange member %s" % (short, f["n"]))
            elif not (from_field(a, "other", f["n"]) and from_field(b, "this", f["n"])):
                ctx.violate("%s:swap:wrong:%s" % (short, f["n"]), F.where(fn), "after swap of %s member %s of the two objects is %s / %s" % (short, f["n"], a, b))
            else:
                ctx.ok("swap of %s exchanges %s" % (short, f["n"]))


def run(ctx):
    F = ctx.F
    for fn in sorted(F.functions.values(), key=lambda f: (f["qn"], f["usr"])):
        if "/test" in fn["file"] or not fn.get("cls") or fn.get("internal"):
            continue
        cls = fn["cls"]
        if "<" in cls and cls not in F.classes:
            c = F.classes_by_usr.get(fn.get("cusr"))
            if c is None:
                continue
        if fn.get("body") is None:
            continue
        kind = None
        if fn.get("ctor") in ("copy", "move"):
            kind = fn["ctor"] + " constructor"
        elif fn.get("assign"):
            kind = fn["assign"] + " assignment"
        elif fn["n"] == "operator=" and len(fn["params"]) == 1 and same_family(F, fn):
            kind = "copy assignment"
        if kind:
            if defaulted(fn):
                ctx.count("defaulted")
                continue
            ctx.count("copy_functions")
            if not F.fields(cls, True):
                continue
            check_copy(ctx, F, fn, cls, kind)
        elif fn["n"] == "swap" and len(fn["params"]) == 1:
            ctx.count("swaps")
            check_swap(ctx, F, fn, cls)
        elif fn["n"] in ("clone", "create") and not fn["params"] and not fn.get("static"):
            check_clone(ctx, F, fn, cls)
    check_overridden(ctx, F)


def trampoline(cls):
    return cls.split("::")[-1].lower().startswith("py")


def same_family(F, fn):
    t = fn["params"][0]["t"].replace("const", "").replace("&", "").strip()
    return t == fn["cls"] or t in F.bases(fn["cls"])


def check_clone(ctx, F, fn, cls):
    short = nm(cls)
    if trampoline(cls):
        return          # dispatches to Python
    ctx.count("clones")
    rs = run_paths(F, fn, cls)
    for it, r, oc in rs:
        if oc != "ok":
            continue
        good = [c for c in it.copies if c[1] == ("this",) and bare(c[2]) == bare(cls)]
        if good:
            ctx.ok("%s::%s copies the object as a %s" % (short, fn["n"], short))
        else:
            ctx.violate("%s:%s" % (short, fn["n"]), F.where(fn), "%s::%s does not return a copy of the object as a %s" % (short, fn["n"], short))


def bare(t):
    t = t.split("<")[0] if "<" in t else t
    return t.replace("const", "").replace("struct", "").replace("class", "").strip().split("::")[-1]


def check_overridden(ctx, F):
    """every concrete class of a cloneable hierarchy overrides the cloning function"""
    for c in sorted(F.classes.values(), key=lambda c: c["qn"]):
        if c.get("abstract") or "/test" in c["file"]:
            continue
        for name in ("clone", "create"):
            own = [m for m in c["methods"] if m["n"] == name]
            inh = [(b, m) for b in F.bases(c["qn"]) for m in (F.classes.get(b) or {"methods": []})["methods"] if m["n"] == name and m.get("virt")]
            if not inh:
                continue
            ctx.count("cloneable")
            if own:
                ctx.ok("%s overrides %s" % (nm(c["qn"]), name))
            else:
                ctx.violate("%s:no-%s" % (nm(c["qn"]), name), "%s:%s" % (F.rel(c["file"]), c["l"]),
                            "%s does not override %s: a clone of it is a %s" % (nm(c["qn"]), name, nm(inh[0][0])))
