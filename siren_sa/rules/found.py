"""A search result, a cast or a locked pointer is used only where it is known to have succeeded, and what was found
absent is not then looked up."""
import re
from ..interp import walk
from ..flow import Flow, Client, word
from .serial import nm
from .roles import strip, key_of, where

FINDERS = {"find", "find_if", "find_if_not", "search", "adjacent_find"}
CHANGERS = {"insert", "emplace", "erase", "clear", "push_back", "emplace_back", "resize", "assign", "swap", "try_emplace", "insert_or_assign", "pop_back", "merge", "extract"}
ITER = re.compile(r"iterator|_Rb_tree|__normal_iterator|_Node_iter")


def peel(e):
    """the expression behind casts and copies, not behind dereferences"""
    while e is not None:
        if e["k"] == "cast" and e.get("ck") != "dynamic":
            e = e["e"]
        elif e["k"] == "ctor" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif e["k"] == "ilist" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif e["k"] == "call" and (e.get("qn") or "") in ("std::move", "std::forward"):
            e = e["a"][0]
        elif e["k"] == "paren":
            e = e["e"]
        else:
            return e
    return None


def is_find(e):
    e = peel(e)
    if e is None:
        return False
    if e["k"] == "mcall" and e.get("fn") == "find" and len(e.get("a", [])) == 1 and not re.match(r"(const )?(std::)?(__cxx11::)?(basic_)?string\b", ((e.get("obj") or {}).get("t")) or ""):
        return not re.match(r"(const )?(unsigned|int|long|std::size_t|size_t|.*::size_type)\b[ \w]*$", e.get("t") or "")
    if e["k"] == "call" and e.get("fn", (e.get("qn") or "").split("::")[-1]) in FINDERS and (e.get("qn") or "").startswith("std::") and len(e.get("a", [])) >= 3:
        return True
    return False


def is_cast(e):
    e = peel(e)
    if e is None:
        return False
    if e["k"] == "cast" and e.get("ck") == "dynamic":
        return (e.get("to") or "").rstrip().endswith("*")
    if e["k"] == "call" and (e.get("qn") or "").split("::")[-1].split("<")[0] == "dynamic_pointer_cast":
        return True
    if e["k"] == "mcall" and e.get("fn") == "lock" and "weak_ptr" in ((e.get("obj") or {}).get("t") or ""):
        return True
    return False


def is_end(e):
    e = peel(e)
    if e is None:
        return False
    if e["k"] == "mcall" and e.get("fn") in ("end", "cend"):
        return True
    if e["k"] == "call" and (e.get("qn") or "").split("::")[-1] in ("end", "cend"):
        return True
    return False


def typed(e, D, depth=0):
    """name of the object whose dynamic type the expression is, or None"""
    e = peel(e)
    if e is None or depth > 2:
        return None
    if e["k"] == "typeid" and isinstance(e.get("e"), dict):
        return None if ((e["e"].get("t") or "").rstrip().endswith("*")) else key_of(e["e"], D)
    if e["k"] == "ref":
        ds = D.d.get(e.get("id"), [])
        if len(ds) == 1:
            return typed(ds[0], D, depth + 1)
    return None


class Found(Client):
    def __init__(self, fn, ctx, calls, safe):
        super().__init__(fn)
        self.ctx = ctx
        self.seen = set()
        self.calls = calls      # family of virtual methods -> [(site, same type known)]
        self.safe = safe        # names of parameters known to have the class of *this

    # -- naming
    def name(self, e):
        """name of a checked value: what was searched for, or the variable"""
        e = peel(e)
        if e is None:
            return None
        if e["k"] == "ref" and e.get("id") is not None:
            ds = self.D.d.get(e["id"], [])
            if len(ds) == 1 and is_find(ds[0]):
                return self.name(ds[0])
            return "v%s" % e["id"]
        if is_find(e):
            if e["k"] == "mcall":
                return key_of(e["obj"], self.D) + " ? " + key_of(e["a"][0], self.D)
            return "find " + " ".join(key_of(a, self.D) for a in e["a"])
        if is_cast(e):
            return "cast " + (e.get("to") or e.get("t") or "") + " " + key_of(e.get("e") or (e.get("a") or [e.get("obj")])[0], self.D)
        if e["k"] == "mem":
            return key_of(e, self.D)
        return None

    def risky(self, e):
        """is the value possibly an unsuccessful search or cast"""
        e = peel(e)
        if e is None:
            return None
        if is_find(e):
            return "search"
        if is_cast(e):
            return "cast"
        if e["k"] == "ref" and e.get("id") is not None:
            for d in self.D.d.get(e["id"], []):
                if is_find(d):
                    return "search"
                if is_cast(d):
                    return "cast"
        return None

    def from_peer(self, b):
        """the cast turns the parameter of a comparison that is only reached with two objects of one class into that
        class, or a stored object into the class this function creates it as"""
        b = peel(b)
        ds = self.D.d.get(b["id"], []) if b["k"] == "ref" else [b]
        for d in ds:
            d = peel(d)
            if d is None or d["k"] != "cast":
                return False
            to = (d.get("to") or "").replace("const", "").replace("*", "").strip().split("::")[-1]
            src = strip(d["e"])
            if self.safe and src is not None and src["k"] == "ref" and src.get("dk") == "p" and to.split("<")[0] == (self.fn.get("cls") or "").split("::")[-1].split("<")[0]:
                continue
            if src is not None and src["k"] == "mcall" and src.get("fn") == "get" and strip(src.get("obj")) is not None and strip(src["obj"])["k"] == "mem" and made_as(self.fn, strip(src["obj"])["n"], to):
                continue
            return False
        return bool(ds)

    # -- learning
    def atom(self, e, depth=0):
        e0 = e
        e = peel(e)
        if e is None or depth > 3:
            return (), ()
        k = e["k"]
        op = e.get("op")
        if (k == "bin" or k == "opcall") and op in ("==", "!="):
            l, r = (e["lhs"], e["rhs"]) if k == "bin" else (e["a"] + [None, None])[:2]
            for a, b in ((l, r), (r, l)):
                if a is None or b is None:
                    continue
                if is_end(b):
                    n = self.name(a)
                    if n:
                        t, f = (("ok", n),) + self.itself(a), (("absent", n),)
                        return (t, f) if op == "!=" else (f, t)
                pb = peel(b)
                if pb is not None and (pb["k"] == "nullptr" or (pb["k"] == "int" and pb["v"] == "0")):
                    n = self.name(a) or self.count(a)
                    if n:
                        t, f = (("ok", n),), (("absent", n),)
                        return (t, f) if op == "!=" else (f, t)
        if (k == "bin" or k == "opcall") and op in ("==", "!="):
            l, r = (e["lhs"], e["rhs"]) if k == "bin" else (e["a"] + [None, None])[:2]
            a, b = typed(l, self.D), typed(r, self.D)
            if a and b:
                t = (("same", a, b), ("same", b, a))
                return (t, ()) if op == "==" else ((), t)
        if k == "bin" and op in ("<", ">", "<=", ">="):
            l, r = peel(e["lhs"]), peel(e["rhs"])
            n = self.count(l)
            if n and r is not None and r["k"] == "int":
                v = int(r["v"])
                if (op == ">" and v == 0) or (op == ">=" and v == 1):
                    return (("ok", n),), (("absent", n),)
                if (op == "<" and v == 1) or (op == "<=" and v == 0):
                    return (("absent", n),), (("ok", n),)
            n = self.count(r)
            if n and l is not None and l["k"] == "int":
                v = int(l["v"])
                if (op == "<" and v == 0) or (op == "<=" and v == 1):
                    return (("ok", n),), (("absent", n),)
        n = self.count(e)
        if n:
            return (("ok", n),), (("absent", n),)
        if k == "ref" and e.get("id") is not None:
            if self.risky(e) == "cast":
                return (("ok", self.name(e)),), (("absent", self.name(e)),)
            ds = self.D.d.get(e["id"], [])
            if len(ds) == 1 and "bool" in (e.get("t") or "") and ds[0]["k"] not in ("ref", "elem"):
                return self.bool_facts(ds[0], depth + 1)
        if k == "mcall" and e.get("fn") in ("operator bool", "get") and not e.get("a"):
            return self.atom(e.get("obj"), depth + 1)
        if is_cast(e):
            n = self.name(e)
            return (("ok", n),), (("absent", n),)
        if k in ("call", "mcall") and "bool" in (e.get("t") or ""):
            # a helper that is given the value decides
            fs = tuple(("ok", self.name(a)) for a in e.get("a", []) if self.risky(a) and self.name(a))
            return fs, fs
        return (), ()

    def bool_facts(self, e, depth):
        e = peel(e)
        if e is None or depth > 3:
            return (), ()
        if e["k"] == "un" and e.get("op") in ("!", "not"):
            t, f = self.bool_facts(e["e"], depth + 1)
            return f, t
        if e["k"] == "bin" and e["op"] in ("&&", "and"):
            return self.bool_facts(e["lhs"], depth + 1)[0] + self.bool_facts(e["rhs"], depth + 1)[0], ()
        if e["k"] == "bin" and e["op"] in ("||", "or"):
            return (), self.bool_facts(e["lhs"], depth + 1)[1] + self.bool_facts(e["rhs"], depth + 1)[1]
        return self.atom(e, depth + 1)

    def itself(self, e):
        e = peel(e)
        return (("ok", "v%s" % e["id"]),) if e["k"] == "ref" and e.get("id") is not None else ()

    def count(self, e):
        e = peel(e)
        if e is not None and e["k"] == "mcall" and e.get("fn") in ("count", "contains") and len(e.get("a", [])) == 1:
            return key_of(e["obj"], self.D) + " ? " + key_of(e["a"][0], self.D)
        return None

    # -- effects
    def changes(self, e):
        c = super().changes(e)
        if e["k"] == "mcall" and e.get("fn") in CHANGERS and e.get("obj") is not None:
            c = c | self.target(e["obj"])
        if e["k"] == "opcall" and e.get("op") == "[]" and e.get("a") and "map" in ((strip(e["a"][0]) or {}).get("t") or "") and "const" not in ((strip(e["a"][0]) or {}).get("t") or "")[:6]:
            c = c | self.target(e["a"][0])
        return c

    def after(self, e, s):
        s = super().after(e, s)
        v = None
        if e["k"] == "bin" and e["op"] == "=":
            v, r = strip(e["lhs"]), e["rhs"]
        elif e["k"] == "opcall" and e.get("op") == "=" and len(e.get("a", [])) == 2:
            v, r = strip(e["a"][0]), e["a"][1]
        if v is not None and v["k"] == "ref" and v.get("id") is not None:
            return self.given(v["id"], r, s)
        return s

    def declared(self, v, s):
        s = super().declared(v, s)
        return self.given(v["id"], v["init"], s) if v.get("init") is not None else s

    def given(self, vid, r, s):
        if not self.risky(r):
            return s | {("ok", "v%s" % vid)}
        n = self.name(r)
        if n and ("ok", n) in s:
            return s | {("ok", "v%s" % vid)}
        return s

    # -- obligations
    def visit(self, e, s):
        k = e["k"]
        b = None
        if k == "un" and e.get("op") == "*":
            b = e["e"]
        elif k == "opcall" and e.get("op") in ("*", "->") and len(e.get("a", [])) == 1:
            b = e["a"][0]
        elif k in ("mem",) and e.get("arrow"):
            b = e.get("b")
        elif k == "mcall" and e.get("arrow"):
            b = e.get("obj")
        if b is not None:
            self.use(e, b, s)
        if k == "cast" and e.get("ck") in ("static", "c", "cstyle", "reinterpret", "func") or k == "call" and (e.get("qn") or "").split("<")[0] == "std::static_pointer_cast":
            self.down(e, s)
        if self.calls is not None and k in ("mcall", "call") and len(e.get("a", [])) == 1 and family(e, self.fn):
            o, a = key_of(e.get("obj") or e["f"].get("b"), self.D), key_of(e["a"][0], self.D)
            self.calls.setdefault(family(e, self.fn), []).append((where(self.fn, e), ("same", o, a) in s))
        if k == "mcall" and e.get("fn") == "at" and len(e.get("a", [])) == 1 and e.get("obj") is not None:
            n = key_of(e["obj"], self.D) + " ? " + key_of(e["a"][0], self.D)
            if ("absent", n) in s:
                self.ctx.violate("%s looks up an absent key" % nm(self.fn["qn"]), where(self.fn, e), "%s calls at() with a key it has just found to be absent" % self.fn["qn"])
            elif ("ok", n) in s:
                self.ctx.count("lookups")
                self.ctx.ok("%s: at() of a present key" % nm(self.fn["qn"]))

    def down(self, e, s):
        """a cast to a derived class that nothing tests"""
        src = e["e"] if k_cast(e) else e["a"][0]
        to, fr = pointee(e.get("to") or e.get("t")), pointee((src or {}).get("t"))
        if not to or not fr or last(to) == last(fr) or last(fr) not in self.ancestors(last(to)):
            return
        self.ctx.count("downcasts")
        if self.safe and last(to) == last(self.fn.get("cls")):
            return
        o = key_of(src, self.D)
        if any(f[0] == "same" and o in f[1:] for f in s):
            return
        if key_of(src, self.D) in ("this", "*this"):
            return
        self.ctx.violate("%s casts down without a test" % nm(self.fn["qn"]), where(self.fn, e), "%s turns a %s into a %s on a path where its class is not known" % (self.fn["qn"], last(fr), last(to)))

    def ancestors(self, c):
        out, todo = set(), [c]
        while todo:
            for b in BASES.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def use(self, e, b, s):
        kind = self.risky(b)
        if not kind or (kind == "cast" and self.from_peer(b)):
            return
        n = self.name(b)
        key = (e.get("l"), n)
        if key in self.seen:
            return
        self.seen.add(key)
        self.ctx.count("searches" if kind == "search" else "casts")
        pb = peel(b)
        alt = "v%s" % pb["id"] if pb is not None and pb["k"] == "ref" and pb.get("id") is not None else None
        if ("ok", n) in s or (alt and ("ok", alt) in s):
            self.ctx.ok("%s: %s used after it succeeded" % (nm(self.fn["qn"]), kind))
        else:
            self.ctx.violate("%s uses an unchecked %s" % (nm(self.fn["qn"]), kind), where(self.fn, e), "%s uses the result of a %s on a path where it may have failed" % (self.fn["qn"], kind))


def last(q):
    return re.sub(r"<.*", "", q or "").split("::")[-1]


def k_cast(e):
    return e["k"] == "cast"


def pointee(t):
    t = (t or "").strip()
    m = re.match(r"std::shared_ptr<(.*)>$", t.replace("const std::shared_ptr", "std::shared_ptr").rstrip(" &"))
    if m:
        return m.group(1).replace("const ", "").strip()
    return t.replace("const", "").rstrip("&* ").strip()


BASES = {}


def family(e, fn):
    """(class, method) a member call with one argument is about"""
    if e["k"] == "mcall":
        q = (e.get("qn") or "").split("::")
        return (last("::".join(q[:-1])), e.get("fn")) if len(q) > 1 else None
    f = e.get("f") or {}
    if f.get("k") == "mem" and (f.get("b") or {}).get("k") == "this":
        return (last(fn.get("cls")), f.get("n"))
    return None


class Quiet:
    def violate(self, *a):
        pass

    def ok(self, *a):
        pass

    def count(self, *a):
        pass


def made_as(fn, name, cls):
    """every object this function stores in the member is created as that class"""
    n = 0
    for x in walk(fn["body"]):
        l = r = None
        if x["k"] == "bin" and x["op"] == "=":
            l, r = x["lhs"], x["rhs"]
        elif x["k"] == "opcall" and x.get("op") == "=" and len(x.get("a", [])) == 2:
            l, r = x["a"]
        l = strip(l) if l else None
        if l is None or l["k"] != "mem" or l["n"] != name:
            continue
        n += 1
        if not any(y["k"] == "ctor" and (y.get("cls") or "").split("::")[-1] == cls for y in walk(r)):
            return False
    return n > 0


def run(ctx):
    calls, todo = {}, []
    bases = {}
    for c in ctx.F.classes.values():
        bases.setdefault(last(c["qn"]), set()).update(last(x.get("t") or x.get("qn")) for x in c.get("bases", []))
    BASES.clear()
    BASES.update(bases)
    for f in sorted(ctx.F.functions.values(), key=lambda f: f["usr"]):
        if f.get("body") is None or "/projects/" not in f["file"] or "/test" in f["file"]:
            continue
        ctx.count("functions")
        todo.append(f)
        if any(n["k"] == "typeid" for n in walk(f["body"])):
            Flow(f, Found(f, Quiet(), calls, None)).run()
    known = {u for u, l in calls.items() if all(ok for _, ok in l)}
    # a method reached from anywhere else without that knowledge does not have it
    for f in todo:
        if any(x["k"] == "typeid" for x in walk(f["body"])):
            continue
        for n in walk(f["body"]):
            if n["k"] in ("mcall", "call") and len(n.get("a", [])) == 1:
                known.discard(family(n, f))
    ctx.counts["dispatched"] = len(known)
    for f in todo:
        over, seen, peers = [last(f.get("cls") or "")], set(), False
        while over:
            u = over.pop()
            if u in seen:
                continue
            seen.add(u)
            peers |= (u, f["n"]) in known
            over += bases.get(u, ())
        Flow(f, Found(f, ctx, None, peers)).run()
    ctx.require(ctx.counts.get("casts", 0) > 20, "no casts found")
