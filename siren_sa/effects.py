"""May-write summaries: which members of the object, which parameters and which
globals a function can change, directly or through what it calls."""
from .interp import walk

READERS = {"begin", "end", "rbegin", "rend", "find", "at", "front", "back", "data", "get", "size", "empty", "count",
           "lower_bound", "upper_bound", "equal_range", "c_str", "operator*", "operator->", "operator[]", "value", "first", "second",
           "cbegin", "cend", "length", "str", "lock", "unlock", "ptr", "operator bool"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "|=", "&=", "^="}
ALL = "*"


def root_of(n, alias):
    """(root, member) an lvalue expression designates; root 'this' | ('p', id) | ('g', qn) | None"""
    path = []
    while n is not None:
        k = n.get("k")
        if k == "mem":
            path.append(n["n"])
            n = n.get("b")
            if n is None:
                return None
        elif k == "this":
            return ("this", path[-1] if path else ALL)
        elif k == "ref":
            if n.get("dk") in ("p", "v"):
                i = n.get("id")
                if i in alias:
                    r = alias[i]
                    if r is not None and r[1] == ALL and path:
                        return (r[0], path[-1])
                    return r
                if n.get("dk") == "p":
                    return (("p", i), path[-1] if path else ALL)
                return None
            if n.get("dk") in ("g", "s", "m"):
                return (("g", n.get("qn") or n.get("n")), ALL)
            return None
        elif k == "idx":
            n = n.get("b")
        elif k == "opcall" and n["op"] in ("[]", "*", "->") and n.get("a"):
            n = n["a"][0]
        elif k == "un" and n["op"] in ("*", "&"):
            n = n["e"]
        elif k in ("cast",):
            n = n["e"]
        elif k == "mcall" and n.get("fn") in READERS:
            n = n.get("obj")
        elif k == "call" and n.get("fn") in ("get", "move", "forward", "dynamic_pointer_cast", "static_pointer_cast", "ref", "addressof") and n.get("a"):
            n = n["a"][0]
        elif k == "cond":
            n = n.get("then")
        else:
            return None
    return None


def aliases(fn):
    """reference/pointer/iterator locals that designate part of a root object"""
    al = {}
    for p in fn.get("params", []):
        t = p["t"]
        if not (t.endswith("&") or t.endswith("*") or "shared_ptr" in t or "unique_ptr" in t):
            al[p["id"]] = None          # by value: writes stay inside
    for _ in range(2):
        for d in walk(fn.get("body")):
            vs = []
            if d["k"] == "decl":
                vs = [(v, v.get("init")) for v in d["vars"]]
            elif d["k"] == "range" and d.get("var"):
                vs = [(d["var"], d.get("range"))]
            for v, init in vs:
                t = v.get("t", "")
                ref = t.endswith("&") or t.endswith("*") or "iterator" in t or "shared_ptr" in t
                if ref and init is not None and not (t.startswith("const ") and t.endswith("&")):
                    e = init
                    if e.get("k") == "ctor" and e.get("a"):
                        e = e["a"][0]
                    r = root_of(e, al)
                    if v["id"] not in al or r is not None:
                        al[v["id"]] = r
                    for b in v.get("bindings", []):
                        al[b["id"]] = r
                else:
                    al.setdefault(v["id"], None)
                    for b in v.get("bindings", []):
                        al.setdefault(b["id"], None)
    return al


class Effects:
    def __init__(self, F, resolve_virtual=None):
        self.F = F
        self.memo = {}
        self.busy = set()
        self.resolve_virtual = resolve_virtual

    def of(self, fn):
        u = fn["usr"]
        if u in self.memo:
            return self.memo[u]
        if u in self.busy:
            return {}
        self.busy.add(u)
        out = {}
        al = aliases(fn)
        pidx = {p["id"]: i for i, p in enumerate(fn.get("params", []))}

        def rec(r, l):
            if r is None:
                return
            root, mem = r
            if isinstance(root, tuple) and root[0] == "p":
                root = ("p", pidx.get(root[1], -1))
            out.setdefault((root, mem), (fn, l))

        for i in fn.get("inits", []):
            if "m" in i and not i.get("w"):
                continue
            if "m" in i:
                out.setdefault(("this", i["m"]), (fn, i.get("l")))
            elif i.get("e") and i["e"].get("k") == "ctor":
                g = self.F.functions.get(i["e"].get("usr"))
                if g is not None:
                    for (root, mem), w in self.of(g).items():
                        if root == "this":
                            out.setdefault((root, mem), w)
                elif "base" in i:
                    for f in self.F.fields(i["e"].get("cls", ""), True):
                        out.setdefault(("this", f["n"]), (fn, i.get("l")))
        for n in list(walk(fn.get("body"))) + [x for i in fn.get("inits", []) for x in walk(i.get("e"))]:
            k = n["k"]
            if k == "bin" and n["op"] in ASSIGN:
                rec(root_of(n["lhs"], al), n.get("l"))
            elif k == "opcall" and n["op"] in ASSIGN and n.get("a"):
                rec(root_of(n["a"][0], al), n.get("l"))
                if n["a"][0]["k"] == "call":
                    for x in n["a"][0].get("a", []):
                        rec(root_of(x, al), n.get("l"))
            elif k == "opcall" and n["op"] in (">>",) and len(n.get("a", [])) == 2:
                rec(root_of(n["a"][1], al), n.get("l"))
            elif k == "un" and n["op"] in ("++", "--"):
                rec(root_of(n["e"], al), n.get("l"))
            elif k == "opcall" and n["op"] in ("++", "--"):
                rec(root_of(n["a"][0], al), n.get("l"))
            if k in ("mcall", "call", "opcall", "ctor"):
                self.call(n, fn, al, rec, out)
        self.busy.discard(u)
        self.memo[u] = out
        return out

    def targets(self, n, fn):
        g = self.F.functions.get(n.get("usr"))
        if n.get("virt") and not n.get("nonvirt") and self.resolve_virtual:
            return self.resolve_virtual(n, fn, g)
        if g is None:
            f = n.get("f") or {}
            c = f.get("cands") or []
            if len(c) == 1:
                g = self.F.functions.get(c[0])
        return [g] if g is not None else []

    def call(self, n, fn, al, rec, out):
        k = n["k"]
        obj = n.get("obj")
        args = n.get("a", [])
        if k == "opcall" and n.get("usr"):
            g = self.F.functions.get(n["usr"])
            if g is not None and g.get("cls") and not g.get("static"):
                obj, args = args[0], args[1:]
        ts = self.targets(n, fn)
        if ts:
            for g in ts:
                for (root, mem), w in self.of(g).items():
                    if root == "this":
                        if k == "ctor":
                            continue
                        if obj is not None:
                            r = root_of(obj, al)
                            if r is not None:
                                rec((r[0], mem if r[1] == ALL else r[1]), n.get("l"))
                        elif k == "call" and g.get("cls") and not g.get("static") or (k == "mcall" and obj is None):
                            out.setdefault(("this", mem), w)
                    elif isinstance(root, tuple) and root[0] == "p":
                        i = root[1]
                        if 0 <= i < len(args):
                            r = root_of(args[i], al)
                            if r is not None:
                                rec((r[0], mem if r[1] == ALL else r[1]), n.get("l"))
                    else:
                        out.setdefault((root, mem), w)
            return
        name = n.get("fn") or (n.get("f") or {}).get("n") or ""
        if k == "mcall" and not n.get("cm") and name not in READERS and obj is not None:
            rec(root_of(obj, al), n.get("l"))
        if k == "call" and (n.get("f") or {}).get("k") == "mem":
            f = n["f"]
            if f["n"] not in READERS and f.get("dk") in ("d", "u") and f.get("b") is not None:
                rec(root_of(f["b"], al), n.get("l"))
        if name in ("tie", "make_nvp", "forward_as_tuple", "cref", "make_tuple"):
            return
        for i, w in enumerate(n.get("wr") or []):
            if w and i < len(args):
                rec(root_of(args[i], al), n.get("l"))
