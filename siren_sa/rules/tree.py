"""C12: interaction trees stay structurally valid.  C13: particle ids are unique for every interleaving."""
from ..interp import Interp, V, Thrown, TooComplex, walk, union
from ..loops import partial

T = "siren::dataclasses::InteractionTree"
D = "siren::dataclasses::InteractionTreeDatum"
NOPARENT = ("::siren::dataclasses::kNoParent",)
MAX32 = (4294967295, -1)
GROW = ("push_back", "emplace_back")
OTHER = ("insert", "erase", "pop_back", "clear", "resize", "assign", "emplace", "swap", "reserve")


def where(f, l=None):
    return "%s:%s %s" % (f["file"], l or f["l"], f["qn"])


def is_nopar(v):
    return v is not None and (v.path == NOPARENT or v.const in MAX32 or (v.key or ("",))[0] == "call" and "max" in str(v.key[1]))


class Add(Interp):
    """add_entry: N is the number of nodes on entry"""
    def __init__(self, F, parent_ix):
        super().__init__(F, dyn_class=T)
        self.pushes = []          # what went into the tree
        self.links = []           # (whose daughters, what, position)
        self.cleared = {}
        self.odd = []
        self.par = ("p%d" % parent_ix,)
        self.parent = None        # outcome of the null test
        self.made = 0

    @staticmethod
    def deref(b):
        """a pointer variable stands for the object it points to"""
        if b is not None and b.loc is not None and b.path and len(b.path) == 1 and b.path[0].startswith(("p", "new")):
            return b.clone(loc=None)
        return b

    def member(self, b, name, node):
        return super().member(self.deref(b), name, node)

    def write_to(self, base, fields, v, node):
        return super().write_to(self.deref(base) if fields else base, fields, v, node)

    def make_object(self, n, args):
        self.made += 1
        p = ("new%d" % self.made,)
        v = V(p)
        if args:
            self.st.store[p + ("record",)] = args[0].clone(loc=None)
        return v

    def arith(self, op, a, b, n):
        if a.path and a.path[0] == "N" and isinstance(b.const, int) and op in "+-":
            return V(("N", a.path[1] + (b.const if op == "+" else -b.const)))
        if b.path and b.path[0] == "N" and isinstance(a.const, int) and op == "+":
            return V(("N", b.path[1] + a.const))
        return super().arith(op, a, b, n)

    def h_compare(self, op, a, b, n):
        for x, y in ((a, b), (b, a)):
            if x.path == self.par and y.const == ("null",) and op in ("==", "!="):
                r = V(self.par)
                if op == "!=":
                    return r
                q = V(None, key=("not", self.par))
                q.neg = r
                return q
        if a.path and b.path and a.path[0] == b.path[0] == "N":
            x, y = a.path[1], b.path[1]
            return V(None, const={"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        return super().h_compare(op, a, b, n)

    def h_truth(self, v, node):
        if v.path == self.par:
            if self.parent is None:
                self.parent = bool(self.choose(("parent",)))
            return self.parent
        if v.path and v.path[0].startswith(("p", "new")) and len(v.path) == 1:
            return True
        return None

    def h_call(self, n, qn, obj, args):
        name = n.get("fn") or (n.get("f") or {}).get("n") or ""
        if name in ("__assert_fail", "assert"):
            return V(None)
        if obj is None or obj.path is None:
            return None
        if obj.path == ("this", "tree"):
            if name == "size":
                return V(("N", len(self.pushes)))
            if name in GROW and args:
                self.pushes.append(args[0])
                return V(None)
            if name == "back" and self.pushes:
                return self.pushes[-1]
            if name in OTHER and name != "reserve":
                self.odd.append(("the node list is changed by %s" % name, n.get("l")))
        if obj.path[-1] == "daughter_indices" and len(obj.path) == 2:
            who = obj.path[0]
            if name in GROW and args:
                self.links.append((who, args[0]))
                return V(None)
            if name == "clear":
                self.links = [x for x in self.links if x[0] != who]
                self.cleared[who] = True
                return V(None)
            if name in OTHER and name != "reserve":
                self.odd.append(("daughter list changed by %s" % name, n.get("l")))
        return None

    def h_write(self, path, v, node):
        if path[-1] == "daughter_indices" and len(path) == 2:
            self.links = [x for x in self.links if x[0] != path[0]]
            if v.path is None and not v.deps:
                self.cleared[path[0]] = True
            else:
                self.odd.append(("daughter list of %s replaced" % path[0], node.get("l")))
        if path == ("this", "tree"):
            self.odd.append(("the node list is replaced", node.get("l")))


def add_entries(ctx, F):
    fs = [f for f in F.by_cls.get(T, []) if f.get("body") is not None and not f.get("const") and f.get("acc") == "public" and not f.get("ctor")
          and f["n"] not in ("load", "save", "operator=") and len(f["params"]) == 2 and D in f["params"][1]["t"]]
    ctx.require(len(fs) >= 1, "no function that adds a node with a parent was found")
    for f in fs:
        bad = None
        ctx.count("functions")

        def go(it):
            try:
                r = it.call_function(f, V(("this",), cls=T), [V(("p0",)), V(("p1",))])
            except Thrown:
                return None
            return it, r
        kinds = set()
        for res in Add.explore(lambda: Add(F, 1), go):
            if res is None:
                continue
            it, r = res
            ctx.count("paths")
            kinds.add(it.parent)
            bad = bad or judge_add(it, r, f)
        if None in kinds and not bad:
            bad = "never looks whether there is a parent"
        if bad is None and kinds >= {True, False} or bad is None and kinds == {True, False}:
            ctx.ok("%s(%s): links node and parent consistently on every path" % (f["qn"], f["params"][0]["t"]))
        elif bad is None:
            ctx.violate("%s(%s) cases" % (f["qn"], f["params"][0]["t"]), where(f), "only one of the cases with and without parent is accepted")
        else:
            ctx.violate("%s(%s)" % (f["qn"], f["params"][0]["t"]), where(f), bad)


def judge_add(it, r, f):
    if it.odd:
        return "%s (line %s)" % it.odd[0]
    if len(it.pushes) != 1:
        return "adds %d nodes to the tree on some path" % len(it.pushes)
    d = it.pushes[0]
    if d.path is None or len(d.path) != 1:
        return "what is added is not the given node"
    who = d.path[0]
    byval = not f["params"][0]["t"].startswith("std::shared_ptr") and "shared_ptr" not in f["params"][0]["t"]
    if (who != "p0") if not byval else not who.startswith("new"):
        return "what is added is not the given node"
    st = it.st.store
    if byval:
        rec = st.get((who, "record"))
        if rec is None or any(x[0] != "p0" for x in rec.deps) or not rec.deps:
            return "the added node does not hold the given record"
    nid = st.get((who, "node_id"))
    if nid is None or nid.path != ("N", 0):
        return "node_id of the added node is not its position"
    par = st.get((who, "parent_index"))
    mine = [x for x in it.links if x[0] == who]
    if mine or not it.cleared.get(who):
        return "the added node keeps daughters it does not have in this tree"
    theirs = [x[1] for x in it.links if x[0] == "p1"]
    if it.parent is False or it.parent is None:
        if not is_nopar(par):
            return "a node without parent does not get the no-parent mark"
        if theirs:
            return "a parent that may be null is linked to"
    if it.parent:
        if par is None or par.path != ("p1", "node_id"):
            return "parent_index is not the parent's node_id"
        if len(theirs) != 1 or theirs[0].path != ("N", 0):
            return "the parent's daughter list does not get exactly the new node's id"
        if it.st.store.get(("p1", "node_id")) is not None or it.st.store.get(("p1", "parent_index")) is not None:
            return "the parent's own place in the tree is changed"
    if r is None or r.path != (who,):
        return "does not hand back the node that was added"
    return None


# ---- validation ----------------------------------------------------------
WORLDS = ("null", "position", "parent_range", "parent_null", "daughter_range", "daughter_null")


class Val(Interp):
    def __init__(self, F, world):
        super().__init__(F, dyn_class=T)
        self.world = world
        self.loops = []

    def what(self, v):
        p = v.path
        if v.key is not None and v.key[0] == "loopvar":
            return "i"
        if p is None:
            return "no" if is_nopar(v) else None
        if p == NOPARENT:
            return "no"
        if p == ("this", "tree", "#size"):
            return "n"
        if p[-1] == "node_id":
            return "id"
        if p[-1] == "parent_index":
            return "parent"
        if len(p) > 2 and p[-2] == "daughter_indices":
            return "d"
        if p[:2] == ("this", "tree") and len(p) == 3:
            return "node" + ("" if p[2] == "[]" else p[2])
        return None

    def index(self, b, i, n):
        if b.path == ("this", "tree"):
            k = self.what(i)
            return V(("this", "tree", {"i": "[]", "parent": "[parent]", "d": "[d]", "id": "[]"}.get(k, "[]")))
        return super().index(b, i, n)

    def h_compare(self, op, a, b, n):
        x, y = self.what(a), self.what(b)
        for p, q in ((a, b), (b, a)):
            if q.const == ("null",) and p.path and self.what(p) and self.what(p).startswith("node") and op in ("==", "!="):
                t = self.node_truth(self.what(p))
                return V(None, const=t == (op == "!="))
        rel = self.relation(x, y)
        if rel is None:
            r = self.relation(y, x)
            rel = {"<": ">", ">": "<", "=": "=", ">=": "<=", "!": "!"}.get(r) if r else None
        if rel is None:
            return super().h_compare(op, a, b, n)
        if rel == ">=":
            rel = (">", "=")[self.choose(("ge", x, y))]
        if rel == "<=":
            rel = ("<", "=")[self.choose(("le", x, y))]
        if rel == "!":
            rel = ("<", ">")[self.choose(("ne", x, y))]
        return V(None, const={"==": rel == "=", "!=": rel != "=", "<": rel == "<", ">": rel == ">", "<=": rel in "<=", ">=": rel in ">="}[op])

    def relation(self, x, y):
        w = self.world
        if (x, y) == ("id", "i"):
            return "!" if w == "position" else "="
        if (x, y) == ("parent", "no"):
            if w in ("parent_range", "parent_null"):
                return "<"
            return ("<", "=")[self.choose(("hasparent",))]
        if (x, y) == ("parent", "n"):
            return ">=" if w == "parent_range" else "<"
        if (x, y) == ("d", "n"):
            return ">=" if w == "daughter_range" else "<"
        if (x, y) == ("parent", "i"):
            return ">" if w == "parent_range" else "<"
        if (x, y) == ("d", "i"):
            return ">"
        if (x, y) in (("i", "n"), ("id", "n")):
            return "<"
        return None

    def node_truth(self, k):
        if k == "node[parent]":
            return self.world != "parent_null"
        if k == "node[d]":
            return self.world != "daughter_null"
        return self.world != "null"

    def h_truth(self, v, node):
        k = self.what(v)
        if k and k.startswith("node"):
            return self.node_truth(k)
        if v.path and v.path[-1] == "#empty":
            return False
        return None

    def exec(self, n):
        if n is not None and n["k"] == "for" and self.frames:
            self.loops.append((self.frames[-1].fn, n))
        return super().exec(n)


def validators(ctx, F):
    good = {}
    partials = {}
    for f in F.by_cls.get(T, []):
        if f.get("body") is None or f["params"] or f.get("static") or f.get("ctor") or f.get("dtor"):
            continue
        if not any(n["k"] == "throw" for n in walk(f["body"])) and not any(n.get("usr") in good for n in walk(f["body"])):
            pass
        res = {}
        ok = True
        for w in ("good",) + WORLDS:
            def go(it):
                try:
                    it.call_function(f, V(("this",), cls=T), [])
                except Thrown:
                    return "throws", it
                return "returns", it
            try:
                rs = Val.explore(lambda: Val(F, w), go, limit=512)
            except TooComplex:
                ok = False
                break
            outs = {r[0] for r in rs}
            res[w] = outs
            for _, it in rs:
                for fn, n in it.loops:
                    p = partial(n, fn)
                    if p:
                        partials[f["usr"]] = "%s:%s the loop %s" % (fn["file"], n["l"], p)
        if not ok:
            continue
        if "throws" in res.get("null", ()) or "throws" in res.get("position", ()):
            good[f["usr"]] = (f, res)
    return good, partials


def run_tree(ctx):
    F = ctx.F
    ctx.require(T in F.classes, "InteractionTree was not found")
    add_entries(ctx, F)
    cand, partials = validators(ctx, F)
    full = {}
    best = None
    for u, (f, res) in cand.items():
        miss = [w for w in WORLDS if res[w] != {"throws"}]
        if res["good"] != {"returns"}:
            miss.append("accepts valid trees")
        if u in partials:
            miss.append(partials[u])
        if not miss:
            full[u] = f
        elif best is None or len(miss) < len(best[1]):
            best = (f, miss)
    ctx.count("validators", len(full))
    if not full:
        ctx.violate("InteractionTree validation", where(best[0]) if best else T,
                    "no member function rejects every broken tree (null node, wrong position, parent or daughter out of range)%s" %
                    (": %s fails on %s" % (best[0]["qn"], ", ".join(best[1])) if best else ""))
    else:
        for f in full.values():
            for w in WORLDS:
                ctx.ok("%s rejects: %s" % (f["qn"], w))
    readers(ctx, F, full)
    legacy(ctx, F)
    writers(ctx, F)
    depth(ctx, F)
    ctx.require(ctx.counts.get("readers", 0) >= 2, "the tree's readers were not found")


class Load(Interp):
    def __init__(self, F, version, full):
        super().__init__(F, dyn_class=T)
        self.version = version
        self.full = full
        self.ev_ = []

    def should_inline(self, fn, obj, args, node):
        return fn["usr"] not in self.full

    def h_call(self, n, qn, obj, args):
        u = n.get("usr")
        cands = (n.get("f") or {}).get("cands") or []
        if u in self.full or any(c in self.full for c in cands):
            self.ev_.append("valid")
            return V(None)
        if n["k"] in ("opcall", "call") and any(a is not None and a.path == ("this", "tree") for a in self.flat(args)):
            self.ev_.append("read")
        return None

    def h_write(self, path, v, node):
        if path[0] == "this" and path[-1] in ("node_id", "parent_index") or "daughter_indices" in path and path[0] == "this":
            self.ev_.append("index")

    def flat(self, args):
        for a in args:
            if a is None:
                continue
            yield a
            if a.elems:
                yield from self.flat(a.elems)


def readers(ctx, F, full):
    for f in F.by_cls.get(T, []):
        if f["n"] not in ("load", "serialize", "load_and_construct") or f.get("body") is None:
            continue
        for ver in (0, 1, 2):
            def go(it):
                try:
                    it.call_function(f, V(("this",), cls=T), [V(("ar",)), V(None, const=ver)])
                except Thrown:
                    return None
                return it.ev_
            for ev in Load.explore(lambda: Load(F, ver, full), go):
                if ev is None:
                    continue
                ctx.count("readers")
                last = max([i for i, e in enumerate(ev) if e in ("read", "index")], default=-1)
                if "read" not in ev and "index" not in ev and "valid" not in ev:
                    continue
                if "valid" not in ev[last + 1:]:
                    if full:
                        ctx.violate("%s version %d" % (f["qn"], ver), where(f), "a tree read from a version %d archive is handed out without being checked" % ver)
                else:
                    ctx.ok("%s: version %d archives are checked after reading" % (f["qn"], ver))


# ---- legacy edges ----------------------------------------------------------
class Leg(Interp):
    def __init__(self, F):
        super().__init__(F, dyn_class=T)
        self.w = []
        self.zero = None

    def h_compare(self, op, a, b, node):
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            # the position found for a legacy edge set against zero: the first node is a node like the others
            if (o, y.const) in ((">", 0), ("<=", 0), (">=", 1), ("<", 1)) and not isinstance(y.const, bool) and x.const is None \
                    and "legacy" in str(sorted(x.deps)) and not (x.key and "size" in str(x.key)):
                self.zero = node.get("l")
        return super().h_compare(op, a, b, node)

    def should_inline(self, fn, obj, args, node):
        return not (fn.get("const") and fn["ret"] == "void") if "ret" in fn else True

    def h_write(self, path, v, node):
        self.w.append((path, v))

    def h_call(self, n, qn, obj, args):
        name = n.get("fn") or ""
        if obj is not None and obj.path and name in ("clear", "reset") and obj.path[-1].startswith(("legacy", "daughter")):
            self.w.append((obj.path, V(None, const=("null",))))
        return None


def legacy(ctx, F):
    fs = [f for f in F.by_cls.get(T, []) if f.get("body") is not None and any(n["k"] == "mem" and n["n"] == "legacy_parent" for n in walk(f["body"]))]
    for f in fs:
        ctx.count("functions")
        seen = {"id": 0, "parent": set(), "dau": 0, "cleared": [0, 0]}
        bad = None

        def go(it):
            try:
                it.call_function(f, V(("this",), cls=T), [])
            except Thrown:
                return None
            return it
        for n in walk(f["body"]):
            if n["k"] == "for":
                p = partial(n, f)
                if p:
                    bad = "line %s: the loop %s" % (n["l"], p)
        for it in Leg.explore(lambda: Leg(F), go, limit=512):
            if it is None:
                continue
            fin = {}
            dau = []
            for p, v in it.w:
                if p[0] != "this":
                    continue
                if p[-1] == "[]" and len(p) > 1 and p[-2] == "daughter_indices":
                    dau.append(v)
                    if "legacy" not in str(sorted(v.deps)) and "legacy" not in str(v.key):
                        bad = bad or "daughter_indices are not derived from the legacy daughters"
                    elif "legacy_parent" in str(sorted(v.deps)):
                        bad = bad or "daughter_indices are derived from the legacy parent"
                    continue
                fin.setdefault(p[-1], []).append(v)
            if not fin:
                continue
            seen["paths"] = 1
            if it.zero:
                bad = bad or "line %s: a daughter of the first node is told apart from one of any other node" % it.zero
            if "node_id" not in fin or any((v.key or ("",))[0] != "loopvar" for v in fin["node_id"]):
                bad = bad or "node_id is not set to the position"
            for v in fin.get("parent_index", []):
                if not is_nopar(v) and "legacy_parent" not in str(sorted(v.deps)):
                    bad = bad or "parent_index is not derived from the legacy parent"
                seen["parent"].add(is_nopar(v))
            if "parent_index" not in fin:
                bad = bad or "parent_index is not set on some path"
            for m in ("legacy_parent", "legacy_daughters"):
                if m not in fin or fin[m][-1].const != ("null",) and fin[m][-1].deps:
                    bad = bad or "%s is kept: the pointer cycle leaks" % m
        if bad is None and seen["parent"] != {True, False}:
            bad = "parent_index does not distinguish nodes with and without parent"
        if bad:
            ctx.violate("%s" % f["qn"], where(f), bad)
        else:
            ctx.ok("%s derives positions, parents and daughters from the legacy edges and drops those" % f["qn"])


STRUCT = ("node_id", "parent_index", "daughter_indices")


def writers(ctx, F):
    """nobody else changes the links"""
    for f in F.functions.values():
        if f.get("body") is None or "/test/" in f["file"] or f.get("cls") in (T, D):
            continue
        for n in walk(f["body"]):
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = n["lhs"]
            elif n["k"] == "opcall" and n["op"] == "=":
                t = n["a"][0]
            elif n["k"] == "mcall" and n.get("fn") in GROW + ("insert", "erase", "clear", "resize", "pop_back", "swap", "assign", "emplace"):
                t = n.get("obj")
            while t is not None and (t["k"] == "idx" or t["k"] == "opcall" and t["op"] in ("[]", "*", "->")):
                t = t["b"] if t["k"] == "idx" else t["a"][0]
            if t is not None and t["k"] == "mem" and (t["n"] in STRUCT and D in (t.get("cls") or t.get("qn") or "") or t["n"] == "tree" and T in (t.get("cls") or t.get("qn") or "")):
                ctx.violate("%s writes %s" % (f["qn"], t["n"]), where(f, n.get("l")), "changes the links of an interaction tree from outside it")
        ctx.count("functions_scanned")


# ---- depth -------------------------------------------------------------------
class Depth(Interp):
    def __init__(self, F, k, over):
        super().__init__(F, dyn_class=D)
        self.k = k            # number of ancestors
        self.over = over      # the counter exceeds the tree's size at the last step
        self.at = 0
        self.steps_ = 0

    def widen(self, n, parts):
        pass

    def what(self, v):
        if v.path and v.path[-1] == "parent_index":
            return "p"
        if is_nopar(v):
            return "no"
        if v.path and v.path[-1] == "#size":
            return "n"
        return None

    def h_compare(self, op, a, b, n):
        x, y = self.what(a), self.what(b)
        if {x, y} == {"p", "no"} and op in ("==", "!="):
            p = a if x == "p" else b
            lvl = sum(1 for q in p.path if q == "parent_index")
            return V(None, const=(lvl > self.k) == (op == "=="))
        if "n" in (x, y):
            c = b if x == "n" else a
            if isinstance(c.const, int):
                size = self.k - 1 if self.over else self.k + 1
                l, r = (size, c.const) if x == "n" else (c.const, size)
                return V(None, const={"==": l == r, "!=": l != r, "<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[op])
        return super().h_compare(op, a, b, n)

    def index(self, b, i, n):
        if b.path and b.path[-1] == "tree" and i.path and i.path[-1] == "parent_index":
            return V(i.path + ("node",))
        return super().index(b, i, n)

    def e_un(self, n):
        if n["op"] in ("++", "--"):
            v = self.ev(n["e"])
            if isinstance(v.const, int):
                self.assign(n["e"], V(None, const=v.const + (1 if n["op"] == "++" else -1)), n)
                return V(None, const=v.const + (1 if n["op"] == "++" else -1)) if not n.get("post") else v
        return super().e_un(n)

    def e_bin(self, n):
        if n["op"] in ("+=", "-="):
            a, b = self.ev(n["lhs"]), self.ev(n["rhs"])
            if isinstance(a.const, int) and isinstance(b.const, int):
                v = V(None, const=a.const + (b.const if n["op"] == "+=" else -b.const))
                self.assign(n["lhs"], v, n)
                return v
        return super().e_bin(n)

    def rounds(self, n, first=True):
        g = 0
        while True:
            if n.get("cond") and not (n["k"] == "do" and g == 0) and not self.truth(self.ev(n["cond"]), n["cond"]):
                return
            g += 1
            if g > self.k + 3:
                raise TooComplex("the walk does not end")
            if not self.loop_body(n, n.get("body"), n.get("inc")):
                return

    def x_while(self, n):
        self.rounds(n)

    def x_do(self, n):
        self.rounds(n)

    def x_for(self, n):
        self.exec(n.get("init"))
        self.rounds(n)


def depth(ctx, F):
    fs = [f for f in F.by_cls.get(D, []) if f["n"] == "depth" and f.get("body") is not None]
    ctx.require(fs, "InteractionTreeDatum::depth was not found")
    for f in fs:
        bad = None
        for k in range(0, 6):
            for over in ((False, True) if k >= 2 else (False,)):
                def go(it):
                    try:
                        return it.call_function(f, V(("this",), cls=D), [V(("owner",))])
                    except Thrown:
                        return "throws"
                try:
                    rs = Depth.explore(lambda: Depth(F, k, over), go, limit=64)
                except TooComplex:
                    bad = bad or "the walk to the root does not end after %d steps" % k
                    continue
                for r in rs:
                    if over and r != "throws":
                        bad = bad or "a parent chain longer than the tree is followed without an error"
                    elif not over and (r == "throws" or r.const != k):
                        bad = bad or "a node with %d ancestors gets depth %s" % (k, "(exception)" if r == "throws" else r.const)
                ctx.count("depth_cases")
        if bad:
            ctx.violate(f["qn"], where(f), bad)
        else:
            ctx.ok("%s counts the ancestors and stops on cycles" % f["qn"])
