"""C13: particle ids are unique for every interleaving of threads and across forks."""
from ..interp import Interp, V, Thrown, TooComplex, walk, union

P = "siren::dataclasses::ParticleID"
LOCKS = ("lock_guard", "unique_lock", "scoped_lock")
RMW = {"fetch_add": 1, "fetch_sub": -1, "operator++": 1, "exchange": None, "compare_exchange_strong": None, "compare_exchange_weak": None}


def where(f, l=None):
    return "%s:%s %s" % (f["file"], l or f["l"], f["qn"])


class Gen(Interp):
    MAXSTEPS = 20000

    def __init__(self, F, atoms):
        super().__init__(F, dyn_class=P)
        self.atoms = atoms
        self.held = 0
        self.version = 0
        self.trace = []

    def sync(self):
        self.version += 1

    def atom(self, v):
        if v is not None and v.path and len(v.path) == 1 and v.path[0] in self.atoms:
            return v.path[0]
        return None

    def x_block(self, n):
        h = self.held
        try:
            super().x_block(n)
        finally:
            self.held = h

    def declare(self, v):
        if any(l in v["t"] for l in LOCKS):
            self.held += 1
            self.sync()
            self.trace.append(("lock", self.version))
        super().declare(v)

    def fresh(self, g):
        return V((g, "v%d" % self.version))

    def h_call(self, n, qn, obj, args):
        name = n.get("fn") or (n.get("f") or {}).get("n") or ""
        if name == "getpid":
            return V(("pid",))
        if name in ("lock", "unlock") and obj is not None and obj.path and "mutex" in str(n.get("qn")):
            self.held += 1 if name == "lock" else -1
            self.sync()
            self.trace.append((name, self.version))
            return V(None)
        g = self.atom(obj)
        ops = args
        if g is None and n["k"] == "opcall" and args:
            g = self.atom(args[0])
            ops = args[1:]
            name = "operator" + n["op"]
        if g is None:
            return None
        if name in ("load",) or name.startswith("operator ") or name.startswith("operator int") or name == "operator __integral_type":
            v = self.fresh(g)
            self.trace.append(("load", g, self.version, n.get("l")))
            return v
        if name in ("store", "operator="):
            v = ops[0] if ops else V(None)
            self.sync()
            self.trace.append(("store", g, v, self.held > 0, n.get("l"), n))
            return v
        if name in RMW or name in ("operator++", "operator--", "operator+="):
            step = RMW.get(name)
            if name in ("fetch_add", "fetch_sub", "operator+="):
                step = ops[0].const if ops and isinstance(ops[0].const, int) else None
            elif name == "operator--":
                step = -1
            self.sync()
            v = V(("rmw", g, self.version))
            self.trace.append(("rmw", g, step, n.get("l"), v.path))
            return v
        return None

    def e_opcall(self, n):
        # assignments of atomics are stores, not copies
        if n["op"] in ("=", "++", "--", "+=", "-=") and n.get("a"):
            a = n["a"][0]
            if a["k"] == "ref" and a.get("dk") == "g" and "::" + (a.get("qn") or a["n"]) in self.atoms:
                args = [V(("::" + (a.get("qn") or a["n"]),))] + [self.ev(x) for x in n["a"][1:]]
                return self.h_call(n, n["op"], None, args)
        return super().e_opcall(n)

    def e_ref(self, n):
        return super().e_ref(n)

    def h_compare(self, op, a, b, n):
        self.trace.append(("cmp", op, self.val(a), self.val(b), n.get("l")))
        r = super().h_compare(op, a, b, n)
        r.key = ("cmp", op, self.val(a), self.val(b))
        return r

    def truth(self, v, node):
        t = super().truth(v, node)
        if v.key and v.key[0] == "cmp":
            self.trace.append(("took", v.key, t))
        elif v.path and v.path[0] in self.atoms:
            self.trace.append(("took", ("cmp", "!=", v.path, ("c", 0)), t))
        elif v.neg is not None and v.neg.path and v.neg.path[0] in self.atoms:
            self.trace.append(("took", ("cmp", "==", v.neg.path, ("c", 0)), t))
        return t

    def val(self, v):
        if v.const is not None:
            return ("c", v.const)
        return v.path or v.key or ("?",)


def slice_calls(fn, e, F, seen=None, depth=0):
    """names of functions the value of e depends on, through locals and streams"""
    seen = set() if seen is None else seen
    out = set()
    defs = {}
    for n in walk(fn["body"]):
        if n["k"] == "decl":
            for v in n["vars"]:
                if v.get("init") is not None:
                    defs.setdefault(v["id"], []).append(v["init"])
        elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["lhs"]["k"] == "ref":
            defs.setdefault(n["lhs"].get("id"), []).append(n["rhs"])
        elif n["k"] == "opcall" and n["op"] in ("<<", "+=", "="):
            base = n
            parts = []
            while base["k"] == "opcall" and base["op"] in ("<<", "+=", "=") and len(base["a"]) == 2:
                parts.append(base["a"][1])
                base = base["a"][0]
            if base["k"] == "ref" and "id" in base:
                defs.setdefault(base["id"], []).extend(parts)
    for n in walk(e):
        if n["k"] in ("call", "mcall") and (n.get("fn") or n.get("f")):
            out.add(n.get("fn") or n["f"].get("n"))
            g = F.functions.get(n.get("usr"))
            if g is not None and g.get("body") is not None and depth < 4 and g["usr"] not in seen:
                seen.add(g["usr"])
                for m in walk(g["body"]):
                    if m["k"] == "return" and m.get("v"):
                        out |= slice_calls(g, m["v"], F, seen, depth + 1)
        if n["k"] == "ref" and "id" in n and (fn["usr"], n["id"]) not in seen:
            seen.add((fn["usr"], n["id"]))
            for d in defs.get(n["id"], []):
                out |= slice_calls(fn, d, F, seen, depth)
            if n.get("dk") == "p":
                out.add("param:" + n["n"])
    return out


def run(ctx):
    F = ctx.F
    fs = [f for f in F.by_cls.get(P, []) if f.get("static") and P in f.get("ret", f.get("t", P)) and f.get("body") is not None and not f["params"]
          and any(n["k"] in ("mcall", "opcall", "call") for n in walk(f["body"]))]
    ctx.require(fs, "the function that makes particle ids was not found")
    gen = [f for f in fs if f["n"] == "GenerateID"] or fs
    f = gen[0]
    atoms = set()
    for g in F.functions.values():
        if g.get("body") is None or g["file"] != f["file"]:
            continue
        for n in walk(g["body"]):
            if n["k"] == "ref" and n.get("dk") in ("g", "s", "m") and "atomic<" in (n.get("t") or ""):
                atoms.add("::" + (n.get("qn") or n["n"]))
    shared_plain(ctx, F, f)
    if not atoms:
        ctx.violate("%s state" % f["qn"], where(f), "the id state shared by all threads is not atomic")
        return
    ctx.count("shared_atomics", len(atoms))

    def go(it):
        try:
            r = it.call_function(f, None, [])
        except Thrown:
            return None
        return it, r
    res = [x for x in Gen.explore(lambda: Gen(F, atoms), go, limit=2000) if x is not None]
    ctx.count("paths", len(res))
    bad = {}

    def report(key, l, msg):
        bad.setdefault(key, (l, msg))
    pidg = None
    majors, minors = set(), set()
    for it, r in res:
        for e in it.trace:
            if e[0] == "cmp" and ("pid",) in (e[2], e[3]):
                o = e[3] if e[2] == ("pid",) else e[2]
                if o[0] in atoms:
                    pidg = o[0]
    if pidg is None:
        report("fork", f["l"], "never compares the process with the one the ids belong to: a forked process repeats its parent's ids")
    for it, r in res:
        tr = it.trace
        fields = {}
        for m in ("id_set", "major_id", "minor_id"):
            v = it.member(r, m, {}) if r is not None else None
            fields[m] = v
        if fields["id_set"] is None or fields["id_set"].const is not True:
            report("id_set", f["l"], "an id is handed out that is not marked as set")
        ma, mi = fields["major_id"], fields["minor_id"]
        rm = [e for e in tr if e[0] == "rmw"]
        hit = [e for e in rm if mi is not None and mi.path == e[4]]
        if not hit:
            report("minor", f["l"], "the minor id is not taken by one atomic read-modify-write: two threads can get the same one")
        else:
            if not hit[0][2]:
                report("minor-step", hit[0][3], "the counter is not moved on by a fixed nonzero step")
            if len([e for e in rm if e[1] == hit[0][1]]) != 1:
                report("minor-twice", hit[0][3], "the counter is taken more than once for one id")
            minors.add(hit[0][1])
        if ma is None or not ma.path or ma.path[0] not in atoms:
            report("major", f["l"], "the major id does not come from the shared state")
            mg = None
        else:
            mg = ma.path[0]
            majors.add(mg)
            ver = int(ma.path[1][1:])
            late = [e for e in tr if e[0] == "store" and e[1] == mg]
            stale = False
            v = 0
            for e in tr:
                if e[0] in ("lock", "unlock"):
                    v = e[1]
                elif e[0] == "store":
                    v += 1
                    if e[1] == mg and v > ver:
                        stale = True
                elif e[0] == "rmw":
                    v += 1
            if stale:
                report("major-stale", f["l"], "the major id handed out was read before it was (re)initialised")
            zero = [e for e in tr if e[0] == "cmp" and ("c", 0) in (e[2], e[3]) and (e[2][0] == mg or e[3][0] == mg)] or \
                   [e for e in tr if e[0] == "took" and e[1][2][0] == mg]
            if not zero:
                report("major-zero", f["l"], "ids can be handed out before the major id was initialised")
        # stores
        locked = None
        for i, e in enumerate(tr):
            if e[0] == "lock":
                locked = i
            if e[0] != "store":
                continue
            if not e[3]:
                report("store-unlocked %s" % e[1], e[4], "%s is stored without holding the lock" % e[1].split("::")[-1])
                continue
            lv = tr[locked][1] if locked is not None else 0
            tested = [t for t in tr[locked or 0:i] if t[0] == "took" and any(isinstance(x, tuple) and len(x) == 2 and x[0] in atoms and isinstance(x[1], str)
                      and int(x[1][1:]) >= lv for x in t[1][2:4])]
            if not tested:
                report("recheck %s" % e[1], e[4], "%s is stored without looking again after the lock was taken: a second thread overwrites the first one's ids" % e[1].split("::")[-1])
        if pidg:
            ps = [i for i, e in enumerate(tr) if e[0] == "store" and e[1] == pidg]
            for i in ps:
                if tr[i][2].path != ("pid",):
                    report("pid-value", tr[i][4], "the remembered process is not the current one")
                j = i
                while j >= 0 and tr[j][0] != "lock":
                    j -= 1
                k = i
                while k < len(tr) and tr[k][0] not in ("lock", "rmw"):
                    k += 1
                before = [e for e in tr[j:i] if e[0] == "store" and e[1] != pidg]
                after = [e for e in tr[i + 1:k] if e[0] == "store" and e[1] != pidg and e[3] and e[2].const == 0]
                if after:
                    report("publish", tr[i][4], "the new process is published before the old process's ids are dropped: another thread can continue the old ids")
                if mg and not any(e[1] == mg for e in before) and not any(e[1] == mg for e in after):
                    report("fork-major", tr[i][4], "a forked process keeps its parent's major id")
            # a path on which the process differs (checked under the lock) has to renew the ids
        for e in tr:
            if e[0] == "store" and majors and e[1] in majors and e[2].const != 0:
                pass
    # the value stored as major id
    for g in F.functions.values():
        if g.get("body") is None or g["file"] != f["file"]:
            continue
        for n in walk(g["body"]):
            if n["k"] == "mcall" and n.get("fn") == "store" and n["obj"].get("dk") == "g" and "::" + n["obj"].get("qn", "") in majors:
                a = n["a"][0]
                if a["k"] in ("int", "zero"):
                    continue
                c = slice_calls(g, a, F)
                params = {x for x in c if x.startswith("param:")}
                for need, what in (("getpid", "the process"), ("gethostid", "the host"), ("time", "the time")):
                    if need not in c and not params and not (need == "time" and c & {"now", "clock_gettime", "gettimeofday", "random_device"}):
                        report("major-%s" % need, n["l"], "the major id does not depend on %s: different runs can share it" % what)
                ctx.count("major_stores")
    if majors & minors:
        report("same", f["l"], "major and minor id come from the same counter")
    if len(minors) > 1:
        report("counters", f["l"], "different paths take ids from different counters")
    checks = ["id marked as set", "minor id by one atomic step", "major id current and initialised", "stores locked and rechecked", "fork noticed and published last", "major id from host, process, time"]
    for k, (l, m) in bad.items():
        ctx.violate("%s %s" % (f["qn"], k), where(f, l), m)
    if not bad:
        for c in checks:
            ctx.ok("%s: %s on %d paths" % (f["qn"], c, len(res)))
    construct(ctx, F)


def reached(F, f):
    out, todo = {f["usr"]: f}, [f]
    while todo:
        g = todo.pop()
        for n in walk(g["body"]):
            h = F.functions.get(n.get("usr")) if n["k"] in ("call", "mcall", "ctor") else None
            if h is not None and h.get("body") is not None and h["usr"] not in out:
                out[h["usr"]] = h
                todo.append(h)
    return list(out.values())


def shared_plain(ctx, F, f):
    """plain variables of the file that functions change"""
    tls = {v["qn"]: v for v in F.vars if v.get("tls")}
    for g in reached(F, f):
        for n in walk(g["body"]):
            if n["k"] == "ref" and n.get("qn") in tls:
                ctx.violate("%s thread %s" % (g["qn"], n["n"]), where(g, n.get("l")), "takes ids from state each thread has of its own: threads hand out the same ids")
            if n["k"] != "decl":
                continue
            for v in n["vars"]:
                if v.get("tls"):
                    ctx.violate("%s thread %s" % (g["qn"], v["n"]), where(g, v.get("l")), "keeps state for ids each thread has of its own: threads hand out the same ids")
                elif v.get("static") and v.get("init") is not None and slice_calls(g, v["init"], F) & {"getpid", "getppid"}:
                    ctx.violate("%s remembered %s" % (g["qn"], v["n"]), where(g, v.get("l")), "asks for the process once and remembers the answer: a forked process goes on with its parent's ids")
    for g in F.functions.values():
        if g.get("body") is None or g["file"] != f["file"]:
            continue
        for n in walk(g["body"]):
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = n["lhs"]
            elif n["k"] == "un" and n["op"] in ("++", "--"):
                t = n["e"]
            if t is not None and t["k"] == "ref" and t.get("dk") in ("g", "s", "m") and "atomic" not in (t.get("t") or ""):
                ctx.violate("%s plain %s" % (g["qn"], t["n"]), where(g, n.get("l")), "changes shared state that is not atomic")


def construct(ctx, F):
    """ids given explicitly"""
    for f in F.by_cls.get(P, []):
        if f.get("body") is None or len(f["params"]) != 2 or not (f.get("ctor") or f["n"] == "SetID"):
            continue

        def go(it):
            try:
                it.call_function(f, V(("this",), cls=P), [V(("p0",)), V(("p1",))])
            except Thrown:
                return None
            return it
        for it in Interp.explore(lambda: Interp(F, dyn_class=P), go):
            if it is None:
                continue
            st = it.st.store
            g = lambda m: st.get(("this", m))
            ok = g("id_set") is not None and g("id_set").const is True and g("major_id") is not None and g("major_id").path == ("p0",) \
                and g("minor_id") is not None and g("minor_id").path == ("p1",)
            if ok:
                ctx.ok("%s stores the given id" % f["qn"])
            else:
                ctx.violate("%s fields" % f["qn"], where(f), "does not store the given major and minor id as a set id")
