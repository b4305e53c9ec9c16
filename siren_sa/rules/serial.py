"""Archive round trip (C01), archive versions (C02), polymorphic registration (C03)."""
import re

from ..effects import Effects
from ..facts import AnalysisBroken
from ..interp import Interp, V, Thrown, TooComplex, UNKNOWN, union, walk

SER = ("save", "load", "serialize", "load_and_construct")


def strip_t(t):
    t = (t or "").strip()
    for _ in range(3):
        t = re.sub(r"^(const|volatile)\s+", "", t)
        t = re.sub(r"\s*(const|volatile)$", "", t)
        t = t.rstrip("&").strip()
    return t


class Op:
    def __init__(self, kind, name, v, t, node, fn, loop):
        self.kind, self.name, self.v, self.t, self.node, self.fn, self.loop = kind, name, v, t, node, fn, loop

    def label(self):
        if self.kind == "base":
            return "base:" + self.name
        return self.name if self.name is not None else "(unnamed)"

    def member(self):
        """first member name of the object this value is read from, if it is one"""
        if self.v is not None and self.v.path and self.v.path[0] == "this" and len(self.v.path) > 1:
            return self.v.path[1]
        return None

    def members(self):
        out = set()
        for d in (self.v.deps if self.v is not None else ()):
            if d and d[0] == "this" and len(d) > 1:
                out.add(d[1])
        return out


class Ser(Interp):
    MAXSTEPS = 200000

    def __init__(self, F, cls, mode, cusr=None):
        super().__init__(F, cls)
        self.mode = mode            # 'save' | 'load'
        self.cls = cls
        self.cusr = cusr
        self.ops = []
        self.loopdepth = 0
        self.constructed = None
        self.rebuilds = []
        self.late = []
        self.rebuilt_at = {}

    def loop_body(self, n, body, inc=None):
        self.loopdepth += 1
        try:
            return super().loop_body(n, body, inc)
        finally:
            self.loopdepth -= 1

    def is_archive(self, v):
        return v is not None and v.path == ("ar",)

    def h_call(self, node, callee, obj, args):
        name = (callee or "").split("::")[-1]
        k = node.get("k")
        if k == "call" and obj is not None and obj.key == ("construct",):
            self.construct(args, node.get("a", []), node)
            return UNKNOWN
        if k == "call" and self.is_archive(obj):
            for a, an in zip(args, node.get("a", [])):
                self.archive_op(a, an, node)
            return obj
        if k == "opcall" and node.get("op") in ("()", "&", "<<", ">>") and args and self.is_archive(args[0]):
            for a, an in zip(args[1:], node.get("a", [])[1:]):
                self.archive_op(a, an, node)
            return args[0]
        if k == "bin":
            return None
        if name in ("make_nvp", "make_map_item") and len(args) == 2:
            nm = args[0].const[1] if isinstance(args[0].const, tuple) and args[0].const[0] == "str" else None
            return V(None, args[1].deps, key=("nvp", nm, node["a"][1], args[1]))
        if name == "make_size_tag" and len(args) == 1:
            return V(None, args[0].deps, key=("nvp", "#size", node["a"][0], args[0]))
        if name == "binary_data" and args:
            return V(None, args[0].deps, key=("nvp", "#binary", node["a"][0], args[0]))
        if name == "defer" and len(args) == 1:
            return args[0]
        if k == "ctor" and callee in ("cereal::virtual_base_class", "cereal::base_class"):
            m = re.match(r"cereal::(?:virtual_)?base_class<(.*)>$", node.get("t", ""))
            return V(None, frozenset(), key=("base", m.group(1) if m else "?"))
        if k == "opcall" and node.get("op") == "()" and args and args[0].key == ("construct",):
            self.construct(args[1:], node.get("a", [])[1:], node)
            return UNKNOWN
        if k == "mcall" and name in ("ptr", "operator->") and obj is not None and obj.key == ("construct",):
            return V(("this",))
        if k == "opcall" and node.get("op") == "->" and args and args[0].key == ("construct",):
            return V(("this",))
        return None

    def should_inline(self, fn, obj, args, node):
        if any(self.is_archive(a) for a in args):
            return True
        if fn.get("ctor") and fn.get("cls") != self.cls:
            return False
        return not branching(fn)

    def call_function(self, fn, this, args, node=None):
        self.note_reads(fn, this, args)
        return super().call_function(fn, this, args, node)

    def note_reads(self, fn, this, args):
        if self.mode == "load" and fn.get("cls") and this is not None and this.path == ("this",) and not any(self.is_archive(a) for a in args):
            self.rebuilds.append((len(self.ops), fn, reads(self.F, fn)))
            self.clock += 1
            self.rebuilt_at[id(fn)] = self.clock

    clock = 0

    def h_write(self, path, v, node):
        # members the reader itself sets, in order
        if self.mode == "load" and len(self.frames) == 1 and len(path) == 2 and path[0] == "this" and node is not None and node.get("k") in ("bin", "opcall"):
            self.clock += 1
            self.late.append((path[1], (self.clock, node)))
        super().h_write(path, v, node)

    def opaque_call(self, n, qn, obj, args):
        # a function of the object that is not followed: what it may change depends on everything read so far
        fn = self.F.functions.get(n.get("usr"))
        if fn is not None and fn.get("cls") and (obj is None or obj.path == ("this",)) and n.get("k") != "ctor":
            self.note_reads(fn, V(("this",)), args)
            ins = frozenset(d for v in list(self.st.store.values()) + list(args) for d in v.deps if d and d[0] == "in")
            for (root, mem), _w in effects(self.F).of(fn).items():
                if root == "this" and mem != "*":
                    old = self.st.store.get(("this", mem))
                    self.st.store[("this", mem)] = V(None, ins | (old.deps if old else frozenset([("this", mem)])), key=("rebuilt",))
        r = super().opaque_call(n, qn, obj, args)
        if n.get("k") == "mcall" and not n.get("cm") and obj is not None and obj.path and obj.path[0] == "this" and len(obj.path) > 1:
            self.write_to(V(obj.path), (), V(None, union([obj] + list(args)), key=("changed",)), n)
        return r

    def archive_op(self, a, an, node):
        fn = self.frames[-1].fn if self.frames else None
        while an and an.get("k") == "cast":
            an = an["e"]
        if a.key and a.key[0] == "base":
            self.ops.append(Op("base", a.key[1], None, a.key[1], node, fn, self.loopdepth))
            return
        if a.key and a.key[0] == "nvp":
            name, vn, vv = a.key[1], a.key[2], a.key[3]
        else:
            name, vn, vv = None, an, a
        op = Op("val", name, vv, strip_t(vn.get("t", "")), node, fn, self.loopdepth)
        op.size = name == "#size"
        self.ops.append(op)
        if self.mode == "load":
            i = len(self.ops) - 1
            fresh = V(("in", i, name))
            lv = self.lvalue(vn)
            op.target = lv
            op.tpath = None
            if lv is not None and lv[0] == "path":
                b = lv[1]
                if b.loc is not None:
                    op.tpath = b.loc + tuple(lv[2])
                elif b.path is not None:
                    op.tpath = b.path + tuple(lv[2])
            elif lv is not None:
                cur = self.st.env.get(lv[1])
                if cur is not None and cur.path and cur.path[0] == "this":
                    op.tpath = cur.path
            self.assign(vn, fresh, node)

    def construct(self, args, nodes, node):
        c = self.F.classes_by_usr.get(self.cusr) or self.F.classes.get(self.cls)
        cands = []
        for f in self.F.by_cls.get(self.cls, []):
            if not f.get("ctor") or f["ctor"] in ("copy", "move"):
                continue
            need = len([p for p in f["params"] if "def" not in p])
            if not (need <= len(args) <= len(f["params"])):
                continue
            score = 0
            bad = False
            for p, an in zip(f["params"], nodes):
                pt, at = strip_t(p["t"]), strip_t(an.get("t", ""))
                if pt == at:
                    score += 3
                elif is_num(pt) and is_num(at):
                    score += 1
                elif is_num(pt) != is_num(at) and at != "<dependent type>":
                    bad = True
            if not bad:
                cands.append((score, f))
        self.constructed = {"args": args, "nodes": nodes, "node": node, "ctor": None}
        if not cands:
            return
        cands.sort(key=lambda x: -x[0])
        f = cands[0][1]
        self.constructed["ctor"] = f
        try:
            self.call_function(f, V(("this",)), list(args), node)
        except Thrown:
            pass


_eff = {}


def effects(F):
    if id(F) not in _eff:
        _eff[id(F)] = Effects(F)
    return _eff[id(F)]


_reads = {}


def reads(F, fn, busy=None):
    """members of the object that fn (or what it calls on the same object) uses"""
    u = (id(F), fn["usr"])
    if u in _reads:
        return _reads[u]
    busy = busy or set()
    if u in busy:
        return set()
    busy.add(u)
    out = set()
    for n in walk(fn.get("body")):
        if n["k"] == "mem" and (n.get("b") or {}).get("k") == "this":
            out.add(n["n"])
        elif n["k"] in ("mcall", "call"):
            o = n.get("obj")
            if n["k"] == "call" or o is None or o.get("k") == "this":
                g = F.functions.get(n.get("usr"))
                if g is not None and g.get("cls") and not g.get("static") and not g.get("ctor"):
                    out |= reads(F, g, busy)
    # members it (re)computes itself before using them are not inputs
    out = out - {m for (r, m) in effects(F).of(fn) if r == "this"} if fn.get("body") else out
    _reads[u] = out
    return out


def branching(fn):
    if "_br" not in fn:
        fn["_br"] = any(n["k"] in ("if", "for", "while", "do", "range", "switch", "cond", "try") or
                        (n["k"] == "bin" and n["op"] in ("&&", "||")) for n in walk(fn.get("body")))
    return fn["_br"]


def is_num(t):
    return t in ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool", "short", "unsigned short", "long long", "char", "unsigned long long")


class Serializer:
    """the archive functions of one class"""
    def __init__(self, cls, cusr):
        self.cls, self.cusr = cls, cusr
        self.fns = {}


def collect(F):
    d = {}
    for f in F.functions.values():
        if f["n"] in SER and f.get("cls") and f.get("params") and f["params"][0]["t"].startswith("type-parameter") and f.get("body"):
            k = (f["cls"], f.get("cusr"))
            d.setdefault(k, Serializer(*k)).fns[f["n"]] = f
    return d


def class_versions(F):
    out = {}
    for v in F.vars:
        m = re.search(r"ClassVersion<(.*), *(\d+)U?L?>$", v["tw"])
        if m:
            out[re.sub(r"\s+", "", m.group(1))] = int(m.group(2))
    return out


def version_index(fn):
    for i, p in enumerate(fn["params"]):
        if i > 0 and ("unsigned int" in p["t"] or "uint32" in p["t"]) and "&" not in p["t"]:
            return i
    return None


def run_fn(F, s, fn, mode, version, limit=400):
    """all paths: list of (outcome, interp)"""
    vi = version_index(fn)

    def make():
        return Ser(F, s.cls, mode, s.cusr)

    def run(it):
        args = []
        for i, p in enumerate(fn["params"]):
            if i == 0:
                args.append(V(("ar",)))
            elif i == vi:
                args.append(V(None, const=version))
            elif "construct" in p["t"]:
                args.append(V(None, key=("construct",)))
            else:
                args.append(UNKNOWN)
        this = None if fn.get("static") else V(("this",))
        try:
            it.call_function(fn, this, args)
            return ("ok", it)
        except Thrown as e:
            return ("throw", it)

    return Interp.explore(make, run, limit)


_cache = {}


def saved_member_names(F, cls, cusr=None):
    key = (id(F), cls, cusr)
    if key in _cache:
        return _cache[key]
    out = None
    vers = class_versions(F)
    for (c, u), s in collect(F).items():
        if c != cls or (cusr and u != cusr):
            continue
        fn = s.fns.get("save") or s.fns.get("serialize")
        if not fn:
            continue
        out = out or set()
        for ver in range(0, vers.get(cls.replace(" ", ""), 0) + 1):
            try:
                for oc, it in run_fn(F, s, fn, "save", ver):
                    for o in it.ops:
                        if o.kind == "val":
                            m = o.member()
                            if m:
                                out.add(m)
                            else:
                                out |= o.members()
            except TooComplex:
                pass
    _cache[key] = out
    return out


# --------------------------------------------------------------------------
# C01

# members that carry no state of their own: caches, locks, pointers re-attached by the owner.
NOT_STATE = {
    ("siren::dataclasses::InteractionTreeDatum", "legacy_parent"): "only filled while reading version 0",
    ("siren::dataclasses::InteractionTreeDatum", "legacy_daughters"): "only filled while reading version 0",
    ("siren::injection::Injector", "random"): "the generator is handed to the injector by its user",
    ("siren::injection::Injector", "stopping_condition"): "a function object handed over by the user",
    ("siren::utilities::SIREN_random", "generator"): "stateless unit interval distribution",
    ("siren::distributions::PrimaryExternalDistribution", "filename"): "where the data came from; the data are archived",
    ("siren::distributions::TabulatedFluxDistribution", "fluxTableFilename"): "where the table came from; the table is archived",
    ("siren::distributions::Tabulated2DFluxDistribution", "fluxTableFilename"): "where the table came from; the table is archived",
    ("siren::interactions::QuarkDISFromSpline", "fragmentation_integral"): "the same for every object; computed by the default constructor",
    ("siren::interactions::QuarkDISFromSpline", "inverseCdfTable"): "the same for every object; computed by the default constructor",
}


def base_has_state(F, sers, b, seen=None):
    seen = seen or set()
    if b in seen:
        return False
    seen.add(b)
    c = F.classes.get(b)
    if c is None:
        return False
    if any(not f.get("mut") for f in c["fields"]):
        return True
    return any(base_has_state(F, sers, x.get("qn") or x["t"], seen) for x in c["bases"])


def nm(cls):
    return cls.replace("siren::", "")


def paths(F, s, fn, mode, v):
    """distinct successful paths"""
    rs = run_fn(F, s, fn, mode, v)
    return [it for oc, it in rs if oc == "ok"], [it for oc, it in rs if oc != "ok"]


def sig(it):
    out = []
    for o in it.ops:
        out.append((o.label(), 1 if o.loop else 0))
    return tuple(out)


def run_c01(ctx):
    F = ctx.F
    vers = class_versions(F)
    sers = collect(F)
    ctx.require(len(sers) > 80, "archive functions were not found")
    for (cls, cu), s in sorted(sers.items()):
        short = nm(cls)
        py = cls.split("::")[-1].startswith("py")
        cfacts = F.classes_by_usr.get(cu) or F.classes.get(cls)
        top = vers.get(cls.replace(" ", ""), 0)
        ctx.count("classes")
        sfn = s.fns.get("save") or s.fns.get("serialize")
        lfn = s.fns.get("load") or s.fns.get("load_and_construct") or s.fns.get("serialize")
        if sfn is None or lfn is None:
            ctx.violate("%s:one-sided" % short, F.where(sfn or lfn), "%s can only be %s" % (short, "written" if sfn else "read"))
            continue
        check_old_readers(ctx, F, s, short, top, lfn)
        for v in range(top + 1):
            try:
                sp, _ = paths(F, s, sfn, "save", v)
                lp, _ = paths(F, s, lfn, "load", v)
            except TooComplex as e:
                raise AnalysisBroken("%s: %s" % (cls, e))
            if not lp and not sp:
                continue            # version not supported by either side: C02's subject
            if not sp:
                continue            # old format that is only read any more
            if not lp:
                ctx.violate("%s:v%d:unreadable" % (short, v), F.where(lfn), "%s writes version %d but reading it always fails" % (short, v))
                continue
            a = {sig(i) for i in sp}
            b = {sig(i) for i in lp}
            if a != b:
                x, y = min(a - b or a), min(b - a or b)
                d = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                ctx.violate("%s:v%d:sequence" % (short, v), F.where(lfn),
                            "version %d of %s: the written entries are %s but the reading side expects %s (first difference at entry %d)" %
                            (v, short, [e[0] for e in x], [e[0] for e in y], d + 1))
                continue
            ctx.ok("%s v%d: writer and reader use the same %d entries in the same order" % (short, v, len(next(iter(a)))))
            check_names(ctx, F, s, short, v, sp, sfn)
            check_flow(ctx, F, s, short, v, sp, lp, sfn, lfn)
            check_rebuild_order(ctx, F, s, short, v, lp, lfn)
            if v == top and not py:
                check_state(ctx, F, sers, s, short, cfacts, sp, lp, sfn)


def set_members(it):
    out = {getattr(o, "tpath")[1] for o in it.ops if (getattr(o, "tpath", None) or ("",))[0] == "this" and len(o.tpath) > 1}
    return out | {k[1] for k in it.st.store if k and k[0] == "this" and len(k) > 1}


def check_old_readers(ctx, F, s, short, top, lfn):
    """a member of the newest version that the reader of an older version fills in is filled in on every path"""
    if top == 0 or version_index(lfn) is None or lfn["n"] == "load_and_construct":
        return
    try:
        new, _ = paths(F, s, lfn, "load", top)
        olds = [(v, paths(F, s, lfn, "load", v)[0]) for v in range(top)]
    except TooComplex as e:
        raise AnalysisBroken("%s: %s" % (s.cls, e))
    want = set()
    for it in new:
        want |= {o.tpath[1] for o in it.ops if (getattr(o, "tpath", None) or ("",))[0] == "this" and len(o.tpath) > 1}
    for v, its in olds:
        for m in sorted(want):
            if not any(m in set_members(it) for it in its):
                continue        # keeps the value of the new object
            ctx.count("old_version_members")
            if all(m in set_members(it) for it in its):
                ctx.ok("%s: reading version %d sets %s" % (short, v, m))
            else:
                ctx.violate("%s:v%d:unset:%s" % (short, v, m), F.where(lfn), "%s: reading version %d can leave %s as it was before" % (short, v, m))


def check_names(ctx, F, s, short, v, sp, sfn):
    for it in sp:
        seen, mem = {}, {}
        for o in it.ops:
            if o.kind == "base" or o.loop or o.name is None or o.name.startswith("#"):
                continue
            if o.name in seen:
                ctx.violate("%s:dup-name:%s" % (short, o.name), F.where(o.fn, o.node.get("l")), "%s writes two entries named '%s'" % (short, o.name))
            seen[o.name] = o
            p = o.v.path if o.v is not None else None
            if p and p[0] == "this" and len(p) > 1 and not any(str(x).startswith("[]") for x in p):
                if p in mem:
                    ctx.violate("%s:dup-member:%s" % (short, ".".join(p[1:])), F.where(o.fn, o.node.get("l")),
                                "%s stores member %s under both '%s' and '%s'" % (short, ".".join(p[1:]), mem[p].name, o.name))
                mem[p] = o


def check_flow(ctx, F, s, short, v, sp, lp, sfn, lfn):
    """the member written as entry i is the member that receives entry i"""
    for a in sp:
        for b in lp:
            if sig(a) != sig(b):
                continue
            where = {}          # member path -> entry it was written as
            for i, o in enumerate(a.ops):
                if o.kind == "val" and o.v is not None and o.v.path and o.v.path[0] == "this" and len(o.v.path) > 1:
                    where[o.v.path] = i
            inv = {i: p for p, i in where.items()}
            for p, i in where.items():
                o = a.ops[i]
                ctx.count("members_round_tripped")
                got = b.st.store.get(p)
                lo = b.ops[i]
                t1, t2 = strip_t(o.t), strip_t(lo.t)
                tpath = getattr(lo, "tpath", None)
                if got is None and tpath and tpath[:len(p)] == p:
                    got = V(("in", i, o.name))
                if got is None:
                    # a whole-object store above or pieces below
                    for q in range(len(p) - 1, 0, -1):
                        if p[:q] in b.st.store:
                            got = b.st.store[p[:q]]
                            break
                    else:
                        parts = [x for k, x in b.st.store.items() if k[:len(p)] == p]
                        if parts:
                            got = V(None, union(parts))
                if got is None:
                    # the base class or a rebuild may own it
                    own = [f for f in F.fields(s.cls) if f["n"] == p[1]]
                    if own and invariant(F, s, own[0]):
                        continue
                    owner_here = bool(own)
                    if owner_here or tpath is None:
                        ctx.violate("%s:lost:%s" % (short, ".".join(p[1:])), F.where(lfn, lo.node.get("l")),
                                    "%s v%d: entry '%s' is written from %s but reading never puts it back" % (short, v, o.label(), ".".join(p[1:])))
                    continue
                src = {d[1] for d in got.deps if d and d[0] == "in"}
                if i not in src and src:
                    j = sorted(src)[0]
                    ctx.violate("%s:cross:%s" % (short, ".".join(p[1:])), F.where(lfn, lo.node.get("l")),
                                "%s v%d: %s is written as '%s' but restored from '%s'" % (short, v, ".".join(p[1:]), o.label(), b.ops[j].label()))
                elif i not in src:
                    ctx.violate("%s:drop:%s" % (short, ".".join(p[1:])), F.where(lfn, lo.node.get("l")),
                                "%s v%d: %s is written as '%s' but its restored value does not come from that entry" % (short, v, ".".join(p[1:]), o.label()))
                else:
                    ctx.ok("%s v%d: %s <-> '%s'" % (short, v, ".".join(p[1:]), o.label()))
                if t1 and t2 and t1 != t2 and not enum_int(F, t1, t2) and "type-parameter" not in t1 + t2 and "dependent" not in t1 + t2 and not compatible(t1, t2):
                    ctx.violate("%s:type:%s" % (short, o.label()), F.where(lfn, lo.node.get("l")),
                                "%s v%d: entry '%s' is written as %s and read as %s" % (short, v, o.label(), t1, t2))


def check_rebuild_order(ctx, F, s, short, v, lp, lfn):
    """nothing is recomputed from a member before that member has been read"""
    for b in lp:
        for at, fn, rd in b.rebuilds:
            if fn.get("ctor"):
                continue
            ctx.count("rebuild_steps")
            for m, lno in b.late:
                if m in rd and lno[0] > b.rebuilt_at.get(id(fn), 1 << 30) and not any(k[0] == m and k[1][0] < b.rebuilt_at[id(fn)] for k in b.late):
                    ctx.violate("%s:rebuild-order:%s:%s" % (short, fn["n"], m), F.where(lfn, lno[1]),
                                "%s v%d: %s uses %s but runs before that member is given its value" % (short, v, fn["n"], m))
            for i in range(at, len(b.ops)):
                o = b.ops[i]
                tp = getattr(o, "tpath", None)
                if tp and tp[0] == "this" and len(tp) > 1 and tp[1] in rd:
                    ctx.violate("%s:rebuild-order:%s:%s" % (short, fn["n"], tp[1]), F.where(lfn, o.node),
                                "%s v%d: %s uses %s but runs before that member is read from the archive" % (short, v, fn["n"], tp[1]))


def enum_int(F, a, b):
    return (a in F.enums and is_num(b)) or (b in F.enums and is_num(a))


def written_members(F, cls):
    """members some function other than the archive functions gives a value"""
    out = set()
    for c in [cls] + list(F.all_derived(cls)):
        for f in F.by_cls.get(c, []):
            if f["n"] in SER or f.get("ctor") in ("copy", "move"):
                continue
            for (root, mem), _ in effects(F).of(f).items():
                if root == "this":
                    out.add(mem)
    return out


def invariant(F, s, f):
    """a private member that nothing ever changes after its in-class initialiser"""
    return f.get("const") or (f.get("acc") != "public" and f["n"] not in written_members(F, s.cls))


def compatible(a, b):
    a, b = a.replace("const ", "").replace(" ", ""), b.replace("const ", "").replace(" ", "")
    return a == b


def check_state(ctx, F, sers, s, short, c, sp, lp, sfn):
    if c is None:
        return
    saved = set()
    for it in sp:
        for o in it.ops:
            saved |= ({o.member()} if o.member() else o.members())
    rebuilt = set()
    for it in lp:
        for k, v in it.st.store.items():
            if k and k[0] == "this" and len(k) > 1:
                rebuilt.add(k[1])
    for f in c["fields"]:
        if f.get("mut") or (s.cls, f["n"]) in NOT_STATE or invariant(F, s, f):
            continue
        ctx.count("fields")
        if f["n"] in saved or f["n"] in rebuilt:
            ctx.ok("%s.%s is part of the archive or rebuilt while reading" % (short, f["n"]))
        else:
            ctx.violate("%s:state:%s" % (short, f["n"]), "%s:%s" % (F.rel(c["file"]), f["l"]),
                        "member %s of %s is neither written to the archive nor rebuilt when the object is read back" % (f["n"], short))
    for b in c["bases"]:
        bq = b.get("qn") or b["t"]
        if not base_has_state(F, sers, bq):
            continue
        ok = all(any(o.kind == "base" or (o.kind == "val" and o.name is None) or o.name == bq.split("::")[-1] for o in it.ops) for it in sp)
        if ok:
            ctx.ok("%s archives its base part %s" % (short, nm(bq)))
        else:
            ctx.violate("%s:base:%s" % (short, nm(bq)), F.where(sfn), "%s has state in its base %s but does not archive it" % (short, nm(bq)))


# --------------------------------------------------------------------------
# C02

def run_c02(ctx):
    F = ctx.F
    vers = class_versions(F)
    sers = collect(F)
    ctx.require(len(sers) > 80, "archive functions were not found")
    for (cls, cu), s in sorted(sers.items()):
        short = nm(cls)
        top = vers.get(cls.replace(" ", ""), 0)
        for fname, fn in sorted(s.fns.items()):
            if version_index(fn) is None:
                ctx.count("functions_without_version")
                continue
            ctx.count("functions")
            mode = "save" if fname == "save" else "load"
            modes = ("save", "load") if fname == "serialize" else (mode,)
            for md in modes:
                def runs(v):
                    try:
                        return run_fn(F, s, fn, md, v)
                    except TooComplex as e:
                        raise AnalysisBroken("%s: %s" % (cls, e))
                for v in range(top + 1):
                    # a version that is read at all is not refused on the state of the object
                    rs = runs(v)
                    if any(oc == "ok" and it.ops for oc, it in rs):
                        ctx.count("accepted_versions")
                        if any(oc != "ok" and not it.ops for oc, it in rs):
                            ctx.violate("%s:%s:refuses%d" % (short, fname, v), F.where(fn), "%s::%s can refuse version %d, which it supports" % (short, fname, v))
                        else:
                            ctx.ok("%s::%s accepts version %d whatever the object holds" % (short, fname, v))
                good = [it for oc, it in runs(top) if oc == "ok"]
                if not good:
                    ctx.violate("%s:%s:declared" % (short, fname), F.where(fn), "%s::%s rejects version %d, the version the class declares" % (short, fname, top))
                else:
                    ctx.ok("%s::%s accepts its declared version %d" % (short, fname, top))
                    if not any(it.ops for it in good):
                        ctx.count("stateless_functions")
                        continue        # nothing is transferred, nothing can be misread
                for v in (top + 1, top + 2, 4294967295):
                    rs = runs(v)
                    bad = [(oc, it) for oc, it in rs if oc == "ok"]
                    touched = [it for oc, it in rs if it.ops]
                    if bad:
                        ctx.violate("%s:%s:future" % (short, fname), F.where(fn), "%s::%s accepts version %d although the newest known version is %d" % (short, fname, v, top))
                        break
                    if touched:
                        ctx.violate("%s:%s:late" % (short, fname), F.where(fn), "%s::%s transfers entries of unsupported version %d before rejecting it" % (short, fname, v))
                        break
                else:
                    ctx.ok("%s::%s rejects versions above %d without touching the archive" % (short, fname, top))
                if md == "load":
                    for v in range(top):
                        ctx.count("old_versions")
                        if not any(oc == "ok" for oc, it in runs(v)):
                            ctx.violate("%s:%s:old%d" % (short, fname, v), F.where(fn), "%s::%s can no longer read version %d" % (short, fname, v))
                        else:
                            ctx.ok("%s::%s still reads version %d" % (short, fname, v))


# --------------------------------------------------------------------------
# C03

def marks(F, name):
    out = []
    for v in F.vars:
        m = re.search(r"\b%s<(.*)>$" % name, v["tw"])
        if m:
            out.append((split_args(m.group(1)), v))
    return out


def split_args(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def run_c03(ctx):
    F = ctx.F
    sers = collect(F)
    types = {}
    for (a, v) in marks(F, "RegisterType"):
        types[strip_t(a[0])] = v
    rel = set()
    for (a, v) in marks(F, "RegisterRelation"):
        rel.add((strip_t(a[0]), strip_t(a[1])))
    ctx.require(len(types) > 60 and len(rel) > 60, "registration markers were not found (%d types, %d relations)" % (len(types), len(rel)))
    parents = {}
    for b, d in rel:
        parents.setdefault(d, set()).add(b)

    def reach(d):
        out, todo = set(), [d]
        while todo:
            for b in parents.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    roots = {b for b, d in rel}
    for cls, c in sorted(F.classes.items()):
        if c.get("tmpl") or not c.get("poly") or "/test" in c["file"]:
            continue
        anc = [b for b in F.bases(cls) if b in roots]
        if not anc:
            continue
        serial = any(k[0] == cls for k in sers)
        if not serial:
            continue
        short = nm(cls)
        ctx.count("classes")
        where = "%s:%s" % (F.rel(c["file"]), c["l"])
        if not c.get("abstract"):
            if cls in types:
                ctx.ok("%s is registered" % short)
            else:
                ctx.violate("%s:type" % short, where, "%s can be archived through a pointer to its base but is not registered as an archive type" % short)
        r = reach(cls)
        for b in anc:
            ctx.count("relations")
            if b in r:
                ctx.ok("%s -> %s" % (short, nm(b)))
            else:
                ctx.violate("%s:relation:%s" % (short, nm(b)), where, "no registered relation leads from %s to its base %s" % (short, nm(b)))
    for b, d in sorted(rel):
        ctx.count("registered_relations")
        if d in F.classes and b in F.classes and b not in F.bases(d):
            ctx.violate("relation:%s:%s" % (nm(b), nm(d)), "", "registered relation %s -> %s does not match the class hierarchy" % (nm(d), nm(b)))
