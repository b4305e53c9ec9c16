"""Typestate of record quantities, hand-over between records, accessor pairs."""
import re

from ..interp import Interp, V, Thrown, TooComplex, walk
from .serial import nm


# quantities whose default value is meant to be used when none was given
HAS_DEFAULT = {"helicity": "unpolarised unless given", "initial_time": "particles start at time zero unless given",
               "normalization": "a unit normalisation unless given"}


def pairs(F, cls):
    """quantity -> flag for members q with a companion bool q_set"""
    fs = {f["n"]: f for f in F.fields(cls, True)}
    out = {}
    for n, f in fs.items():
        if n.endswith("_set") and f["t"] == "bool" and n[:-4] in fs and not fs[n[:-4]]["t"].endswith("&"):
            out[n[:-4]] = (n, fs[n[:-4]])
    return out


class TS(Interp):
    """typestate evaluation: flags are opaque booleans decided per path"""
    pairs = {}
    const_fn = False

    def begin(self):
        self.given = {}       # q -> True when established on this path
        self.bad_reads = []
        self.bad_writes = []
        self.written = {}     # q -> (value, line)
        self.flagged = {}

    def exec_init(self, init, fr):
        if "m" in init and not init.get("w"):
            return          # default member initialiser
        return super().exec_init(init, fr)

    def flag_state(self, q):
        fl = ("this", self.pairs[q][0])
        if fl in self.st.store:
            c = self.st.store[fl].const
            return None if c is None else bool(c)
        c = self.memo.get(("t", fl))
        return None if c is None else bool(c)

    def line(self, node):
        fn = self.frames[-1].fn if self.frames else None
        return (fn, node.get("l") if node else None)

    def h_read(self, path, node):
        if len(path) == 2 and path[0] == "this" and path[1] in self.pairs:
            q = path[1]
            if q in HAS_DEFAULT and self.pairs[q][1].get("init"):
                return
            if q in self.written or self.flag_state(q):
                return
            if any(k[:2] == ("this", q) for k in self.st.store):
                return
            self.bad_reads.append((q,) + self.line(node))

    def h_write(self, path, v, node):
        if path and path[0] == "this" and len(path) >= 2 and path[1] in self.pairs:
            q = path[1]
            if self.flag_state(q) is not False and q not in self.written:
                self.bad_writes.append((q,) + self.line(node))
            self.written.setdefault(q, (v,) + self.line(node))
        elif path and path[0] == "this" and len(path) == 2:
            self.flagged[path[1]] = (v,) + self.line(node)

    def x_try(self, n):
        # a handler swallows: run it, state kept
        try:
            self.exec(n["body"])
        except Thrown:
            if not n["h"]:
                raise
            self.exec(n["h"][0]["body"])


def params_of(fn):
    return [V(("p%d" % i,)) for i in range(len(fn["params"]))]


def explore(F, cls, fn, make, this=True, limit=6000):
    def run(it):
        it.begin()
        try:
            r = it.call_function(fn, V(("this",)) if this else None, params_of(fn) if this else [V(("this",)) if i == it.obj_param else V(("p%d" % i,)) for i in range(len(fn["params"]))])
            return it, r, "ok"
        except Thrown:
            return it, None, "throw"
    return TS.explore(make, run, limit=limit)


def run_typestate(ctx):
    F = ctx.F
    n = 0
    for cls in sorted(F.classes):
        ps = pairs(F, cls)
        if not ps or cls.split("::")[-1].lower().startswith("py"):
            continue
        if len(ps) < 1:
            continue
        methods = [f for f in F.by_cls.get(cls, []) if f.get("acc") == "public" and f.get("ctor") in (None, "other") and not f.get("dtor") and not f.get("assign")
                   and f["n"] not in ("save", "load", "serialize", "load_and_construct")]
        if not methods:
            continue
        own = {q for q in ps if any(f["n"] == q for f in F.classes[cls]["fields"])}
        if not own:
            continue
        ctx.count("classes")
        ctx.count("quantities", len(own))
        for fn in sorted(methods, key=lambda f: (f["l"])):
            if fn.get("body") is None or fn.get("defaulted"):
                continue
            check_method(ctx, F, cls, fn, ps)


def quantity_of(name, ps):
    """the quantity a getter is named after"""
    if not name.startswith("Get"):
        return None
    w = re.sub(r"(?<=[a-z])(?=[A-Z])", "_", name[3:]).lower()
    w = {"three_momentum": "momentum"}.get(w, w)
    return w if w in ps else None


def check_method(ctx, F, cls, fn, ps):
    short = nm(cls)

    def make():
        it = TS(F, cls)
        it.pairs = ps
        return it
    try:
        rs = explore(F, cls, fn, make)
    except TooComplex as e:
        ctx.require(False, "%s: %s" % (fn["qn"], e))
    ctx.count("functions")
    ctx.count("paths", len(rs))
    name = fn["n"]
    for it, r, oc in rs:
        for q, f2, l in it.bad_reads:
            ctx.violate("%s::%s:unset:%s" % (short, name, q), F.where(f2 or fn, l),
                        "%s::%s uses %s on a path where neither it was given nor a value was derived" % (short, name, q))
        if fn.get("const"):
            for q, f2, l in it.bad_writes:
                ctx.violate("%s::%s:overwrites:%s" % (short, name, q), F.where(f2 or fn, l),
                            "%s::%s can replace a given %s by a derived value" % (short, name, q))
        elif oc == "ok":
            for q, (v, f2, l) in it.written.items():
                fl = ("this", ps[q][0])
                s = it.st.store.get(fl)
                if s is None or s.const is not True and not (s.path or s.deps):
                    ctx.violate("%s::%s:unflagged:%s" % (short, name, q), F.where(f2 or fn, l),
                                "%s::%s stores %s without marking it as given" % (short, name, q))
                else:
                    ctx.ok("%s::%s stores %s and marks it as given" % (short, name, q))
            for fl, (v, f2, l) in it.flagged.items():
                q = fl[:-4] if fl.endswith("_set") else None
                if q in ps and v.const is True and q not in it.written:
                    ctx.violate("%s::%s:flag-only:%s" % (short, name, q), F.where(f2 or fn, l),
                                "%s::%s marks %s as given without storing it" % (short, name, q))
        # a given quantity is the one handed out
        q = quantity_of(name, ps)
        if q and oc == "ok" and r is not None and not fn["params"] and ("this", ps[q][0]) not in it.st.store and it.flag_state(q):
            ctx.count("given_handed_out")
            vs = [r] + list(r.elems or [])
            if any(v.path and v.path[:2] == ("this", q) or any(d[:2] == ("this", q) for d in v.deps) for v in vs):
                ctx.ok("%s::%s hands out the %s that was given" % (short, name, q))
            else:
                ctx.violate("%s::%s:other-than-given:%s" % (short, name, q), F.where(fn), "%s::%s can hand out something other than %s although one was given" % (short, name, q))
        # a value handed out must exist
        if oc == "ok" and r is not None and r.path and r.path[0] == "this" and len(r.path) >= 2 and r.path[1] in ps:
            ctx.count("handed_out")
    ctx.ok("%s::%s only uses given or derived quantities (%d paths)" % (short, name, len(rs)))


# --------------------------------------------------------------------------
# hand-over between records

DC = "siren::dataclasses::"
# target field of the interaction record -> where it must come from when every
# quantity of the view has been given ("p0" is the interaction record or parent)
FINALIZE = {
    DC + "PrimaryDistributionRecord": {
        "signature.primary_type": "this.type", "primary_id": "this.id",
        "interaction_vertex": "this.interaction_vertex", "primary_initial_position": "this.initial_position",
        "primary_mass": "this.mass", "primary_momentum": ["this.energy", "this.momentum.[0]", "this.momentum.[1]", "this.momentum.[2]"],
        "primary_helicity": "this.helicity", "primary_initial_time": "this.initial_time", "interaction_time": "this.interaction_time",
        "interaction_parameters": ("any", "this.interaction_parameters")},
    DC + "SecondaryParticleRecord": {
        "secondary_ids.[this.secondary_index]": "this.id", "secondary_masses.[this.secondary_index]": "this.mass",
        "secondary_momenta.[this.secondary_index]": ["this.energy", "this.momentum.[0]", "this.momentum.[1]", "this.momentum.[2]"],
        "secondary_helicities.[this.secondary_index]": "this.helicity", "secondary_times.[this.secondary_index]": "this.time"},
    DC + "CrossSectionDistributionRecord": {
        "target_id": "this.target_id", "target_mass": "this.target_mass", "target_helicity": "this.target_helicity",
        "interaction_time": "this.overridden_interaction_time",
        "interaction_parameters": ("any", "this.interaction_parameters"),
        "secondary_ids.[this.secondary_particles.[].secondary_index]": "this.secondary_particles.[].id", "secondary_masses.[this.secondary_particles.[].secondary_index]": "this.secondary_particles.[].mass",
        "secondary_momenta.[this.secondary_particles.[].secondary_index]": ["this.secondary_particles.[].energy", "this.secondary_particles.[].momentum.[0]",
                                 "this.secondary_particles.[].momentum.[1]", "this.secondary_particles.[].momentum.[2]"],
        "secondary_helicities.[this.secondary_particles.[].secondary_index]": "this.secondary_particles.[].helicity", "secondary_times.[this.secondary_particles.[].secondary_index]": "this.secondary_particles.[].time"},
    DC + "SecondaryDistributionRecord": {
        "signature.primary_type": "this.type", "primary_id": "this.id", "primary_initial_position": "this.initial_position",
        "primary_initial_time": "this.initial_time", "primary_mass": "this.mass", "primary_momentum": "this.momentum",
        "primary_helicity": "this.helicity", "interaction_vertex": {"this.initial_position", "this.length", "this.direction"},
        "interaction_time": "this.interaction_time"},
}
# fields every view must leave alone
ALONE = {
    DC + "PrimaryDistributionRecord": ["target_id", "target_mass", "target_helicity", "secondary_ids", "secondary_masses", "secondary_momenta", "secondary_helicities", "secondary_times", "signature.target_type", "signature.secondary_types"],
    DC + "SecondaryParticleRecord": ["primary_id", "primary_mass", "primary_momentum", "primary_helicity", "primary_initial_position", "primary_initial_time", "target_id", "target_mass", "target_helicity", "interaction_vertex", "interaction_time", "signature"],
    DC + "CrossSectionDistributionRecord": ["primary_id", "primary_mass", "primary_momentum", "primary_helicity", "primary_initial_position", "primary_initial_time", "interaction_vertex", "signature"],
    DC + "SecondaryDistributionRecord": ["target_id", "target_mass", "target_helicity", "secondary_ids", "secondary_masses", "secondary_momenta", "secondary_helicities", "secondary_times", "signature.target_type", "signature.secondary_types"],
}
CONSTRUCT = {
    (DC + "CrossSectionDistributionRecord", 1): {
        "signature": "p0.signature", "primary_id": "p0.primary_id", "primary_type": "p0.signature.primary_type",
        "primary_initial_position": "p0.primary_initial_position", "primary_mass": "p0.primary_mass", "primary_momentum": "p0.primary_momentum",
        "primary_helicity": "p0.primary_helicity", "interaction_vertex": "p0.interaction_vertex", "interaction_time": "p0.interaction_time",
        "target_id": "p0.target_id", "target_type": "p0.signature.target_type", "target_mass": "p0.target_mass", "target_helicity": "p0.target_helicity"},
    (DC + "SecondaryParticleRecord", 2): {
        "secondary_index": "p1", "id": "p0.secondary_ids.[p1]", "type": "p0.signature.secondary_types.[p1]",
        "initial_position": "p0.interaction_vertex", "initial_time": "p0.interaction_time"},
    (DC + "SecondaryDistributionRecord", 1): {
        "id": "p0.primary_id", "type": "p0.signature.primary_type", "mass": "p0.primary_mass", "momentum": "p0.primary_momentum",
        "direction": {"p0.primary_momentum"}, "helicity": "p0.primary_helicity",
        "initial_position": "p0.primary_initial_position", "initial_time": "p0.primary_initial_time"},
    (DC + "SecondaryDistributionRecord", 2): {
        "secondary_index": "p1", "id": "p0.secondary_ids.[p1]", "type": "p0.signature.secondary_types.[p1]", "mass": "p0.secondary_masses.[p1]",
        "momentum": "p0.secondary_momenta.[p1]", "direction": {"p0.secondary_momenta"}, "helicity": "p0.secondary_helicities.[p1]",
        "initial_position": "p0.interaction_vertex", "initial_time": "p0.secondary_times.[p1]"},
}
DAUGHTER = {
    "primary_id": "p0.secondary_ids.[p1]", "signature.primary_type": "p0.signature.secondary_types.[p1]", "primary_mass": "p0.secondary_masses.[p1]",
    "primary_momentum": "p0.secondary_momenta.[p1]", "primary_helicity": "p0.secondary_helicities.[p1]",
    "primary_initial_position": "p0.interaction_vertex", "primary_initial_time": "p0.secondary_times.[p1]"}
VIEW_OF_PARTICLE = {   # SetParticle / GetParticle
    "id": "id", "type": "type", "mass": "mass", "momentum": "momentum", "position": "initial_position", "length": "length", "helicity": "helicity"}


class HO(Interp):
    """hand-over: every flag reads true, ids read as valid, sizes as sufficient"""
    absent = ()
    writes = ()

    def h_write(self, path, v, node):
        if not self.writes:
            self.writes = []
        self.writes.append((path, v, node))

    def h_truth(self, v, node):
        if v.path and str(v.path[-1]).endswith("_set"):
            return v.path[-1] not in self.absent
        if v.path and ("id" in str(v.path[-1]).lower() or "ids" in "".join(map(str, v.path[-2:]))):
            return True
        return None

    def h_compare(self, op, a, b, node):
        # sizes suffice, energies are not zero
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if x.path and x.path[-1] == "#size" and o in (">", ">=", "!="):
                return V(None, const=True)
            if x.path and x.path[-1] == "#size" and o in ("<", "<=", "=="):
                return V(None, const=False)
        if op == "!=" and (a.const == 0 or b.const == 0):
            return V(None, const=True)
        if op == "==" and (a.const == 0 or b.const == 0):
            return V(None, const=False)
        return super().h_compare(op, a, b, node)

    def h_call(self, n, callee, obj, args):
        if callee.endswith("ParticleID::operator bool") or (n.get("fn") == "operator bool"):
            return V(None, const=True)
        if callee.endswith("ParticleID::GenerateID"):
            return V(("fresh-id",))
        return None

    def ixname(self, i):
        if i.path:
            return "[%s]" % dotted(i.path)
        return Interp.ixname(i)


def dotted(p):
    return ".".join(map(str, p))


def split(field):
    """field path; dots inside an index do not separate"""
    out, depth, cur = [], 0, ""
    for ch in field:
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        if ch == "." and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return tuple(out + [cur])


def lookup(it, root, field):
    """value at root.field; a whole-object value of a prefix is followed"""
    parts = split(field)
    base = root.loc if root.loc is not None else root.path
    p = base + parts
    sub = {k: v for k, v in it.st.store.items() if len(k) == len(p) + 1 and k[:len(p)] == p and str(k[-1])[1:-1].isdigit()}
    if sub:
        whole = it.st.store.get(p)
        n = max(int(k[-1][1:-1]) for k in sub) + 1
        el = [sub.get(p + ("[%d]" % i,)) or (V(whole.path + ("[%d]" % i,)) if whole is not None and whole.path else V(None)) for i in range(n)]
        return V(None, frozenset().union(*[v.deps for v in el]), elems=el)
    if p in it.st.store:
        return it.st.store[p]
    # an array written by constant index
    cand = [k for k in it.st.store if len(k) == len(p) and dotted(k) == dotted(p)]
    if cand:
        return it.st.store[cand[0]]
    for n in range(len(p) - 1, len(base) - 1, -1):
        if p[:n] in it.st.store:
            v = it.st.store[p[:n]]
            if v.path is not None:
                return V(v.path + p[n:])
            return V(None, v.deps)
    return None


def describe(v):
    if v is None:
        return "nothing"
    if v.path:
        return dotted(v.path)
    if v.elems:
        return "{" + ", ".join(describe(e) for e in v.elems) + "}"
    if v.const is not None:
        return repr(v.const)
    return "f(" + ", ".join(sorted({dotted(d) for d in v.deps})) + ")"


def matches(v, want):
    if v is None:
        return False
    if isinstance(want, set):
        roots = set()
        for d in v.deps:
            ds = dotted(d)
            m = [w for w in want if ds == w or ds.startswith(w + ".")]
            if not m:
                return False
            roots.add(m[0])
        return roots == want
    if isinstance(want, list):
        if v.elems is None or len(v.elems) != len(want):
            return False
        return all(matches(e, w) for e, w in zip(v.elems, want))
    return v.path is not None and dotted(v.path) == want


def hand_over(ctx, F, fn, this, args, root, want, what, alone=(), every=False):
    def make():
        return HO(F, fn.get("cls"))

    def run(it):
        try:
            r = it.call_function(fn, this, [a.clone() for a in args])
            return it, r, "ok"
        except Thrown:
            return it, None, "throw"
    try:
        rs = HO.explore(make, run, limit=512)
    except TooComplex as e:
        ctx.require(False, "%s: %s" % (what, e))
    oks = [(it, r) for it, r, oc in rs if oc == "ok"]
    ctx.require(bool(oks), "%s never completes" % what)
    ctx.count("functions")
    for it, r in oks:
        rt = root if root is not None else r
        for field, w in want.items():
            v = lookup(it, rt, field)
            ctx.count("fields")
            if isinstance(w, tuple):
                base = rt.loc if rt.loc is not None else rt.path
                vs = [x for k, x in it.st.store.items() if k[:len(base) + 1] == base + (field,)]
                good = vs and all(dotted(d).startswith(w[1]) for x in vs for d in x.deps) and any(x.deps for x in vs)
                w = w[1]
            else:
                good = matches(v, w)
            if good:
                ctx.ok("%s: %s comes from %s" % (what, field, w if not isinstance(w, set) else sorted(w)))
            else:
                ctx.violate("%s:%s" % (what, field), F.where(fn), "%s fills %s from %s instead of %s" % (what, field, describe(v), sorted(w) if isinstance(w, set) else w))
        base = rt.loc if rt.loc is not None else rt.path
        for path, v, node in it.writes or ():
            # what is written on the way there comes from the same place
            if base and path and path[:len(base)] == base:
                w = want.get(dotted(path[len(base):]))
                if isinstance(w, str) and not matches(v, w) and (every or v.path or v.deps):
                    ctx.violate("%s:%s:on the way" % (what, dotted(path[len(base):])), F.where(fn, (node or {}).get("l")), "%s can leave %s filled from %s instead of %s" % (what, dotted(path[len(base):]), describe(v), w))
        for field in alone:
            v = lookup(it, rt, field)
            ctx.count("fields")
            base = rt.loc if rt.loc is not None else rt.path
            under = [k for k in it.st.store if k[:len(base) + len(split(field))] == base + split(field)]
            if v is None and not under:
                ctx.ok("%s leaves %s alone" % (what, field))
            else:
                ctx.violate("%s:writes:%s" % (what, field), F.where(fn), "%s changes %s, which is not its to change" % (what, field))


def run_handover(ctx):
    F = ctx.F
    finalised(ctx, F)
    rec = V(("p0",))
    for cls, want in sorted(FINALIZE.items()):
        ctx.require(cls in F.classes, "%s is gone" % cls)
        fns = [f for f in F.methods(cls, "Finalize") if len(f["params"]) == 1]
        ctx.require(fns, "%s::Finalize is gone" % cls)
        for fn in fns:
            hand_over(ctx, F, fn, V(("this",)), [rec], rec, want, nm(cls) + "::Finalize", ALONE[cls])
    pd = F.methods(DC + "PrimaryDistributionRecord", "FinalizeAvailable")
    for fn in pd:
        want = {k: v for k, v in FINALIZE[DC + "PrimaryDistributionRecord"].items() if not k.startswith(("interaction_parameters", "primary_momentum"))}
        want["primary_momentum"] = FINALIZE[DC + "PrimaryDistributionRecord"]["primary_momentum"]
        hand_over(ctx, F, fn, V(("this",)), [rec], rec, want, "dataclasses::PrimaryDistributionRecord::FinalizeAvailable", ALONE[DC + "PrimaryDistributionRecord"], every=True)
    not_given(ctx, F)
    covered(ctx, F)
    for (cls, n), want in sorted(CONSTRUCT.items()):
        fns = [f for f in F.by_cls.get(cls, []) if f.get("ctor") == "other" and len(f["params"]) == n]
        ctx.require(fns, "the constructor of %s with %d arguments is gone" % (cls, n))
        for fn in fns:
            hand_over(ctx, F, fn, V(("this",)), params_of(fn), V(("this",)), want, "%s(%d args)" % (nm(cls), n))
    fns = F.methods(DC + "SecondaryDistributionRecord", "CreateSecondaryRecord")
    ctx.require(fns, "CreateSecondaryRecord is gone")
    for fn in fns:
        hand_over(ctx, F, fn, None, params_of(fn), None, DAUGHTER, "dataclasses::SecondaryDistributionRecord::CreateSecondaryRecord",
                  ["target_id", "target_mass", "target_helicity", "signature.target_type", "signature.secondary_types"])
    for cls in (DC + "PrimaryDistributionRecord", DC + "SecondaryParticleRecord"):
        prim = cls.endswith("PrimaryDistributionRecord")
        sp = F.methods(cls, "SetParticle")
        gp = F.methods(cls, "GetParticle")
        ctx.require(sp and gp, "SetParticle/GetParticle of %s are gone" % cls)
        want = {"mass": "p0.mass", "energy": "p0.momentum.[0]", "momentum": ["p0.momentum.[1]", "p0.momentum.[2]", "p0.momentum.[3]"], "helicity": "p0.helicity"}
        if prim:
            want.update({"initial_position": "p0.position", "length": "p0.length"})
        for fn in sp:
            hand_over_set(ctx, F, fn, want, nm(cls) + "::SetParticle")
        want = {"id": "this.id", "type": "this.type", "mass": "this.mass", "position": "this.initial_position", "helicity": "this.helicity",
                "momentum": ["this.energy", "this.momentum.[0]", "this.momentum.[1]", "this.momentum.[2]"]}
        if prim:
            want["length"] = "this.length"
        for fn in gp:
            hand_over(ctx, F, fn, V(("this",)), [], None, want, nm(cls) + "::GetParticle")


# quantities a view may lack: the interaction record then keeps what it has
NOT_GIVEN = [(DC + "CrossSectionDistributionRecord", "interaction_time_set", "interaction_time")]


def not_given(ctx, F):
    for cls, flag, field in NOT_GIVEN:
        for fn in F.methods(cls, "Finalize"):
            class HN(HO):
                absent = (flag,)

            def run(it):
                try:
                    it.call_function(fn, V(("this",)), [V(("p0",))])
                    return it
                except Thrown:
                    return None
            for it in HN.explore(lambda: HN(F, cls), run, limit=512):
                if it is None:
                    continue
                ctx.count("fields")
                vs = [v for path, v, node in it.writes or () if path[:2] == ("p0", field)]
                if any(not (v.path and dotted(v.path) == "p0." + field) for v in vs):
                    ctx.violate("%s::Finalize:%s not given" % (nm(cls), field), F.where(fn), "%s::Finalize replaces %s although none was given" % (nm(cls), field))
                else:
                    ctx.ok("%s::Finalize leaves %s alone when none was given" % (nm(cls), field))


def covered(ctx, F):
    """every secondary gets a record, of its own index, and every secondary record is finalised"""
    from ..loops import partial
    cls = DC + "CrossSectionDistributionRecord"
    fns = [f for f in F.methods(cls, "Finalize")] + [f for f in F.by_cls.get(cls, []) if f.get("ctor") == "other" and len(f["params"]) == 1]
    for fn in fns:
        for n in walk(fn.get("body")):
            if n["k"] in ("for", "rfor"):
                ctx.count("loops")
                why = partial(n, fn)
                if why:
                    ctx.violate("%s:loop %s" % (nm(fn["qn"]), why), F.where(fn, n.get("l")), "%s leaves out secondaries: its loop %s" % (fn["qn"], why))
                else:
                    ctx.ok("%s: the loop visits every secondary" % nm(fn["qn"]))
            ix = None
            if n["k"] == "mcall" and n.get("fn") == "emplace_back" and len(n.get("a", [])) == 2:
                ix = n["a"][1]
            elif n["k"] == "ctor" and n.get("cls", n.get("t", "")).endswith("SecondaryParticleRecord") and len(n.get("a", [])) == 2:
                ix = n["a"][1]
            if ix is not None:
                ctx.count("indices")
                odd = [m for m in walk(ix) if m["k"] in ("cond", "int") or m["k"] == "call" and (m.get("fn") or "").split("::")[-1] in ("min", "max")]
                if odd:
                    ctx.violate("%s:index" % nm(fn["qn"]), F.where(fn, n.get("l")), "%s makes a secondary's record with an index other than the secondary's own" % fn["qn"])
                else:
                    ctx.ok("%s: each record has the index of its secondary" % nm(fn["qn"]))


def hand_over_set(ctx, F, fn, want, what):
    """SetParticle: the id/type checks pass"""
    class HS(HO):
        def compare_objects(self, op, a, b, n):
            if op in ("==", "!="):
                return V(None, const=(op == "=="))
            return super().compare_objects(op, a, b, n)

        def h_compare(self, op, a, b, n):
            if op in ("==", "!="):
                return V(None, const=(op == "=="))
            return super().h_compare(op, a, b, n)
    oks = []

    def run(it):
        try:
            r = it.call_function(fn, V(("this",)), params_of(fn))
            oks.append(it)
        except Thrown:
            pass
    HS.explore(lambda: HS(F, fn["cls"]), run, limit=64)
    ctx.require(bool(oks), "%s never completes" % what)
    ctx.count("functions")
    for it in oks:
        for field, w in want.items():
            v = lookup(it, V(("this",)), field)
            ctx.count("fields")
            if matches(v, w):
                ctx.ok("%s: %s comes from %s" % (what, field, w))
            else:
                ctx.violate("%s:%s" % (what, field), F.where(fn), "%s fills %s from %s instead of %s" % (what, field, describe(v), w))


# ---- what was sampled reaches the interaction record -----------------------------------------

RECORDS = ("PrimaryDistributionRecord", "CrossSectionDistributionRecord")


def finalised(ctx, F):
    """a distribution record made in a function is finalised on every way out of it that is not an exception"""
    from ..flow import Flow, Client, word

    def finaliser(fn, i, seen=()):
        """the function finalises what it gets as argument i"""
        if fn is None or fn.get("body") is None or i >= len(fn["params"]) or fn["usr"] in seen:
            return False
        pid = fn["params"][i]["id"]
        return any(hit(n, pid, seen + (fn["usr"],)) for n in walk(fn["body"]))

    def hit(n, vid, seen=()):
        if n["k"] == "mcall" and n.get("fn") in ("Finalize", "FinalizeAvailable") and (n.get("obj") or {}).get("k") == "ref" and n["obj"].get("id") == vid:
            return True
        if n["k"] in ("call", "mcall"):
            for j, a in enumerate(n.get("a", [])):
                if a["k"] == "ref" and a.get("id") == vid and finaliser(F.functions.get(n.get("usr")), j, seen):
                    return True
        return False

    class C(Client):
        def __init__(self, fn, ids):
            super().__init__(fn)
            self.ids = ids

        def declared(self, v, s):
            s = super().declared(v, s)
            return s | {("made", "v%s" % v["id"])} if v["id"] in self.ids else s

        def after(self, e, s):
            s = super().after(e, s)
            for i in self.ids:
                if e["k"] in ("call", "mcall") and hit(e, i):
                    s = s | {("final", "v%s" % i)}
            return s
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        if f.get("body") is None or "/test/" in f["file"] or "/pybindings/" in f["file"] or f["file"].endswith("InteractionRecord.cxx"):
            continue
        ids = {}
        for n in walk(f["body"]):
            if n["k"] == "decl":
                for v in n["vars"]:
                    t = v["t"].replace("const ", "").strip()
                    if t.split("::")[-1] in RECORDS and not t.endswith(("&", "*")):
                        ids[v["id"]] = v
        if not ids:
            continue
        made_from(ctx, F, f, ids)
        fl = Flow(f, C(f, set(ids)))
        fl.run()
        # scopes inside the function: a record that goes out of scope unfinished is found through the state at the exits
        for i, v in ids.items():
            ctx.count("sampled_records")
            w = "v%s" % i
            bad = [n for n, s in fl.exits if ("made", w) in s and ("final", w) not in s]
            if bad or not any(hit(n, i) for n in walk(f["body"])):
                n = next((b for b in bad if b is not None), None)
                ctx.violate("%s drops %s" % (nm(f["qn"]), v["n"]), F.where(f, (n or v).get("l")), "%s can return without having finalised %s: what was sampled does not reach the event" % (f["qn"], v["n"]))
            else:
                ctx.ok("%s finalises %s on every path" % (nm(f["qn"]), v["n"]))


def made_from(ctx, F, f, ids):
    """a record made from an interaction record is finalised into the same one"""
    src = {}
    for n in walk(f["body"]):
        if n["k"] == "decl":
            for v in n["vars"]:
                e = v.get("init")
                if v["id"] in ids and e is not None and e["k"] == "ctor" and len(e.get("a", [])) == 1 and e["a"][0]["k"] == "ref" and "InteractionRecord" in (e["a"][0].get("t") or ""):
                    src[v["id"]] = e["a"][0]
    for n in walk(f["body"]):
        if n["k"] == "mcall" and n.get("fn") == "Finalize" and (n.get("obj") or {}).get("k") == "ref" and n["obj"].get("id") in src and n.get("a") and n["a"][0]["k"] == "ref":
            s = src[n["obj"]["id"]]
            if (s.get("t") or "").startswith("const "):
                continue
            ctx.count("finalised_into")
            if n["a"][0].get("id") != s.get("id"):
                ctx.violate("%s finalises elsewhere" % nm(f["qn"]), F.where(f, n.get("l")), "%s finalises %s into %s, but it was made from %s" % (f["qn"], n["obj"]["n"], n["a"][0]["n"], s["n"]))
            else:
                ctx.ok("%s: finalised into the record it was made from" % nm(f["qn"]))
