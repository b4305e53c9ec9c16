"""What a distribution samples and what its density talks about."""
import re
from ..interp import Interp, V, Thrown, TooComplex, walk
from .serial import nm

ROOT = "siren::distributions::WeightableDistribution"
# what a setter of the primary record fixes
SETS = {"SetEnergy": {"energy"}, "SetKineticEnergy": {"kinetic energy"}, "SetMass": {"mass"}, "SetDirection": {"direction"},
        "SetThreeMomentum": {"energy", "direction"}, "SetFourMomentum": {"energy", "direction", "mass"},
        "SetInitialPosition": {"initial position"}, "SetInteractionVertex": {"vertex"}, "SetLength": {"vertex"},
        "SetHelicity": {"helicity"}, "SetInitialTime": {"time"}, "SetInteractionTime": {"time"},
        "SetPointOfClosestApproach": {"initial position"}, "SetInteractionParameter": {"parameters"}, "SetInteractionParameters": {"parameters"}}
FIELDS = {"primary_mass": "mass", "primary_helicity": "helicity", "primary_initial_position": "initial position",
          "interaction_vertex": "vertex", "primary_initial_time": "time", "interaction_time": "time", "interaction_parameters": "parameters"}
# members the sampler uses and the density need not: they steer the algorithm, not the result's law
STEERING = {"burnin": "length of the sampler's warm-up"}
# bounds that are not a <name>Min/<name>Max pair: class -> [(side, member)]
BOUNDS = {"siren::distributions::Cone": [("upper", "opening_angle")]}
# classes whose density is not restricted to the sampled region, with the reason
UNRESTRICTED = {
    "siren::distributions::IsotropicDirection": "every direction is sampled",
    "siren::distributions::PrimaryExternalDistribution": "the density of rows of a file is not defined; constant by convention",
    "siren::distributions::NormalizationConstant": "no sampler",
}


def quantity(dep):
    """the quantity of the event a dependency (access path) stands for"""
    if not dep or dep[0] != "rec" or len(dep) < 2:
        return None
    f = dep[1]
    if f == "primary_momentum":
        if len(dep) > 2 and dep[2] == "[0]":
            return "energy"
        if len(dep) > 2 and dep[2] in ("[1]", "[2]", "[3]"):
            return "direction"
        return "momentum"
    if f in FIELDS:
        return FIELDS[f]
    if f == "signature":
        return "type" if len(dep) > 2 and dep[2] == "primary_type" else "signature"
    return f


class Den(Interp):
    MAXDEPTH = 7
    MAXSTEPS = 30000

    def h_loop_iterations(self, n):
        return 1

    def truth(self, v, node):
        t = super().truth(v, node)
        if v.const is None:
            self.__dict__.setdefault("trace", []).append((v, t))
        return t

    def should_inline(self, fn, obj, args, node):
        if fn.get("ctor"):
            return (fn.get("cls") or "").startswith("siren::math::")
        c = fn.get("cls") or ""
        return not c or c.startswith(("siren::distributions::", "siren::math::"))

    def h_call(self, node, callee, obj, args):
        if obj is not None and obj.path == ("rec",) and (node.get("fn") or "") in SETS:
            self.__dict__.setdefault("sets", []).append((node["fn"], args[0] if args else None, node))
            return V(None)
        n = node.get("fn") or ""
        if n == "GetType" and obj is not None and obj.path == ("rec",) and not args:
            return self.st.store.get(("rec", "type")) or V(("rec", "type"), deps=frozenset([("rec", "type")]))
        if n in ("abs", "fabs") and len(args) == 1 and isinstance(args[0].const, (int, float)):
            return V(None, const=abs(args[0].const))
        return None

    def e_cast(self, n):
        return self.ev(n["e"])

    def h_compare(self, op, a, b, node):
        def boolean(v):
            return isinstance(v.const, bool) or v.neg is not None or isinstance(v.key, tuple) and v.key[:1] == ("cmp",)
        if op in ("==", "!=") and boolean(a) and boolean(b):
            return V(None, const=(self.truth(a, node) == self.truth(b, node)) == (op == "=="), deps=a.deps | b.deps)
        return super().h_compare(op, a, b, node)


def resolve(F, cls, name, nargs):
    for c in [cls] + F.bases(cls):
        for f in F.by_cls.get(c, []):
            if f["n"] == name and len(f["params"]) == nargs and f.get("body") is not None:
                return f
    return None


def zero(v):
    return v is not None and isinstance(v.const, (int, float)) and not isinstance(v.const, bool) and v.const == 0


def flip(op):
    return {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)


def neg(op):
    return {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]


def paths_in(k):
    """access paths inside a structural key"""
    if isinstance(k, tuple):
        if k and k[0] in ("rec", "this"):
            yield k
        else:
            for x in k:
                yield from paths_in(x)


def relation(v, t):
    """(lhs key, op, rhs key) the condition establishes, or None"""
    n = v
    while n.neg is not None:
        n, t = n.neg, not t
    k = n.key
    if isinstance(k, tuple) and len(k) == 4 and k[0] == "cmp" and k[1] in ("<", ">", "<=", ">=", "==", "!="):
        return (k[2], k[1] if t else neg(k[1]), k[3])
    return None


def is_member(k, m):
    return k == ("this", m)


def shifted(k, m):
    """arithmetic on the member and constants only"""
    return isinstance(k, tuple) and bool(k) and k[0] == "ar" and list(paths_in(k)) == [("this", m)]


def folded(k):
    """the sign of a quantity of the event is dropped (the absolute value of a difference is a distance)"""
    if not isinstance(k, tuple):
        return False
    if len(k) == 3 and k[0] == "call" and str(k[1]).split("::")[-1] in ("abs", "fabs") and isinstance(k[2], tuple) and k[2][:2] != ("ar", "-") \
            and any(p[0] == "rec" for p in paths_in(k[2])):
        return True
    return any(folded(x) for x in k)


def about_record(k, m):
    ps = list(paths_in(k))
    return any(p[0] == "rec" for p in ps) and not any(p[:2] == ("this", m) for p in ps)


def canon(v):
    if v is None:
        return None
    if v.const is not None:
        return ("c", v.const)
    return ("v", repr(v.vkey()) if hasattr(v, "vkey") else repr(v.key or v.path), tuple(sorted(map(repr, v.deps))))


def relevant(results):
    """drop from each path the conditions whose outcome makes no difference to the result"""
    rows = []
    for it, r in results:
        rows.append(([(v, t) for v, t in it.__dict__.get("trace", [])], it, r))

    def build(rows, i):
        """-> (canonical tree, [(kept conditions, it, r)])"""
        if all(len(tr) <= i for tr, _, _ in rows):
            return ("leaf", canon(rows[0][2])), [([], it, r) for _, it, r in rows]
        keys = {repr(condkey(tr[i][0])) if len(tr) > i else None for tr, _, _ in rows}
        sub = {}
        for row in rows:
            tr = row[0]
            sub.setdefault((repr(condkey(tr[i][0])), tr[i][1]) if len(tr) > i else None, []).append(row)
        if len(keys) > 1 or None in sub:
            # paths that diverge without a recorded condition: keep everything
            tree, out = [], []
            for k in sorted(sub, key=repr):
                t, o = build(sub[k], i + 1) if k is not None else (("leaf", canon(sub[k][0][2])), [([], it, r) for _, it, r in sub[k]])
                tree.append((k, t))
                for kept, it, r in o:
                    row = next(x for x in sub[k] if x[1] is it)
                    out.append((([row[0][i]] if k is not None else []) + kept, it, r))
            return ("any", tuple(tree)), out
        parts = {k: build(v, i + 1) for k, v in sub.items()}
        trees = {t for t, _ in parts.values()}
        drop = len(parts) == 2 and len(trees) == 1
        out = []
        for k, (t, o) in parts.items():
            for kept, it, r in o:
                row = next(x for x in sub[k] if x[1] is it)
                out.append(((kept if drop else [row[0][i]] + kept), it, r))
        if drop:
            return trees.pop(), out
        return ("if", tuple(sorted(((k, t) for k, (t, _) in parts.items()), key=repr))), out

    if not rows:
        return []
    return build(rows, 0)[1]


def condkey(v):
    return v.key or v.path or tuple(sorted(map(repr, v.deps)))


def guards(trace, side, m):
    """'yes' when a condition on the path keeps the event's quantity on the right side of member m,
    'wrong' when it keeps it on the wrong side, None when nothing relates the two"""
    res = None
    if any(any(d[0] == "rec" for d in v.deps) for v, _ in trace):
        # a local set to a constant under a test of the event, then compared with the member
        for v, t in trace:
            r = relation(v, t)
            if r and any(is_member(x, m) for x in (r[0], r[2])) and not any(d[0] == "rec" for d in v.deps):
                res = "yes"
    if res:
        return res
    for v, t in trace:
        if not any(d[:2] == ("this", m) for d in v.deps) or not any(d[0] == "rec" for d in v.deps):
            continue
        r = relation(v, t)
        if r is None:
            return "yes"
        a, op, b = r
        if is_member(b, m) and about_record(a, m):
            pass
        elif is_member(a, m) and about_record(b, m):
            op = flip(op)
        elif side != "point" and any(about_record(x, m) and shifted(y, m) for x, y in ((a, b), (b, a))):
            res = "moved"
            continue
        else:
            return "yes"        # related in a way whose direction is not judged
        if op == "==" or side == "point":
            return "yes"
        if (side == "lower" and op in (">", ">=")) or (side == "upper" and op in ("<", "<=")):
            if folded(a) or folded(b):
                res = "folded"
                continue
            return "yes"
        res = "wrong"
    return res


def energy_sides(trace):
    """is the event's energy bounded from below / from above on this path"""
    lo = hi = False
    for v, t in trace:
        if not any(quantity(d) in ("energy", "momentum") for d in v.deps):
            continue
        r = relation(v, t)
        if r is None:
            return True, True
        a, op, b = r
        if plain(b):
            a, op, b = b, flip(op), a
        if not plain(a):
            return True, True       # e.g. |1 - E/E0| < tolerance
        if op == "==":
            return True, True
        lo = lo or op in (">", ">=")
        hi = hi or op in ("<", "<=")
    return lo, hi


def plain(k):
    return isinstance(k, tuple) and bool(k) and k[0] == "rec"


def run(ctx):
    F = ctx.F
    classes = [c for c in sorted(F.classes) if ROOT in F.bases(c) and "/test" not in F.classes[c]["file"] and "/pybindings/" not in F.classes[c]["file"]
               and not nm(c).split("::")[-1].lower().startswith("py")]
    ctx.require(classes, "no distributions found")
    raw_arguments(ctx, F)
    for cls in classes:
        sample = resolve(F, cls, "Sample", 4)
        dens = resolve(F, cls, "GenerationProbability", 3)
        if sample is None or dens is None or F.classes[cls].get("abs"):
            continue
        if resolve(F, cls, "GenerationProbability", 3).get("cls") in (ROOT, "siren::distributions::PrimaryInjectionDistribution", "siren::distributions::SecondaryInjectionDistribution"):
            continue
        one(ctx, F, cls, sample, dens)


def evaluate(F, cls, fn, limit=600):
    def go(it):
        try:
            r = it.call_function(fn, V(("this",)), [V(("a%d" % i,)) for i in range(len(fn["params"]) - 1)] + [V(("rec",))])
        except Thrown:
            r = None
        return it, r
    return Den.explore(lambda: Den(F, cls), go, limit=limit)


def members(v, trace=()):
    out = set()
    for d in (v.deps if v is not None else ()):
        if d[0] == "this" and len(d) > 1:
            out.add(d[1])
    for e in (v.elems or []) if v is not None else []:
        out |= members(e)
    for c, _ in trace:
        out |= {d[1] for d in c.deps if d[0] == "this" and len(d) > 1}
    return out


def one(ctx, F, cls, sample, dens):
    short = nm(cls)
    try:
        S = evaluate(F, cls, sample)
    except TooComplex:
        S = []
    try:
        D = evaluate(F, cls, dens, 2048)
    except TooComplex:
        ctx.notes.append("%s: density has too many paths, not decided" % short)
        return
    ctx.count("distributions")
    ctx.count("paths", len(S) + len(D))
    sets, smem, points = set(), set(), []
    for it, r in S:
        point = set()
        for name, v, node in it.__dict__.get("sets", []):
            sets |= SETS[name]
            smem |= members(v, it.__dict__.get("trace", []))
            if v is not None and v.path is not None and len(v.path) == 2 and v.path[0] == "this":
                point.add(v.path[1])
        points.append(point)
    point = set.intersection(*points) if points else set()
    values = [(tr, r) for tr, it, r in relevant(D) if r is not None]
    nonzero = [(tr, r) for tr, r in values if not zero(r)]
    dmem, reads = set(), {}
    for tr, r in values:
        dmem |= members(r, tr)
        for v in [r] + [c for c, _ in tr]:
            for d in v.deps:
                q = quantity(d)
                if q:
                    reads.setdefault(q, d)
    positional = bool(sets & {"vertex", "initial position"}) or any(q in reads for q in ("vertex", "initial position"))

    # (a) the density is about what is sampled
    if sets and not positional:
        allowed = set(sets) | {"type"}
        if "direction" in sets and "energy" in sets:
            allowed.add("momentum")
        for q in sorted(reads):
            if q in allowed:
                ctx.ok("%s: density uses %s, which it samples" % (short, q))
            else:
                ctx.violate("%s reads %s" % (short, q), F.where(dens), "the density of %s depends on the event's %s, but its sampler sets %s" % (short, q, ", ".join(sorted(sets))))
    elif positional and cls not in UNRESTRICTED and nonzero:
        if any(q in reads for q in ("vertex", "initial position")):
            ctx.ok("%s: density uses the sampled position" % short)
        else:
            ctx.violate("%s ignores the position" % short, F.where(dens), "%s samples a position but its density does not depend on it" % short)

    # (b) what shapes the sampled value shapes the density
    fields = {f["n"]: f for f in F.fields(cls, True)}
    derived = derived_members(F, cls)
    if nonzero and cls not in UNRESTRICTED and not positional:
        for m in sorted(smem & set(fields)):
            if m in STEERING or fields[m].get("mut") or m in derived:
                continue
            if m in dmem:
                ctx.ok("%s: %s enters sampler and density" % (short, m))
            else:
                ctx.violate("%s density without %s" % (short, m), F.where(dens), "the sampler of %s uses %s, its density does not" % (short, m))

    # (c) zero outside the sampled range
    if cls in UNRESTRICTED:
        ctx.ok("%s: %s" % (short, UNRESTRICTED[cls]))
        return
    wanted = [("point", m) for m in sorted(point)]
    for m in sorted(fields):
        k = re.match(r"(.*?)(_?)(min)(_?)$", m, re.I)
        if k:
            for partner in (k.group(1) + k.group(2) + "Max", k.group(1) + k.group(2) + "max", k.group(1) + "_max", k.group(1) + "Max"):
                if partner in fields:
                    wanted += [("lower", m), ("upper", partner)]
                    break
    wanted += BOUNDS.get(cls, [])
    for side, m in wanted:
        if m not in fields:
            continue
        ctx.count("bounds")
        bad = None
        for tr, r in nonzero:
            g = guards(tr, side, m)
            if g != "yes":
                bad = g or "none"
                break
        if bad:
            what = {"lower": "below %s" % m, "upper": "above %s" % m, "point": "that differ from %s" % m}[side]
            ctx.violate("%s unbounded by %s" % (short, m), F.where(dens), "the density of %s can be non-zero for values %s, which its sampler never produces (%s)" % (
                short, what, "the comparison keeps the wrong side" if bad == "wrong" else "the comparison is with a multiple of it" if bad == "moved" else "the comparison is with an absolute value" if bad == "folded" else "no comparison of the event with it on that path"))
        else:
            ctx.ok("%s: zero outside %s" % (short, m))
    if sets == {"energy"} and nonzero:
        ctx.count("bounds")
        open_ = None
        for tr, r in nonzero:
            lo, hi = energy_sides(tr)
            if not (lo and hi):
                open_ = "above" if lo else "below" if hi else "above or below"
                break
        if open_:
            ctx.violate("%s unbounded energy" % short, F.where(dens), "the density of %s can be non-zero without the energy having been tested from %s" % (short, open_))
        else:
            ctx.ok("%s: energies are bounded on both sides" % short)
    if positional and nonzero:
        ctx.count("bounds")
        bad = [tr for tr, r in nonzero if not any(any(quantity(d) in ("vertex", "initial position") for d in v.deps) for v, _ in tr)]
        if bad:
            ctx.violate("%s unbounded" % short, F.where(dens), "the density of %s can be non-zero without the position having been tested" % short)
        else:
            ctx.ok("%s: zero outside the sampled region" % short)
    if "constant" and sets == {"helicity"}:
        consistent(ctx, F, cls, sample, dens)


def consistent(ctx, F, cls, sample, dens):
    """a sampled constant has non-zero density: run the density on what the sampler set, for the same particle type"""
    short = nm(cls)

    def go(it, kind):
        rec = V(("rec",))
        # the record's type is the interaction record's primary type
        for at in (("rec", "type"), ("rec", "signature", "primary_type")):
            it.st.store[at] = V(None, const=kind)
        it.call_function(sample, V(("this",)), [V(("a%d" % i,)) for i in range(len(sample["params"]) - 1)] + [rec])
        sets = it.__dict__.get("sets", [])
        for name, v, node in sets:
            if name == "SetHelicity":
                it.st.store[("rec", "primary_helicity")] = V(None, const=v.const, deps=v.deps) if v.const is not None else v
        r = it.call_function(dens, V(("this",)), [V(("a%d" % i,)) for i in range(len(dens["params"]) - 1)] + [rec])
        return it, r
    try:
        rs = [x for kind in (12, -12, 14, -14, 16, -16) for x in Den.explore(lambda: Den(F, cls), lambda it: go(it, kind), limit=600)]
    except (TooComplex, Thrown):
        ctx.notes.append("%s: not decided whether sampled values have a density" % short)
        return
    for it, r in rs:
        ctx.count("sampled_values")
        if zero(r):
            ctx.violate("%s sampled value has no density" % short, F.where(dens), "%s samples a value whose density it reports as zero" % short)
            return
    ctx.ok("%s: every sampled value has a density" % short)


def derived_members(F, cls):
    """members set while constructing from other members or from work done on arguments, not directly an argument"""
    out = set()
    for c in [cls] + F.bases(cls):
        direct = set()
        written = set()
        for f in F.by_cls.get(c, []):
            if not f.get("ctor"):
                # written by a helper: tables filled by Load/Compute functions
                for n in walk(f.get("body")):
                    if n["k"] == "bin" and n["op"] == "=" and n["lhs"].get("k") == "mem" and (n["lhs"].get("b") or {}).get("k") == "this":
                        written.add(n["lhs"]["n"])
                    if n["k"] == "opcall" and n.get("op") == "=" and n["a"][0].get("k") == "mem":
                        written.add(n["a"][0]["n"])
                continue
            params = {p["n"] for p in f["params"]}
            for i in f.get("inits", []):
                if "m" in i and any(n["k"] == "ref" and n.get("dk") == "p" for n in walk(i.get("e"))):
                    direct.add(i["m"])
            for n in walk(f.get("body")):
                if n["k"] == "opcall" and n.get("op") == "=" and n["a"][0].get("k") == "mem":
                    written.add(n["a"][0]["n"])
                if n["k"] == "bin" and n["op"] == "=" and n["lhs"].get("k") == "mem":
                    written.add(n["lhs"]["n"])
        out |= written - direct
    return out


def raw_arguments(ctx, F):
    """a constructor that normalises its copy of an argument does not go on with the raw one"""
    for f in F.functions.values():
        if not f.get("ctor") or f.get("body") is None or "/test" in f["file"] or "/pybindings/" in f["file"]:
            continue
        taken = {}
        for i in f.get("inits", []):
            e = i.get("e")
            while e is not None and (e.get("k") == "cast" or (e.get("k") == "ctor" and len(e.get("a", [])) == 1)):
                e = e["e"] if e["k"] == "cast" else e["a"][0]
            if "m" in i and e is not None and e.get("k") == "ref" and e.get("dk") == "p":
                taken[e.get("id")] = (i["m"], e["n"])
        if not taken:
            continue
        changed = {}
        for n in ordered(f["body"]):
            if n["k"] == "mcall" and n.get("fn") in ("normalize", "Normalize") and (n.get("obj") or {}).get("k") == "mem":
                for pid, (m, pn) in taken.items():
                    if n["obj"]["n"] == m:
                        changed[pid] = n
            elif n["k"] == "mcall" and n.get("fn") in ("normalize", "Normalize") and (n.get("obj") or {}).get("k") == "ref":
                changed.pop(n["obj"].get("id"), None)
            elif n["k"] == "ref" and n.get("id") in changed:
                m, pn = taken[n["id"]]
                ctx.violate("%s goes on with %s" % (f["qn"], pn), "%s:%s" % (f["file"], n.get("l")), "the constructor keeps the argument %s normalised in the member %s, but computes on with the argument as given" % (pn, m))
                changed.pop(n["id"])
        if changed or any(True for n in walk(f["body"]) if n["k"] == "mcall" and n.get("fn") == "normalize"):
            ctx.count("normalising_constructors")
            ctx.ok("%s: normalised arguments" % f["qn"])


def ordered(n):
    yield from walk(n)
