"""What total, differential and final-state quantities may depend on."""
from ..interp import Interp, V, Thrown, TooComplex, walk
from .serial import nm

ROOTS = ("siren::interactions::CrossSection", "siren::interactions::Decay")


class Fin(Interp):
    MAXDEPTH = 5
    MAXSTEPS = 20000

    def h_loop_iterations(self, n):
        return 1

    def truth(self, v, node):
        t = super().truth(v, node)
        if v.const is None:
            self.__dict__.setdefault("trace", []).append((v, t))
        return t

    def should_inline(self, fn, obj, args, node):
        c = fn.get("cls") or ""
        if fn.get("ctor") or throws_only(fn):
            return False
        return c == self.dyn_class or c in self.F.bases(self.dyn_class) or not c

    def h_div(self, num, den, node):
        self.__dict__.setdefault("divs", []).append((num, den, node, list(self.__dict__.get("trace", []))))
        return None


def throws_only(fn):
    """a body that says 'implement me elsewhere'"""
    c = [x for x in (fn.get("body") or {}).get("c", []) if x["k"] != "null"]
    return bool(c) and c[0]["k"] in ("throw", "expr") and any(n["k"] == "throw" for n in walk(c[0])) if c else False


def evaluate(F, cls, f, limit=900):
    def go(it):
        try:
            r = it.call_function(f, V(("this",)), [V(("rec",))] + [V(("a%d" % i,)) for i in range(1, len(f["params"]))])
        except Thrown:
            r = None
        return it, r
    return Fin.explore(lambda: Fin(F, cls), go, limit=limit)


def methods(F):
    for cls in sorted(F.classes):
        if not any(r in F.bases(cls) for r in ROOTS):
            continue
        if "/test" in F.classes[cls]["file"] or nm(cls).split("::")[-1].startswith("py"):
            continue
        for f in F.by_cls.get(cls, []):
            if f.get("body") is not None and f["params"] and "InteractionRecord" in f["params"][0]["t"]:
                yield cls, f


# ---- the final-state density ---------------------------------------------------------------

DIFF = {"DifferentialCrossSection": "TotalCrossSection", "DifferentialDecayWidth": "TotalDecayWidth"}
TOTALS = {"TotalCrossSection", "TotalDecayWidth", "TotalCrossSectionAllFinalStates", "TotalDecayWidthAllFinalStates"}
# classes with a density of their own (not differential over total), with the reason
OWN_DENSITY = {
    "siren::interactions::CharmMesonDecay": "density of the sampled q^2, normalised separately per hadron mass",
    "siren::interactions::CharmMesonDecay3Body": "density of the sampled q^2, normalised separately per hadron mass",
    "siren::interactions::MarleyCrossSection": "final states come from an external generator; constant by convention",
}
# the total cannot be zero where the differential is not, so testing the differential is enough
TOTAL_NEVER_ZERO = {
    "siren::interactions::DISFromSpline": "the total is a power of ten of a spline",
    "siren::interactions::QuarkDISFromSpline": "the total is a power of ten of a spline times a positive fragmentation fraction",
    "siren::interactions::DMesonELoss": "the differential is proportional to the total",
    "siren::interactions::DummyCrossSection": "the differential is proportional to the total",
}
# differential quantities that by design do not look at the final state's momenta
FLAT = {
    "siren::interactions::CharmMesonDecay": "width per channel only; the shape is in FinalStateProbability",
    "siren::interactions::CharmMesonDecay3Body": "width per channel only; the shape is in FinalStateProbability",
    "siren::interactions::DummyCrossSection": "flat by construction",
    "siren::interactions::ElectroweakDecay": "isotropic two-body decay",
    "siren::interactions::MarleyCrossSection": "final states come from an external generator",
    "siren::interactions::DarkNewsDecay": "implemented in Python",
}


class Ratio(Fin):
    def h_call(self, node, callee, obj, args):
        n = node.get("fn") or ""
        if (n in DIFF or n in TOTALS) and args:
            ks = tuple(self.vkey(a) for a in args)
            return V(None, frozenset([("q", n)]), key=("q", n, ks))
        if n in ("isfinite", "isnan", "isinf") and len(args) == 1:
            return V(None, args[0].deps, key=("fin", n, self.vkey(args[0])))
        return None


def run(ctx):
    F = ctx.F
    n = 0
    for cls, f in methods(F):
        if f["n"] == "FinalStateProbability":
            n += 1
            ratio(ctx, F, cls, f)
        elif f["n"] in ("TotalCrossSection", "TotalDecayWidth", "TotalCrossSectionAllFinalStates", "TotalDecayWidthAllFinalStates", "InteractionThreshold") and len(f["params"]) == 1:
            total(ctx, F, cls, f)
        elif f["n"] in DIFF and len(f["params"]) == 1:
            differential(ctx, F, cls, f)
    ctx.require(n >= 6, "the final-state densities were not found")


def ratio(ctx, F, cls, f):
    short = nm(cls)
    if cls in OWN_DENSITY:
        ctx.notes.append("%s: %s" % (short, OWN_DENSITY[cls]))
        return

    def go(it):
        try:
            r = it.call_function(f, V(("this",)), [V(("rec",))])
        except Thrown:
            r = None
        return it, r
    try:
        rs = Ratio.explore(lambda: Ratio(F, cls), go, limit=2000)
    except TooComplex:
        ctx.notes.append("%s: not decided" % short)
        return
    ctx.count("densities")
    for it, r in rs:
        if r is None or r.const is not None:
            continue
        ctx.count("paths")
        k = r.key
        if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "ar" and k[1] == "/"):
            if any(d[0] == "q" for d in r.deps):
                ctx.violate("%s density is no ratio" % short, F.where(f), "%s::FinalStateProbability returns something other than the differential over the total" % short)
            continue
        num, den = k[2], k[3]
        qn, qd = q_of(num), q_of(den)
        if qn is None or qd is None or qn[1] not in DIFF:
            ctx.violate("%s density is no ratio" % short, F.where(f), "%s::FinalStateProbability is not the differential of the record divided by its total" % short)
            return
        if qd[1] != DIFF[qn[1]]:
            ctx.violate("%s density over %s" % (short, qd[1]), F.where(f), "%s::FinalStateProbability divides %s by %s, which is not the total of the same final state" % (short, qn[1], qd[1]))
            return
        if qn[2] != qd[2]:
            ctx.violate("%s density of two records" % short, F.where(f), "%s::FinalStateProbability takes the differential and the total of different records" % short)
            return
        tested = {q for v, t in it.__dict__.get("trace", []) for q in qs_in(v)}
        need = [den] if cls not in TOTAL_NEVER_ZERO else [num]
        if not any(x in tested and any(excludes_zero(v, t, x) for v, t in it.__dict__.get("trace", []) if x in qs_in(v)) for x in need):
            ctx.violate("%s density divides by zero" % short, F.where(f), "%s::FinalStateProbability can divide by a total that is zero" % short)
            return
    ctx.ok("%s: differential over total of the same record, guarded" % short)


def q_of(k):
    return k if isinstance(k, tuple) and k and k[0] == "q" else None


def excludes_zero(v, t, x):
    """the outcome t of the test v says that x is not zero; tests of a form not known here are given the benefit of the doubt"""
    if v.neg is not None:
        return excludes_zero(v.neg, not t, x)
    k = v.key
    if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "cmp"):
        return True
    op, a, b = k[1], k[2], k[3]
    if b == x:
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if a != x or not (isinstance(b, tuple) and len(b) == 2 and b[0] == "c" and isinstance(b[1], (int, float))):
        return True
    c = b[1]
    r = {"==": 0 == c, "!=": 0 != c, "<": 0 < c, ">": 0 > c, "<=": 0 <= c, ">=": 0 >= c}.get(op)
    return True if r is None else r != bool(t)


def qs_in(v):
    out = set()

    def rec(k):
        if isinstance(k, tuple):
            if k and k[0] == "q":
                out.add(k)
            else:
                for x in k:
                    rec(x)
    n = v
    while n is not None:
        rec(n.key)
        n = n.neg
    return out


def deps_of(F, cls, f):
    out = set()
    for it, r in evaluate(F, cls, f):
        if r is None:
            continue
        for v in [r] + [c for c, _ in it.__dict__.get("trace", [])]:
            out |= {d for d in v.deps if d[0] == "rec"}
    return out


def total(ctx, F, cls, f):
    short = nm(cls)
    try:
        d = deps_of(F, cls, f)
    except TooComplex:
        ctx.notes.append("%s::%s: not decided" % (short, f["n"]))
        return
    ctx.count("totals")
    bad = sorted(x for x in d if len(x) > 1 and x[1] in ("secondary_momenta", "secondary_helicities", "interaction_vertex"))
    if bad:
        ctx.violate("%s::%s reads %s" % (short, f["n"], bad[0][1]), F.where(f), "%s::%s depends on %s, so it differs between events that only differ in the sampled final state" % (short, f["n"], bad[0][1]))
    else:
        ctx.ok("%s::%s does not depend on the sampled final state" % (short, f["n"]))


def differential(ctx, F, cls, f):
    short = nm(cls)
    if cls in FLAT:
        return
    try:
        d = deps_of(F, cls, f)
    except TooComplex:
        ctx.notes.append("%s::%s: not decided" % (short, f["n"]))
        return
    ctx.count("differentials")
    if any(len(x) > 1 and x[1] in ("secondary_momenta", "interaction_parameters") for x in d):
        ctx.ok("%s::%s looks at the final state" % (short, f["n"]))
    else:
        ctx.violate("%s::%s ignores the final state" % (short, f["n"]), F.where(f), "%s::%s does not depend on the momenta of the final state it is the density of" % (short, f["n"]))
