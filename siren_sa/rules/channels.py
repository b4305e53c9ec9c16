"""C24: the final states a model offers conserve charge and lepton number, are offered once and are accepted by the model itself."""
from ..consteval import Eval, Vec, Obj, Map, U, Throw, Budget, known

BASE = "siren::interactions::"
NUS = (12, -12, 14, -14, 16, -16)


def charge3(p, names):
    """three times the electric charge from the Monte Carlo numbering scheme, None if the number does not tell"""
    a = abs(p)
    s = 1 if p > 0 else -1
    if a > 2000000000:
        return 0 if p == names.get("Decay") else None
    if 1000000000 <= a:
        return s * 3 * ((a // 10000) % 1000)
    if a in (1, 3, 5, 7):
        return -s
    if a in (2, 4, 6, 8):
        return 2 * s
    if a in (11, 13, 15, 17):
        return -3 * s
    if a in (12, 14, 16, 18, 21, 22, 23, 25):
        return 0
    if a == 24:
        return 3 * s
    if 5900 <= a < 6000:
        return 0            # light and heavy neutral leptons, dark photons and the like
    q3, q2, q1 = (a // 10) % 10, (a // 100) % 10, (a // 1000) % 10
    ch = lambda q: 2 if q % 2 == 0 else -1
    if a in (130, 310):
        return 0
    if a < 100 or q3 == 0 or q2 == 0:
        return None
    if q1 == 0:
        # meson: the heavier quark, with the sign the scheme gives it
        c = ch(q2) - ch(q3)
        return s * c if q2 % 2 == 0 else -s * c
    return s * (ch(q1) + ch(q2) + ch(q3))


def lepton(p):
    """(electron, muon, tau number) or None where the number does not tell the family; second: total"""
    a, s = abs(p), (1 if p > 0 else -1)
    if a in (11, 12):
        return (s, 0, 0), s
    if a in (13, 14):
        return (0, s, 0), s
    if a in (15, 16):
        return (0, 0, s), s
    if a in (5910, 5914):
        return None, s
    if 5900 <= a < 6000:
        return None, None
    return (0, 0, 0), 0


def baryon3(p):
    a, s = abs(p), (1 if p > 0 else -1)
    if a <= 8 and a > 0:
        return s
    if a < 100:
        return 0
    if 5900 <= a < 6000:
        return 0
    if a >= 1000000000:
        return None
    return 3 * s if (a // 1000) % 10 and a < 10000 else 0


class Asked(Eval):
    """targets that come out of tables: a proton and a neutron stand for them"""

    def call(self, fn, this, args):
        r = super().call(fn, this, args)
        if fn["n"] == "GetPossibleTargets" and not fn["params"] and (not isinstance(r, Vec) or r.open or not r.xs):
            return Vec([2112, 2212])
        return r


def sigs_of(v):
    """[(primary, target, (secondaries))] or None where the value is not known"""
    if not isinstance(v, Vec) or v.open:
        return None
    out = []
    for s in v.xs:
        if not isinstance(s, Obj) or not {"primary_type", "target_type", "secondary_types"} <= set(s.f):
            return None
        sec = s.f["secondary_types"]
        out.append((s.f["primary_type"], s.f["target_type"], tuple(sec.xs) if isinstance(sec, Vec) and not sec.open else None))
    return out


class Model:
    def __init__(self, F, cls, label, fields, kind):
        self.F, self.cls, self.label, self.fields = F, cls, label, fields
        self.ctor = None
        self.named = {f["n"] for f in F.fields(cls, True) if f.get("init") is not None}
        if kind == "decay":
            cs = [g for g in F.functions.values() if g.get("cls") == cls and g.get("ctor") == "other" and g.get("body") is not None and
                  not (len(g["params"]) == 1 and cls.split("::")[-1] in g["params"][0]["t"])]
            self.ctor = min(cs, key=lambda g: (len(g["params"]), g["l"])) if cs else None

    def construct(self, ev, o):
        """what a constructor leaves, whatever its arguments"""
        env = {p["id"]: U for p in self.ctor["params"]}
        saved, st = ev.envs, ev.this
        ev.envs, ev.this = [env], o
        try:
            for i in self.ctor.get("inits") or []:
                if i.get("w") and i.get("m") and i.get("e") is not None and i["m"] in o.f:
                    v = ev.ev(i["e"])
                    # the parents asked for: those the class names itself
                    if v is not U and not (isinstance(v, (Vec, Map)) and v.open) or i["m"] not in self.named:
                        o.f[i["m"]] = v
        finally:
            ev.envs, ev.this = saved, st
        try:
            ev.call(self.ctor, o, [U for _ in self.ctor["params"]])
        except Throw:
            ev.refused = True       # there is no such object
            raise

    def obj(self, ev):
        o = ev.make(self.cls)
        if self.ctor is not None:
            self.construct(ev, o)
        o.f.update({k: (Vec(v, True) if isinstance(v, (list, tuple, set)) else v) for k, v in self.fields.items()})
        init = [g for g in self.F.methods(self.cls, "InitializeSignatures") if g.get("body") is not None]
        if init and any("signatures_" == f["n"] for f in self.F.fields(self.cls, True)):
            ev.call(init[0], o, [])
        return o

    def ask(self, name, args, nparams):
        g = [g for g in self.F.methods(self.cls, name) if g.get("body") is not None and len(g["params"]) == nparams]
        if not g:
            return None
        try:
            rs = Asked.explore(self.F, lambda ev: ev.call(g[0], self.obj(ev), list(args)), limit=32)
        except Budget:
            return None
        return g[0], [r for r, ev in rs if not getattr(ev, "refused", False)]


def models(F):
    for c in sorted(F.classes):
        if not c.startswith(BASE) or c.split("::")[-1].startswith("py") or "Py" in c.split("::")[-1][:2]:
            continue
        bs = set(F.bases(c))
        kind = "decay" if BASE + "Decay" in bs else "xs" if BASE + "CrossSection" in bs else None
        if kind is None or F.classes[c].get("abstract"):
            continue
        if not any(g.get("body") is not None for g in F.methods(c, "GetPossibleSignatures")):
            continue
        fs = {f["n"]: f for f in F.fields(c, True)}
        fields = {}
        if kind == "xs":
            p = next((n for n in ("primary_types_", "primary_types") if n in fs), None)
            t = next((n for n in ("target_types_", "target_types") if n in fs), None)
            if p and fs[p].get("init") is None:
                fields[p] = sorted(NUS)
            if t and fs[t].get("init") is None:
                fields[t] = [2112, 2212]
        its = [1, 2, 3] if "interaction_type_" in fs else [None]
        for it in its:
            d = dict(fields)
            if it is not None:
                d["interaction_type_"] = it
            yield kind, Model(F, c, c.split("::")[-1] + ("" if it is None else " (type %d)" % it), d, kind)


def run(ctx):
    F = ctx.F
    names = {n: int(v) for n, v in (F.enums.get("siren::dataclasses::ParticleType") or {}).get("c", [])}
    rev = {}
    for k, v in names.items():
        rev.setdefault(v, k)
    nm = lambda p: rev.get(p, str(p))
    show = lambda s: "%s %s -> %s" % (nm(s[0]), nm(s[1]), " ".join(nm(x) for x in (s[2] or ())))
    seen_models = 0
    for kind, M in models(F):
        r = M.ask("GetPossibleSignatures", [], 0)
        if r is None:
            continue
        f, res = r
        where = "%s:%s %s" % (f["file"], f["l"], f["qn"])
        lists = [sigs_of(v) for v in res if v is not Throw]
        lists = [l for l in lists if l is not None]
        if not lists or len(lists) != len(res) or any(x is U or y is U or z is None for l in lists for x, y, z in l):
            bad = [s for l in lists for s in l if s[2] is not None and s[0] is not U and any(x is U for x in s[2])]
            if bad and len(lists) == len(res) == 1 and kind == "decay":
                ctx.violate("%s unset secondary" % M.label, where, "offers a final state with a secondary nobody set: %s -> %s" % (
                    nm(bad[0][0]), " ".join("?" if x is U else nm(x) for x in bad[0][2])))
            else:
                ctx.notes.append("%s: the offered final states are not constants of the source" % M.label)
            continue
        if not any(lists):
            continue
        seen_models += 1
        ctx.count("models")
        whole = lists[0]
        for s in whole:
            ctx.count("channels")
            p, t, sec = s
            if any(x is U for x in sec):
                ctx.violate("%s %s unset secondary" % (M.label, nm(p)), where, "offers a final state with a secondary nobody set: %s" % " ".join(
                    "?" if x is U else nm(x) for x in sec))
                continue
            why = judge(s, names, kind)
            if why:
                ctx.violate("%s: %s" % (M.label, show(s)), where, "%s: offers %s, which %s" % (M.label, show(s), why))
            else:
                ctx.ok("%s: %s" % (M.label, show(s)))
        dup = sorted({s for s in whole if whole.count(s) > 1}, key=str)
        for s in dup:
            ctx.violate("%s twice: %s" % (M.label, show(s)), where, "%s offers %s more than once: its rate is counted as often" % (M.label, show(s)))
        parents(ctx, F, M, kind, whole, where, nm, show)
        if kind == "decay":
            ws = widths(ctx, F, M, [s for s in whole if U not in s[2]], nm, show)
            mirror(ctx, M, [s for s in whole if U not in s[2]], ws, set(rev), where, names, show)
    ctx.require(seen_models >= 3, "only %d models whose final states are constants of the source" % seen_models)


def judge(s, names, kind):
    p, t, sec = s
    if kind == "decay" and t != names.get("Decay"):
        return "does not have the decay marker as its target"
    if not sec:
        return "has no secondaries"
    ins = [p] if kind == "decay" else [p, t]
    cs = [charge3(x, names) for x in ins + list(sec)]
    if None not in cs:
        if sum(cs[:len(ins)]) != sum(cs[len(ins):]):
            return "does not conserve electric charge (%g -> %g)" % (sum(cs[:len(ins)]) / 3., sum(cs[len(ins):]) / 3.)
    ls = [lepton(x) for x in ins + list(sec)]
    if all(x[0] is not None for x in ls):
        a = [sum(x[0][i] for x in ls[:len(ins)]) for i in range(3)]
        b = [sum(x[0][i] for x in ls[len(ins):]) for i in range(3)]
        # tagging a lepton's energy as hadronic is a documented interaction type of its own
        if a != b and not all(x == names.get("Hadrons") for x in sec):
            return "does not conserve the lepton family numbers (%s -> %s)" % (a, b)
    elif all(x[1] is not None for x in ls):
        a, b = sum(x[1] for x in ls[:len(ins)]), sum(x[1] for x in ls[len(ins):])
        if a != b:
            return "does not conserve lepton number (%d -> %d)" % (a, b)
    bs = [baryon3(x) for x in ins + list(sec)]
    if None not in bs and names.get("Hadrons") not in sec and sum(bs[:len(ins)]) != sum(bs[len(ins):]):
        return "does not conserve baryon number"
    return None


def parents(ctx, F, M, kind, whole, where, nm, show):
    """what is offered for given parents is what the whole list holds for them, and nothing for others"""
    one = kind == "decay"
    name = "GetPossibleSignaturesFromParent" if one else "GetPossibleSignaturesFromParents"
    keys = sorted({(s[0],) if one else (s[0], s[1]) for s in whole}, key=str)
    foreign = [(-15,), (2212,)] if one else [(2212, 2212), (22, keys[0][1]), (keys[0][0], 13)]
    for k in keys + [x for x in foreign if x not in keys]:
        r = M.ask(name, k, len(k))
        if r is None:
            return
        f, res = r
        vs = [sigs_of(v) for v in res if v is not Throw]
        if any(v is None for v in vs) or (len(vs) > 1):
            ctx.notes.append("%s: %s depends on more than the parents" % (M.label, name))
            return
        got = sorted(vs[0], key=str) if vs else []
        want = sorted([s for s in whole if (s[0],) == k or (s[0], s[1]) == k], key=str)
        at = "%s:%s %s" % (f["file"], f["l"], f["qn"])
        who = " ".join(nm(x) for x in k)
        if got != want:
            extra = [s for s in got if s not in want]
            miss = [s for s in want if s not in got]
            ctx.violate("%s parents %s" % (M.label, who), at, "%s, asked for %s, %s" % (
                M.label, who, "offers %s, which its own list does not hold" % show2(extra[0], nm) if extra else "leaves out %s" % show2(miss[0], nm) if miss else
                "offers a final state more than once"))
        else:
            ctx.ok("%s: %s for %s agrees with the whole list" % (M.label, name, who))


def show2(s, nm):
    return "%s -> %s" % (nm(s[0]), " ".join("?" if x is U else nm(x) for x in (s[2] or ())))


def widths(ctx, F, M, whole, nm, show):
    g = [g for g in F.methods(M.cls, "TotalDecayWidth") if g.get("body") is not None and len(g["params"]) == 1 and "InteractionRecord" in g["params"][0]["t"]]
    out = {}
    if not g:
        return out
    g = g[0]
    for s in whole:
        def go(ev):
            o = M.obj(ev)
            rec = ev.make("siren::dataclasses::InteractionRecord")
            sig = ev.make("siren::dataclasses::InteractionSignature")
            sig.f.update(primary_type=s[0], target_type=s[1], secondary_types=Vec(s[2]))
            rec.f = {k: U for k in rec.f}
            rec.f["signature"] = sig
            return ev.call(g, o, [rec])
        try:
            rs = Asked.explore(F, go, limit=48)
        except Budget:
            ctx.count("width_undecided")
            continue
        ctx.count("widths")
        vals = [r for r, ev in rs if not getattr(ev, "refused", False)]
        if not vals:
            continue
        out[s] = (g, vals)
        if all(v is Throw for v in vals):
            ctx.violate("%s width of %s" % (M.label, show(s)), "%s:%s %s" % (g["file"], g["l"], g["qn"]), "throws for %s, which the model offers" % show(s))
        elif all(v is Throw or (isinstance(v, (int, float)) and not isinstance(v, bool) and v == 0) for v in vals):
            ctx.violate("%s width of %s" % (M.label, show(s)), "%s:%s %s" % (g["file"], g["l"], g["qn"]), "is zero for %s, which the model offers" % show(s))
        else:
            # a local of the width that no branch set for this state
            sets = [ev.unset for r, ev in rs if not getattr(ev, "refused", False) and (r is U or r is not Throw and r != 0)]
            common = set.intersection(*sets) if sets else set()
            if common:
                ctx.violate("%s width of %s" % (M.label, show(s)), "%s:%s %s" % (g["file"], g["l"], g["qn"]), "the width of %s, which the model offers, is computed from %s, which nothing sets for it" % (
                    show(s), " / ".join(sorted(common))))
            else:
                ctx.ok("%s accepts %s" % (M.label, show(s)))
    return out


def mirror(ctx, M, whole, ws, nums, where, names, show):
    """a particle and its antiparticle have charge-conjugate final states, of equal width where it is a constant"""
    bar = lambda p: -p if -p in nums else p
    norm = lambda s: (s[0], tuple(sorted(s[2])))
    by = {norm(s): s for s in whole}
    parents = {s[0] for s in whole}
    for s in whole:
        if bar(s[0]) == s[0] or bar(s[0]) not in parents:
            continue
        k = (bar(s[0]), tuple(sorted(bar(x) for x in s[2])))
        if k not in by:
            ctx.violate("%s mirror of %s" % (M.label, show(s)), where, "%s offers %s but not the charge-conjugate state for the antiparticle" % (M.label, show(s)))
            continue
        ctx.ok("%s: %s has its charge conjugate" % (M.label, show(s)))
        a, b = ws.get(s), ws.get(by[k])
        if s[0] < 0 or not a or not b:
            continue
        num = lambda vs: sorted({v for v in vs if isinstance(v, (int, float)) and not isinstance(v, bool)}) if all(v is not U for v in vs) else None
        x, y = num(a[1]), num(b[1])
        if x is None or y is None:
            continue
        ctx.count("equal_widths")
        if len(x) != len(y) or any(abs(i - j) > 1e-9 * max(abs(i), abs(j)) for i, j in zip(x, y)):
            ctx.violate("%s widths of %s" % (M.label, show(s)), "%s:%s %s" % (a[0]["file"], a[0]["l"], a[0]["qn"]),
                        "gives %s a width of %s and the charge-conjugate decay one of %s" % (show(s), x[-1:], y[-1:]))
