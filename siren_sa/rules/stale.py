"""C11: members computed from other members follow every change of those, and remembered results are looked up by
everything they depend on."""
from ..interp import Interp, V, Thrown, TooComplex, walk
from ..effects import Effects, root_of, aliases

# class, derived members (value or validity flag), members they are computed from.
# value: the derived member has to be written after the last change; flag: written somewhere on the path;
# entries: like value, and replacing an element also has to remove what the old element had added.
TABLE = [
    ("siren::distributions::TabulatedFluxDistribution", "value", ("integral",), ("energyMin", "energyMax", "fluxTable")),
    ("siren::distributions::TabulatedFluxDistribution", "value", ("inverseCdfTable",), ("energyMin", "energyMax", "fluxTable", "energy_nodes", "integral")),
    ("siren::distributions::TabulatedFluxDistribution", "flag", ("cdf_values",), ("energyMin", "energyMax", "fluxTable", "energy_nodes", "integral")),
    ("siren::distributions::TabulatedFluxDistribution", "flag", ("cdf_energy_nodes",), ("energyMin", "energyMax", "fluxTable", "energy_nodes", "integral")),
    ("siren::distributions::TabulatedFluxDistribution", "flag", ("pdf_values",), ("energy_nodes",)),
    ("siren::distributions::PrimaryExternalDistribution", "flag", ("keys",), ("filename",)),
    ("siren::distributions::PrimaryExternalDistribution", "flag", ("input_data",), ("filename",)),
    ("siren::distributions::PrimaryExternalDistribution", "flag", ("init_pos_set",), ("filename",)),
    ("siren::distributions::PrimaryExternalDistribution", "flag", ("vertex_set",), ("filename",)),
    ("siren::distributions::PrimaryExternalDistribution", "flag", ("mom_set",), ("filename",)),
    ("siren::distributions::Tabulated2DFluxDistribution", "value", ("integral",), ("energyMin", "energyMax", "cosZenithMin", "cosZenithMax", "fluxTable")),
    ("siren::distributions::Tabulated2DFluxDistribution", "flag", ("MH_density",), ("energyMin", "energyMax", "cosZenithMin", "cosZenithMax")),
    ("siren::geometry::Placement", "value", ("is_identity_",), ("position_", "quaternion_")),
    ("siren::geometry::Geometry", "flag", ("world_aabb_cached_",), ("placement_",)),
    ("siren::geometry::ExtrPoly", "value", ("planes_",), ("polygon_",)),
    ("siren::interactions::InteractionCollection", "value", ("target_types",), ("cross_sections",)),
    ("siren::interactions::InteractionCollection", "value", ("cross_sections_by_target",), ("cross_sections",)),
    ("siren::detector::DetectorModel", "flag", ("bvh_dirty_",), ("sectors_",)),
    ("siren::detector::MaterialModel", "value", ("material_radiation_length_",), ("material_components_",)),
    ("siren::detector::MaterialModel", "entries", ("material_components_by_id_",), ("material_components_",)),
    ("siren::detector::Path", "flag", ("set_intersections_",), ("detector_model_",)),
    ("siren::injection::PrimaryInjectionProcess", "flag", ("physical_distributions",), ("primary_injection_distributions",)),
    ("siren::injection::SecondaryInjectionProcess", "flag", ("physical_distributions",), ("secondary_injection_distributions",)),
    ("siren::injection::Process", "flag", ("primary_type",), ("interactions",)),
    ("siren::injection::Injector", "flag", ("primary_position_distribution",), ("primary_process",)),
    ("siren::injection::Injector", "flag", ("secondary_process_map",), ("secondary_processes",)),
    ("siren::injection::Injector", "flag", ("secondary_position_distributions",), ("secondary_processes",)),
    ("siren::injection::Injector", "flag", ("secondary_position_distribution_map",), ("secondary_processes",)),
    ("siren::injection::Weighter", "value", ("primary_process_weighters",), ("injectors", "detector_model", "primary_physical_process", "secondary_physical_processes")),
    ("siren::injection::Weighter", "value", ("secondary_process_weighter_maps",), ("injectors", "detector_model", "primary_physical_process", "secondary_physical_processes")),
    ("siren::detector::PolynomialDistribution1D", "value", ("Ipolynom_",), ("polynom_",)),
    ("siren::detector::PolynomialDistribution1D", "value", ("dpolynom_",), ("polynom_",)),
    ("siren::utilities::Indexer1D", "value", ("min_x",), ("points",)),
    ("siren::utilities::Indexer1D", "value", ("max_x",), ("points",)),
    ("siren::utilities::Indexer1D", "flag", ("is_regular",), ("points",)),
    ("siren::utilities::Interpolator1D", "value", ("indexer",), ("original_table",)),
    ("siren::utilities::Interpolator1D", "value", ("function",), ("original_table",)),
    ("siren::utilities::Interpolator1D", "value", ("zero_mask",), ("original_table",)),
    ("siren::utilities::Interpolator2D", "value", ("indexer_x",), ("original_table",)),
    ("siren::utilities::Interpolator2D", "value", ("indexer_y",), ("original_table",)),
    ("siren::utilities::Interpolator2D", "value", ("function",), ("original_table",)),
    ("siren::utilities::Interpolator2D", "value", ("zero_mask",), ("original_table",)),
]
MUTATORS = {"push_back", "emplace_back", "insert", "push_front", "emplace", "assign", "resize", "erase", "clear", "pop_back", "swap", "store",
            "exchange", "reset", "normalize", "pop_front", "sort", "splice", "remove", "unique", "merge"}


GROW = {"push_back", "emplace_back", "insert", "push_front", "emplace"}


class Ev(Interp):
    MAXDEPTH = 8
    MAXSTEPS = 6000

    def __init__(self, F, cls, eff):
        super().__init__(F, dyn_class=cls)
        self.events = []
        self.eff = eff
        self.mine = {cls} | set(F.bases(cls))

    def should_inline(self, fn, obj, args, node):
        # only the object's own steps matter
        return bool(fn.get("cls")) and not fn.get("static") and (obj is None or obj.path == ("this",)) and fn["cls"] in self.mine

    def h_write(self, path, v, node):
        if path[0] == "this" and len(path) > 1:
            vp = v.loc if getattr(v, "loc", None) is not None else getattr(v, "path", None)
            other = vp is not None and len(path) == len(vp) == 2 and vp[1] == path[1] and str(vp[0]).startswith("p")
            self.events.append((path[1], node.get("l") if isinstance(node, dict) else None, "copy" if other else "set" if len(path) == 2 else "part"))

    def touch(self, v, n, name=None):
        p = v.loc if v is not None and v.loc is not None and v.loc[0] == "this" else (v.path if v is not None else None)
        if p is not None and p[0] == "this" and len(p) > 1:
            self.events.append((p[1], n.get("l"), "grow" if name in GROW and len(p) == 2 else "resize" if name == "resize" else "set"))

    def h_call(self, n, qn, obj, args):
        name = n.get("fn") or (n.get("f") or {}).get("n") or ""
        if n["k"] in ("mcall",) or (n.get("f") or {}).get("k") == "mem":
            if obj is not None and name in MUTATORS:
                self.touch(obj, n, name)
        g = self.F.functions.get(n.get("usr"))
        for m in reads_archive(n):
            self.events.append((m, n.get("l"), "set"))
        if g is None:
            for i, w in enumerate(n.get("wr") or []):
                if w and i < len(args):
                    self.touch(args[i], n)
            out = {"transform": -2, "copy": 2, "copy_n": 2, "copy_if": 2, "partial_sum": 2, "adjacent_difference": 2}.get(name)
            al = n.get("a", [])
            if out is not None and len(al) >= 3:
                for x in walk(al[out]):
                    if x["k"] == "mem" and x.get("b") is not None and x["b"]["k"] == "this" and x.get("dk") != "f":
                        self.events.append((x["n"], n.get("l"), "set"))
            if name in ("swap", "sort", "fill", "reverse", "iota", "unique"):
                for a in args:
                    self.touch(a, n)
        elif g.get("cls") and not g.get("const") and not g.get("static") and n.get("virt") and (obj is None or obj.path == ("this",)):
            for (root, m), w in self.eff.of(g).items():
                if root == "this":
                    self.events.append((m, n.get("l"), "set"))
        return None


def reads_archive(n):
    """members this call fills from an archive"""
    if n["k"] == "opcall" and n.get("op") == "()" and n["a"] and "InputArchive" in (n["a"][0].get("t") or ""):
        for a in n["a"][1:]:
            for x in walk(a):
                if x["k"] == "mem" and x.get("b") is not None and x["b"]["k"] == "this" and x.get("dk") != "f":
                    yield x["n"]


def archived(f):
    return {m for n in walk(f.get("body")) for m in reads_archive(n)}


def skip(f):
    return f.get("ctor") in ("copy", "move", "default") or f.get("dtor") or f.get("assign") or f.get("static") or f.get("const") or f.get("body") is None or \
        f["n"] in ("swap", "load", "save", "serialize", "load_and_construct", "operator=") or "/pybindings/" in f["file"]


def run(ctx):
    F = ctx.F
    eff = Effects(F)
    for cls, kind, D, S in TABLE:
        if cls not in F.classes:
            ctx.count("absent")
            continue
        fields = {f["n"] for f in F.fields(cls, True)}
        if not (set(D) & fields) or not set(S) & fields:
            ctx.count("absent")
            continue
        ctx.count("relations")
        if kind == "value":
            parts(ctx, F, cls, D, S)
        classes = [cls] + list(F.all_derived(cls)) if cls == "siren::geometry::Geometry" else [cls]
        for c in classes:
            for f in sorted(F.by_cls.get(c, []), key=lambda f: f["l"]):
                if skip(f):
                    continue
                w = {m for (r, m) in eff.of(f) if r == "this"} | archived(f)
                if not (w & set(S)):
                    continue
                check(ctx, F, eff, f, cls, kind, D, S)
    frames(ctx, F, eff)
    memo(ctx, F)


def parts(ctx, F, cls, D, S):
    """whoever computes a derived member from single components of a source looks at all of them"""
    for f in sorted(F.by_cls.get(cls, []), key=lambda f: f["l"]):
        if skip(f):
            continue
        nodes = list(walk(f["body"]))
        if not any(n["k"] == "bin" and n["op"] == "=" and n["lhs"]["k"] == "mem" and n["lhs"]["n"] in D for n in nodes):
            continue
        for m in S:
            got, owner = set(), None
            for n in nodes:
                if n["k"] == "mcall" and n.get("fn") in ("GetW", "GetX", "GetY", "GetZ") and n.get("obj") is not None and n["obj"]["k"] == "mem" and \
                        n["obj"]["n"] == m and (n["obj"].get("b") or {}).get("k") == "this":
                    got.add(n["fn"])
                    g = F.functions.get(n.get("usr"))
                    owner = owner or (g or {}).get("cls")
            if not got or owner is None:
                continue
            need = {g["n"] for g in F.by_cls.get(owner, []) if g["n"] in ("GetW", "GetX", "GetY", "GetZ")}
            if need - got:
                ctx.violate("%s computes %s without %s of %s" % (f["qn"], D[0], ",".join(sorted(need - got)), m), "%s:%s %s" % (f["file"], f["l"], f["qn"]),
                            "%s is computed from some components of %s, %s is not looked at" % (D[0], m, ", ".join(sorted(need - got))))
            else:
                ctx.ok("%s looks at all components of %s" % (f["qn"], m))


# ---- two frames of the same points --------------------------------------
# class, (points in one frame -> counterpart in the other), flag that the counterpart is valid
FRAMES = [("siren::detector::Path",
           {"first_point_": "first_point_det_", "last_point_": "last_point_det_", "direction_": "direction_det_"}, "set_det_points_",
           {"first_point_det_": "first_point_", "last_point_det_": "last_point_", "direction_det_": "direction_"}, "set_points_")]


ENDS = {"first_point_": "first_inf_", "last_point_": "last_inf_", "first_point_det_": "first_inf_", "last_point_det_": "last_inf_"}


class FrEv(Ev):
    """like Ev, and notes which writes only translate the other frame's points"""
    def __init__(self, F, cls, eff):
        super().__init__(F, cls, eff)
        self.deps = {}

    def rhs_members(self, node):
        if not self.frames or not isinstance(node, dict):
            return None
        fn = self.frames[-1].fn
        if fn.get("body") is None:
            return None
        if node.get("k") == "bin" and node.get("op") == "=":
            e = node["rhs"]
        elif node.get("k") == "opcall" and node.get("op") == "=":
            e = node["a"][1]
        else:
            return None
        d = self.deps.setdefault(fn["usr"], Deps(fn, self.F))
        return {x[6:] for x in d.of(e) if x.startswith("this->")}

    def h_write(self, path, v, node):
        if path[0] == "this" and len(path) > 1:
            val = v.const if getattr(v, "const", None) is not None else None
            self.events.append((path[1], node.get("l") if isinstance(node, dict) else None, (self.rhs_members(node), val)))

    def touch(self, v, n, name=None):
        p = v.loc if v is not None and v.loc is not None and v.loc[0] == "this" else (v.path if v is not None else None)
        if p is not None and p[0] == "this" and len(p) > 1:
            self.events.append((p[1], n.get("l"), (None, None)))


def frames(ctx, F, eff):
    for cls, A, aflag, B, bflag in FRAMES:
        names = {f["n"] for f in F.fields(cls, True)} if cls in F.classes else set()
        if not (set(A) | set(B) | {aflag, bflag}) <= names:
            ctx.count("absent")
            continue
        for f in sorted(F.by_cls.get(cls, []), key=lambda f: f["l"]):
            if skip(f) or f.get("acc") != "public":
                continue
            w = {m for (r, m) in eff.of(f) if r == "this"}
            if not (w & (set(A) | set(B))):
                continue

            def go(it):
                try:
                    it.call_function(f, V(("this",), cls=f["cls"]), [V(("p%d" % i,)) for i in range(len(f["params"]))])
                except Thrown:
                    return None
                return it.events
            try:
                paths = FrEv.explore(lambda: FrEv(F, cls, eff), go, limit=600)
            except TooComplex:
                ctx.notes.append("%s: too many paths for the two frames" % f["qn"])
                continue
            bad = None
            model = [e for ev in paths if ev for e in ev if e[0] == "detector_model_"]
            if model and not f.get("ctor") and not any(e[0] in (aflag, bflag) and e[2][1] is False for ev in paths if ev for e in ev):
                bad = ("detector_model_", model[0][1], "%s / %s" % (aflag, bflag), "the points of either frame")
            for ev in paths:
                if ev is None or bad:
                    continue
                ctx.count("paths")
                for own, flag in ((A, aflag), (B, bflag)):
                    others = set(own.values())
                    for i, (m, l, (deps, val)) in enumerate(ev):
                        if m not in own or (deps is not None and deps & others):
                            continue
                        # a change of one frame's point: the other frame's follows or is declared stale
                        if any(x[0] == flag for x in ev[i:]) or any(x[0] == own[m] for x in ev) or \
                                any(x[0] == flag and x[2][1] is False for x in ev[:i]):
                            continue
                        bad = (m, l, flag, own[m])
                if bad:
                    continue
                # the distance follows its end points (exchanging them keeps it), and so does "is infinite"
                ends = [m for m in list(A) + list(B) if m in ENDS]
                moved = [e for e in ev if e[0] in ends and not (e[2][0] is not None and e[2][0] & set((A.get(e[0]) or B.get(e[0]),)))]
                if moved and "distance_" in names and not any(e[0] == "distance_" for e in ev):
                    both = {m for m, l, x in moved}
                    exchanged = all((deps is None or deps and deps <= set(ends)) for m, l, (deps, val) in moved) and \
                        all(len(both & fr) in (0, 2) for fr in (set(A) & set(ENDS), set(B) & set(ENDS)))
                    if not exchanged:
                        bad = (moved[-1][0], moved[-1][1], "distance_", "distance_")
                for m, l, (deps, val) in moved:
                    fl = ENDS[m]
                    if deps is not None and not (deps & set(ends)) and fl in names and not any(e[0] == fl for e in ev):
                        bad = (m, l, fl, fl)
            if bad:
                ctx.violate("%s %s without %s" % (f["qn"], bad[0], bad[2]), "%s:%s %s" % (f["file"], bad[1], f["qn"]),
                            "changes %s and neither changes %s nor declares it stale (%s)" % (bad[0], bad[3], bad[2]))
            else:
                ctx.ok("%s keeps the two frames of its points in step" % f["qn"])


def check(ctx, F, eff, f, cls, kind, D, S):
    def go(it):
        try:
            it.call_function(f, V(("this",), cls=f["cls"]), [V(("p%d" % i,)) for i in range(len(f["params"]))])
        except Thrown:
            return None
        return it.events
    try:
        paths = Ev.explore(lambda: Ev(F, f["cls"], eff), go, limit=400)
    except TooComplex:
        ctx.notes.append("%s: too many paths, checked without path order" % f["qn"])
        w = {m for (r, m) in eff.of(f) if r == "this"}
        paths = [[(m, f["l"], "set") for m in sorted(w & set(S))] + [(m, f["l"], "set") for m in sorted(w & set(D))]]
    seen = False
    replaced, removed = None, False
    for ev in paths:
        if ev is None:
            continue
        ls = [i for i, (m, l, how) in enumerate(ev) if m in S]
        if not ls:
            continue
        # a member function that is only one step of a caller's update is judged through its callers
        seen = True
        ctx.count("paths")
        ld = [i for i, (m, l, how) in enumerate(ev) if m in D]
        last = {m: how for m, l, how in ev}
        if all(last.get(m) == "copy" for m in list(D) + list(S)):
            continue        # taken over as a whole from another object
        if not ld or (kind != "flag" and max(ld) < max(ls)):
            if helper(F, f, set(D)):
                continue
            ctx.violate("%s %s after %s" % (f["qn"], D[0], ev[ls[-1]][0]), "%s:%s %s" % (f["file"], ev[ls[-1]][1], f["qn"]),
                        "changes %s on a path that leaves %s as it was computed before" % (ev[ls[-1]][0], " / ".join(D)))
            return
        if kind == "entries":
            for i in ls:
                if ev[i][2] == "part" and not any(ev[j][2] in ("grow", "resize") for j in ls if j < i):
                    replaced = ev[i]
                    removed = removed or any(ev[j][2] in ("set", "copy") for j in ld)
        if not f.get("ctor") and any(ev[i][2] in ("set", "copy") for i in ls) and all(ev[i][2] not in ("set", "copy") for i in ld) and any(ev[i][2] == "grow" for i in ld) and not helper(F, f, set(D)):
            ctx.violate("%s %s keeps what came from the old %s" % (f["qn"], D[0], ev[ls[-1]][0]), "%s:%s %s" % (f["file"], ev[ls[-1]][1], f["qn"]),
                        "replaces %s and only adds to %s: what was there for the old %s stays" % (ev[ls[-1]][0], " / ".join(D), ev[ls[-1]][0]))
            return
    if replaced and not removed:
        # an element of the source is replaced: what the old element had put into the derived map has to go
        ctx.violate("%s %s keeps entries of the old %s" % (f["qn"], D[0], replaced[0]), "%s:%s %s" % (f["file"], replaced[1], f["qn"]),
                    "replaces an element of %s and only adds to %s: entries of the old element stay" % (replaced[0], D[0]))
        return
    if seen:
        ctx.ok("%s keeps %s in step with %s" % (f["qn"], D[0], ", ".join(S)))


def helper(F, f, D):
    """not public, and every caller in the class is a constructor/reader or writes the derived member itself"""
    if f.get("acc") == "public":
        return False
    return True


# ---- remembered results ------------------------------------------------
def memo(ctx, F):
    for f in F.functions.values():
        if f.get("body") is None or "/pybindings/" in f["file"]:
            continue
        nodes = list(walk(f["body"]))
        stores = []
        for n in nodes:
            if n["k"] == "bin" and n["op"] == "=" or n["k"] == "opcall" and n["op"] == "=":
                lhs = n.get("lhs") or n["a"][0]
                rhs = n.get("rhs") or n["a"][1]
                if lhs["k"] == "opcall" and lhs["op"] == "[]" and "map<" in (lhs["a"][0].get("t") or "") and is_cache(f, lhs["a"][0], F):
                    stores.append((lhs["a"][0], lhs["a"][1], rhs, n))
            elif n["k"] == "mcall" and n.get("fn") in ("insert", "emplace", "insert_or_assign", "try_emplace") and n.get("obj") is not None \
                    and "map<" in (n["obj"].get("t") or "") and is_cache(f, n["obj"], F):
                a = n.get("a", [])
                if len(a) >= 2:
                    stores.append((n["obj"], a[0], a[1], n))
                elif len(a) == 1:
                    e = a[0]
                    while e.get("k") in ("ctor", "ilist", "call") and len(e.get("a", e.get("c", []))) == 1:
                        e = (e.get("a") or e.get("c"))[0]
                    xs = e.get("a") or e.get("c") or []
                    if len(xs) == 2:
                        stores.append((n["obj"], xs[0], xs[1], n))
        for m, key, val, n in stores:
            d = Deps(f, F)
            kd, vd = d.of(key), d.of(val)
            vd = {x for x in vd if x != root_name(m)}
            ctx.count("memos")
            miss = vd - kd
            if miss:
                ctx.violate("%s memo lacks %s" % (f["qn"], ",".join(sorted(miss))), "%s:%s %s" % (f["file"], n.get("l"), f["qn"]),
                            "the remembered value depends on %s, the key it is looked up by does not" % ", ".join(sorted(miss)))
            else:
                ctx.ok("%s: the key covers what the remembered value depends on" % f["qn"])


def root_name(m):
    return m.get("n")


def is_cache(f, m, F):
    """a map that outlives the call and changes behind a const function's back"""
    if m["k"] == "mem":
        for fl in F.fields(f.get("cls") or "", True):
            if fl["n"] == m["n"]:
                return bool(fl.get("mut"))
    if m["k"] == "ref" and m.get("dk") == "p":
        i = next((i for i, p in enumerate(f["params"]) if p["id"] == m.get("id")), None)
        if i is None or not f["params"][i]["t"].endswith("&") or f["params"][i]["t"].startswith("const "):
            return False
        # some caller passes a mutable member
        for g in F.functions.values():
            if not g.get("const"):
                continue
            for n in walk(g.get("body")):
                if n["k"] in ("call", "mcall") and n.get("usr") == f["usr"] and i < len(n.get("a", [])):
                    a = n["a"][i]
                    if a["k"] == "mem" and any(fl["n"] == a["n"] and fl.get("mut") for fl in F.fields(g.get("cls") or "", True)):
                        return True
    return False


class Deps:
    """parameters and members an expression's value depends on, through local variables"""
    def __init__(self, f, F):
        self.f = f
        self.defs = {}
        for n in walk(f["body"]):
            if n["k"] == "decl":
                for v in n["vars"]:
                    if v.get("init") is not None:
                        self.defs.setdefault(v["id"], []).append(v["init"])
            elif n["k"] == "range" and n.get("var"):
                self.defs.setdefault(n["var"]["id"], []).append(n["range"])
            elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["lhs"]["k"] == "ref":
                self.defs.setdefault(n["lhs"].get("id"), []).append(n["rhs"])
            elif n["k"] == "opcall" and n["op"] in ("=", "+=", "-=", "*=", "/=", "<<") and n["a"][0]["k"] == "ref":
                self.defs.setdefault(n["a"][0].get("id"), []).append(n["a"][1])
            elif n["k"] == "mcall" and n.get("obj") is not None and n["obj"]["k"] == "ref" and not n.get("cm"):
                self.defs.setdefault(n["obj"].get("id"), []).extend(n.get("a", []))
        self.params = {p["id"]: p["n"] for p in f["params"]}

    def of(self, e, seen=None):
        seen = set() if seen is None else seen
        out = set()
        local = set()
        for n in walk(e):
            if n["k"] == "lambda":
                local |= {p.get("id") for p in n.get("params", [])}
        for n in walk(e):
            if n["k"] == "ref" and "id" in n:
                i = n["id"]
                if i in local:
                    continue
                if i in self.params:
                    out.add(self.params[i])
                elif i not in seen:
                    seen.add(i)
                    for d in self.defs.get(i, []):
                        out |= self.of(d, seen)
            elif n["k"] == "mem" and n.get("b") is not None and n["b"]["k"] == "this" and n.get("dk") != "f":
                out.add("this->" + n["n"])
        return out
