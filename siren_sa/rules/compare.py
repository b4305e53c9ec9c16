"""Equality and ordering of value objects (C04, C05).

Every comparison function is evaluated abstractly over the relation of each
data member of the two operands ('<', '=' or '>'); the members' values never
matter.  One evaluation assumes all members equal, the others let one member
(or, for orderings, two) differ.
"""
from ..facts import AnalysisBroken
from ..interp import Interp, V, Thrown, TooComplex, strip, union, walk, TRANSPARENT_METHODS

FLIP = {"<": ">", ">": "<", "=": "="}


def norm(path):
    """(root, member key, trailing special part)"""
    if not path or path[0] not in ("this", "other"):
        return None
    key = []
    rest = []
    for i, p in enumerate(path[1:]):
        p = str(p)
        if p.startswith(("#", "[")) or rest:
            rest.append(p)
        else:
            key.append(p)
    return path[0], tuple(key), tuple(rest)


def canon_rest(rest):
    return tuple("[]" if r.startswith("[") and not r[1:-1].isdigit() else r for r in rest)


def is_ptr(t):
    t = t or ""
    return "shared_ptr<" in t or "unique_ptr<" in t or t.rstrip().endswith("*")


class Cmp(Interp):
    def __init__(self, F, dyn_class, rel, fieldtypes):
        super().__init__(F, dyn_class)
        self.rel = rel
        self.ft = fieldtypes
        self.compared = {}       # key -> node line
        self.crossed = []
        self.selfcmp = []
        self.identity = []
        self.casts = []

    def e_cast(self, n):
        v = super().e_cast(n)
        if n["ck"] == "dynamic" and v.path in (("this",), ("other",)):
            self.casts.append((n.get("to", ""), self.frames[-1].fn if self.frames else None, n.get("l")))
        return v

    # relation of the two operands in member `key`
    def relation(self, key):
        for k, r in self.rel.items():
            if r != "=" and (key[:len(k)] == k or k[:len(key)] == key):
                return r
        return "="

    def exact(self, key):
        for k, r in self.rel.items():
            if r != "=" and key[:len(k)] == k:
                return True
        return False

    @staticmethod
    def apply(op, r):
        if op == "==":
            return r == "="
        if op == "!=":
            return r != "="
        if op == "<":
            return r == "<"
        if op == ">":
            return r == ">"
        if op == "<=":
            return r in "<="
        if op == ">=":
            return r in ">="
        return None

    def note(self, key, node):
        fr = self.frames[-1].fn if self.frames else None
        self.compared.setdefault(key, (fr, node.get("l")))

    def operand_types(self, node):
        if node["k"] == "opcall":
            return [a.get("t", "") for a in node.get("a", [])]
        if node["k"] == "bin":
            return [node["lhs"].get("t", ""), node["rhs"].get("t", "")]
        return ["", ""]

    def keys(self, deps):
        t, o = set(), set()
        for d in deps:
            n = norm(d)
            if n is None:
                continue
            (t if n[0] == "this" else o).add(n[1])
        return t, o

    def combined(self, ks):
        rs = {self.relation(k) for k in ks} - {"="}
        if not rs:
            return "="
        return sorted(rs)[0]

    def h_compare(self, op, a, b, node):
        na, nb = norm(a.path) if a.path else None, norm(b.path) if b.path else None
        if na and nb:
            if na[0] != nb[0]:
                if na[1] == nb[1] and canon_rest(na[2]) == canon_rest(nb[2]):
                    key = na[1]
                    if not key and not na[2]:
                        # the two objects themselves: addresses, never the same object here
                        if op in ("==", "!="):
                            return V(None, const=(op == "!="))
                        return V(None, key=("whole", op))
                    r = self.relation(key)
                    if na[0] == "other":
                        r = FLIP[r]
                    rest = na[2]
                    if rest and rest[0] == "#typeid":
                        r = self.rel.get(("#typeid",), "=")
                        return V(None, const=self.apply(op, FLIP[r] if na[0] == "other" else r))
                    if rest and rest[-1].startswith("#") and not rest[-1][1:].isdigit():
                        # size/empty/end: a property of the member
                        if r == "=":
                            return V(None, const=self.apply(op, "="))
                        c = self.choose(("prop", key, rest))
                        return V(None, const=self.apply(op, r if c else "="))
                    ts = self.operand_types(node)
                    if key in self.ft and not rest and any("tuple<" in t for t in ts):
                        ts = [self.ft[key]]
                    if op in ("==", "!=") and all(is_ptr(t) for t in ts) and r == "=":
                        self.note(key, node)
                        c = self.choose(("ident", key))
                        if c == 0:
                            self.identity.append((key, self.frames[-1].fn if self.frames else None, node.get("l")))
                        return V(None, const=(c == 1) == (op == "=="))
                    self.note(key, node)
                    return V(None, const=self.apply(op, r))
                self.crossed.append((na, nb, self.frames[-1].fn if self.frames else None, node.get("l")))
                return V(None, key=("cross", op, a.path, b.path))
            if na[1] == nb[1] and na[2] == nb[2] and na[1]:
                self.selfcmp.append((na, self.frames[-1].fn if self.frames else None, node.get("l")))
                return V(None, const=self.apply(op, "="))
            root = "" if self.relation(na[1]) == "=" and self.relation(nb[1]) == "=" else na[0]
            return V(None, key=("intra", op, root, na[1:], nb[1:]))
        for x, y, flip in ((na, b, False), (nb, a, True)):
            if x and y.const is not None:
                r = self.relation(x[1])
                root = "" if r == "=" else x[0]
                o2 = op
                if op in ("==", "!=") and not x[1] and not x[2] and y.const in (("null",), 0):
                    return V(None, const=op == "!=")
                if op in ("==", "!=") and y.const == ("null",):
                    t = self.pred(x, a if not flip else b)
                    return V(None, const=(not t) == (op == "=="))
                c = self.choose(("u", root, x[1:], o2, flip, str(y.const)))
                return V(None, const=bool(c))
        ta, oa = self.keys(a.deps)
        tb, ob = self.keys(b.deps)
        mixed_a, mixed_b = bool(ta and oa), bool(tb and ob)
        if (ta and ob and not oa and not tb) or (oa and tb and not ta and not ob):
            ks1, ks2 = (ta, ob) if ta else (oa, tb)
            if ks1 == ks2:
                r = self.combined(ks1)
                if oa:
                    r = FLIP[r]
                for k in ks1:
                    self.note(k, node)
                if r != "=" and (a.dist is True or b.dist is True) and not self.choose(("lossy", str(sorted(ks1)), self.rootless(a))):
                    r = "="         # a length or an absolute value does not tell the members apart
                return V(None, const=self.apply(op, r))
            inter = ks1 & ks2
            if not inter:
                self.crossed.append((("this" if ta else "other", sorted(ks1), ()), ("other" if ta else "this", sorted(ks2), ()), self.frames[-1].fn if self.frames else None, node.get("l")))
            return V(None, key=("partial", op, self.vkey(a), self.vkey(b)))
        if mixed_a or mixed_b:
            m, c = (a, b) if mixed_a else (b, a)
            t, o = self.keys(m.deps)
            ks = t & o
            if ks:
                for k in ks:
                    self.note(k, node)
                r = self.combined(ks)
                if m.dist == "flip":
                    r = FLIP[r]
                cv = c.const if isinstance(c.const, (int, float)) else 1e-9
                if r == "=":
                    val = 0.0
                else:
                    val = float("inf") if (r == ">" or m.dist is True) else float("-inf")
                    if m.dist is not True and cv and op in ("<", ">", "<=", ">=") and isinstance(cv, float) and 0 < cv < 1:
                        val = float("inf")      # a tolerance
                l, rr = (val, cv) if mixed_a else (cv, val)
                res = {"==": l == rr, "!=": l != rr, "<": l < rr, ">": l > rr, "<=": l <= rr, ">=": l >= rr}[op]
                return V(None, const=res)
        # values of one operand only
        root = "" if self.combined(ta | oa | tb | ob) == "=" else "r"
        return V(None, key=("one", op, root, self.rootless(a), self.rootless(b)))

    def rootless(self, v):
        if v.const is not None:
            return ("c", str(v.const))
        s = []
        for d in v.deps:
            n = norm(d)
            if n is not None and self.relation(n[1]) == "=":
                s.append(("*",) + n[1] + n[2])
            else:
                s.append(d)
        return tuple(sorted(map(str, s)))

    def vkey(self, v):
        # conditions about a member that is equal in both operands have the same outcome
        if v.const is None and v.path:
            n = norm(v.path)
            if n and self.relation(n[1]) == "=":
                return ("*",) + n[1] + n[2]
        if v.const is None and not v.path and v.key is None:
            return ("d",) + self.rootless(v) if v.deps else ("d",)
        return super().vkey(v)

    def pred(self, x, v):
        """truthiness of member x of one operand"""
        r = self.relation(x[1])
        if r == "=":
            return bool(self.choose(("p", "", x[1:])))
        if self.ft.get(x[1]) == "bool" and not x[2]:
            small = "this" if r == "<" else "other"
            return x[0] != small
        me = ("p", x[0], x[1:])
        ot = ("p", "other" if x[0] == "this" else "this", x[1:])
        if me not in self.memo and self.memo.get(ot) == 0:
            self.memo[me] = 1
        return bool(self.choose(me))

    def h_truth(self, v, node):
        if v.path:
            n = norm(v.path)
            if n is None:
                return None
            if not n[1] and not n[2]:
                return True
            return self.pred(n, v)
        if v.key is not None and v.key and v.key[0] in ("call", "op") or (v.key is None and v.deps):
            t, o = self.keys(v.deps)
            ks = t & o
            if ks and t == o and v.neg is None:
                for k in ks:
                    self.note(k, node)
                return self.combined(ks) == "="
        return None

    def arith(self, op, a, b, n):
        r = super().arith(op, a, b, n)
        ta, oa = self.keys(a.deps)
        tb, ob = self.keys(b.deps)
        if (op == "*" and ((ta and ob) or (oa and tb))) or a.dist is True or b.dist is True:
            r.dist = True
        elif op == "-" and oa and tb and not ta and not ob:
            r.dist = "flip"
        return r

    def h_call(self, node, callee, obj, args):
        name = (callee or "").split("::")[-1]
        if name in ("abs", "fabs", "fabsf", "scalar_product", "hypot", "norm", "magnitude"):
            return V(None, union(args + ([obj] if obj is not None else [])), key=("call", name) + tuple(self.vkey(a) for a in args), dist=True)
        if name in ("size", "length", "empty", "front", "back") and node.get("k") == "mcall" and obj is not None and obj.path is None and obj.loc is None:
            return V(None, obj.deps, key=("call", name, self.vkey(obj)), dist=True)
        if name == "equal" and len(args) >= 3 and not self.whole_range(node.get("a", [])):
            t, o = self.keys(union(args))
            ks = t & o
            if ks:
                for k in ks:
                    self.note(k, node)
                return V(None, const=self.combined(ks) == "=" or not self.choose(("part", str(sorted(ks)))))
        if name == "lexicographical_compare":
            t, o = self.keys(union(args))
            ks = t & o
            if ks:
                for k in ks:
                    self.note(k, node)
                first = norm(args[0].path)[0] if args and args[0].path and norm(args[0].path) else "this"
                r = self.combined(ks)
                if first == "other":
                    r = FLIP[r]
                return V(None, const=r == "<")
        if node.get("k") == "mcall" and name in ("hash_code", "name", "before"):
            return None
        return None

    @staticmethod
    def whole_range(nodes):
        """false when the first range certainly is not all of a container"""
        def fn_of(e):
            e = strip(e)
            return e.get("fn") or (e.get("f") or {}).get("n")
        return not (fn_of(nodes[0]) in ("begin", "cbegin", "rbegin", "crbegin") and strip(nodes[1]).get("k") in ("opcall", "bin") and strip(nodes[1]).get("op") in ("+", "-")
                    and any(fn_of(x) in ("begin", "cbegin", "end", "cend") for x in walk(nodes[1]) if x["k"] in ("mcall", "call"))
                    and not any(fn_of(x) == "size" for x in walk(nodes[1]) if x["k"] in ("mcall", "call"))) \
            and not (strip(nodes[0]).get("k") in ("opcall", "bin") and strip(nodes[0]).get("op") == "+")

    def should_inline(self, fn, obj, args, node):
        # comparison operators of members are judged on their own
        if fn["n"] in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            return False
        return True

    def method_call(self, n, name, obj, args, cands=None):
        # member.equal(other.member): a comparison of the member
        if name in ("equal", "less", "compare", "operator==", "operator<", "operator!=", "isApprox") and len(args) == 1:
            na, nb = norm(obj.path) if obj.path else None, norm(args[0].path) if args[0].path else None
            if na and nb and na[1]:
                op = {"less": "<", "operator<": "<", "operator!=": "!="}.get(name, "==")
                if name == "compare" and n.get("t") != "bool":
                    return V(None, obj.deps | args[0].deps, key=("cmp3",) + tuple(map(str, (obj.path, args[0].path))))
                return self.compare(op, obj, args[0], n)
        return super().method_call(n, name, obj, args, cands)


class Subject:
    """a class together with its equality / ordering entry function"""
    def __init__(self, cls, fn, kind, free=False, cusr=None):
        self.cls, self.fn, self.kind, self.free, self.cusr = cls, fn, kind, free, cusr


def field_types(F, cls, cusr=None):
    out = {}
    cs = [c for c in [F.classes_by_usr.get(cusr)] if c] or [F.classes.get(cls)]
    for c in cs:
        if not c:
            continue
        for f in c["fields"]:
            out[(f["n"],)] = f["t"]
    for b in F.bases(cls):
        for f in F.fields(b):
            out[(f["n"],)] = f["t"]
    return out


def evaluate(F, subj, rel, limit=3000):
    """outcomes of (a ? b, b ? a) over all undecided conditions, in the world `rel`"""
    ft = field_types(F, subj.cls, subj.cusr)
    infos = []

    def make():
        return Cmp(F, subj.cls, rel, ft)

    def run(it):
        out = []
        infos.append(it)
        for a, b in ((V(("this",)), V(("other",))), (V(("other",)), V(("this",)))):
            try:
                if subj.free:
                    r = it.call_function(subj.fn, None, [a, b])
                else:
                    r = it.call_function(subj.fn, a, [b])
                out.append(it.truth(r, {"l": subj.fn["l"]}))
            except Thrown:
                out.append("throw")
        return tuple(out)

    res = Interp.explore(make, run, limit)
    return set(res), infos


PYTHON_SIDE = ("py", "Py")


def subjects(F, kinds):
    """kinds: {'eq': names, ...} -> every concrete class with such a function"""
    names = {"eq": ("operator==", "equal", "compare"), "lt": ("operator<", "less")}[kinds]
    out = []
    for cls, c in sorted(F.classes.items()):
        short = cls.split("::")[-1]
        if short.startswith(PYTHON_SIDE):
            continue
    seen = set()
    for f in sorted(F.functions.values(), key=lambda f: (f["qn"], f["l"])):
        if f["n"] not in names or "/test" in f["file"] or f.get("body") is None:
            continue
        cls = f.get("cls")
        if cls is None:
            if len(f["params"]) == 2 and f["params"][0]["t"] == f["params"][1]["t"]:
                t = f["params"][0]["t"].replace("const ", "").replace("&", "").strip()
                if t in F.classes:
                    out.append(Subject(t, f, kinds, free=True))
            continue
        if cls.split("::")[-1].startswith(PYTHON_SIDE) or "PyDistribution" in cls or "/pybindings/" in f["file"]:
            continue
        if f.get("ret") != "bool" or len(f["params"]) != 1:
            continue
        c = F.classes_by_usr.get(f.get("cusr")) or F.classes.get(cls)
        if c is None:
            continue
        # a dispatching operator of an abstract root: its concrete classes are checked through it
        if f["n"].startswith("operator"):
            if calls_virtual(f, ("equal", "less", "compare")):
                continue
            out.append(Subject(cls, f, kinds, cusr=f.get("cusr")))
        else:
            entry = f
            root_op = None
            for b in F.bases(cls):
                for g in F.by_cls.get(b, []):
                    if g["n"] == names[0] and calls_virtual(g, ("equal", "less", "compare")):
                        root_op = g
            s = Subject(cls, root_op or entry, kinds, cusr=f.get("cusr"))
            s.leaf = f
            out.append(s)
    return out


def calls_virtual(f, names):
    for n in walk(f.get("body")):
        if n["k"] in ("mcall", "call") and (n.get("fn") in names or (n.get("f") or {}).get("n") in names) and not (n.get("qn") or "").startswith("std::"):
            return True
    return False


def disp(cls):
    return cls.replace("siren::", "")


def saved_fields(F, cls):
    """members whose value is written to an archive: the object's persistent state"""
    from .serial import saved_member_names
    return saved_member_names(F, cls)


# members that are no part of an object's identity, with the reason
DERIVED = "computed from members that are compared"
PROV = "records where the data came from, not what they are"
BYDESIGN = "the physical normalisation is a separate distribution for the purpose of comparison"
EXEMPT = {
    "dataclasses::InteractionTreeDatum": {"legacy_parent": "only used while reading old archives", "legacy_daughters": "only used while reading old archives"},
    "detector::DetectorModel": {"path_": PROV},
    "detector::MaterialModel::Component": {k: "determined by the particle type" for k in ("strange_count", "neutron_count", "nucleon_count", "proton_count", "molar_mass", "is_atom")},
    "detector::MaterialModel": {"path_": PROV, "model_files_": PROV, "material_names_": "names are not part of the material content",
                                "material_ids_": "names are not part of the material content",
                                "material_components_by_id_": DERIVED, "material_radiation_length_": DERIVED, "component_radiation_length_": DERIVED},
    "detector::PolynomialDistribution1D": {"Ipolynom_": DERIVED, "dpolynom_": DERIVED},
    "detector::RadialAxis1D": {"fAxis_": "a radial axis has no direction"},
    "distributions::Cone": {"rotation": DERIVED},
    "distributions::ModifiedMoyalPlusExponentialEnergyDistribution": {"integral": DERIVED},
    "distributions::PrimaryExternalDistribution": {"filename": PROV, "init_pos_set": DERIVED, "vertex_set": DERIVED, "mom_set": DERIVED},
    "distributions::TabulatedFluxDistribution": {"bounds_set": "how the bounds were obtained", "use_romberg": "integration method", "fluxTableFilename": PROV,
                                                 "inverseCdfTable": DERIVED, "integral": DERIVED, "cdf_values": DERIVED, "energy_nodes": DERIVED,
                                                 "pdf_values": DERIVED, "cdf_energy_nodes": DERIVED},
    "distributions::Tabulated2DFluxDistribution": {"energy_bounds_set": "how the bounds were obtained", "cosZenith_bounds_set": "how the bounds were obtained",
                                                   "fluxTableFilename": PROV, "integral": DERIVED, "energy_nodes": DERIVED, "cosZenith_nodes": DERIVED,
                                                   "MH_sampled_points": "sampler state", "MH_density": "sampler state"},
    "geometry::ExtrPoly": {"planes_": DERIVED},
    "geometry::GenericPolycone": {"has_phi_cut_": DERIVED, "winding_": DERIVED},
    "geometry::Para": {"face_normals_": DERIVED, "face_dists_": DERIVED},
    "geometry::Polycone": {"has_phi_cut_": DERIVED},
    "geometry::Polyhedra": {"has_phi_cut_": DERIVED, "cos_phi_": DERIVED, "sin_phi_": DERIVED},
    "geometry::Sphere": {"has_phi_cut_": DERIVED, "has_theta_cut_": DERIVED},
    "geometry::Torus": {"has_phi_cut_": DERIVED},
    "geometry::Trap": {"vertices_": DERIVED, "planes_": DERIVED},
    "geometry::TriangularMesh": {"bvh_nodes_": DERIVED, "tri_indices_": DERIVED},
    "geometry::Placement": {"is_identity_": DERIVED},
    "geometry::Geometry::Intersection": {"matID": "annotation added by the detector model"},
    "interactions::DISFromSpline": {"targets_by_primary_types_": DERIVED, "signatures_by_parent_types_": DERIVED, "minimum_W2_": "fixed constant", "unit": DERIVED},
    "interactions::HNLDISFromSpline": {"targets_by_primary_types_": DERIVED, "signatures_by_parent_types_": DERIVED, "unit": DERIVED},
    "interactions::HNLDipoleDISFromSpline": {"targets_by_primary_types_": DERIVED, "signatures_by_parent_types_": DERIVED, "unit": DERIVED},
    "interactions::QuarkDISFromSpline": {"signatures_by_parent_types_": DERIVED, "fragmentation_integral": "the same for every object",
                                         "inverseCdfTable": "the same for every object", "unit": DERIVED},
    "interactions::DarkNewsCrossSection": {k: "attributes of the Python side" for k in ("m_ups", "m_target", "h_ups", "h_target")},
    "interactions::ElectroweakDecay": {k: "fixed tables" for k in ("Nus", "AntiNus", "Leptons", "AntiLeptons", "UpQuarks", "UpAntiQuarks", "DownQuarks",
                                                                    "DownAntiQuarks", "V_CKM", "secondary_masses", "GammaW")},
    "interactions::HNLDecay": {k: DERIVED for k in ("crundec", "_GammaHadronsCC", "_GammaHadronsNC", "MinusChargedMesons", "PlusChargedMesons", "NeutralMesons")},
    "interactions::InteractionCollection": {"cross_sections_by_target": DERIVED},
    "math::SymLogTransform": {"log_min_x": DERIVED},
    "utilities::Interpolator1D": {"indexer": DERIVED, "function": DERIVED, "zero_mask": DERIVED, "is_log": DERIVED},
    "utilities::Interpolator2D": {"indexer_x": DERIVED, "indexer_y": DERIVED, "function": DERIVED, "zero_mask": DERIVED, "is_log": DERIVED},
}
# inherited members that are excluded everywhere
EXEMPT_ANY = {"normalization": BYDESIGN, "normalization_set": BYDESIGN, "world_aabb_cached_": "cache", "cached_world_aabb_": "cache",
              "burnin": "sampler state"}
# members for which sharing the same component object is what equality means
SHARED = {("detector::DetectorSector", "geo"), ("detector::DetectorSector", "density"), ("injection::Process", "interactions"),
          ("interactions::InteractionCollection", "cross_sections"), ("interactions::InteractionCollection", "decays")}


def bare(t):
    import re
    t = re.sub(r"<.*>", "", t).replace("const", "").replace("*", "").replace("&", "").strip()
    return t.split("::")[-1]


def keyname(k):
    return ".".join(k)


def gather(infos):
    keys, ident, cr, sc = {}, {}, [], []
    for i in infos:
        for k, w in i.compared.items():
            keys.setdefault(k, w)
        for k, fn, l in i.identity:
            ident[k] = (fn, l)
        cr += i.crossed
        sc += i.selfcmp
    return keys, ident, cr, sc


def where_of(F, w, fallback):
    fn, l = w
    fn = fn if fn is not None and "file" in fn else fallback
    return F.where(fn, l)


def required_fields(F, s):
    """members a comparison has to look at"""
    short = disp(s.cls)
    out = {}
    ex = EXEMPT.get(short, {})
    owners = [F.classes_by_usr.get(s.cusr) or F.classes.get(s.cls)] + [F.classes.get(b) for b in F.bases(s.cls)]
    for c in owners:
        if c is None:
            continue
        for f in c["fields"]:
            if f.get("mut") or f.get("const") or f["n"] in ex or f["n"] in EXEMPT_ANY:
                if not (f["n"] == "normalization" and short.endswith("NormalizationConstant")):
                    continue
            out[(f["n"],)] = (c, f)
    return out


def base_calls_only(s):
    return False


def run_eq(ctx):
    F = ctx.F
    subs = subjects(F, "eq")
    ctx.require(len(subs) > 90, "only %d equality operations found" % len(subs))
    for s in subs:
        short = disp(s.cls)
        leaf = getattr(s, "leaf", s.fn)
        W = F.where(leaf)
        ctx.count("classes")
        try:
            res, infos = evaluate(F, s, {})
        except TooComplex as e:
            raise AnalysisBroken("%s: %s" % (s.cls, e))
        keys, ident, cr, sc = gather(infos)
        for a, b, fn, l in cr:
            ctx.violate("%s:crossed:%s:%s" % (short, name_of(a), name_of(b)), where_of(F, (fn, l), leaf),
                        "equality of %s compares %s of one operand with %s of the other" % (short, name_of(a), name_of(b)))
        for a, fn, l in sc:
            ctx.violate("%s:self:%s" % (short, name_of(a)), where_of(F, (fn, l), leaf), "equality of %s compares %s with itself" % (short, name_of(a)))
        for k, w in ident.items():
            if (short, k[0]) not in SHARED:
                ctx.violate("%s:identity:%s" % (short, keyname(k)), where_of(F, w, leaf),
                            "equality of %s compares the address of %s, so equal contents compare unequal" % (short, keyname(k)))
        for to, fn, l in [c for i in infos for c in i.casts]:
            t = bare(to)
            if t != s.cls.split("::")[-1]:
                ctx.violate("%s:cast:%s" % (short, t), where_of(F, (fn, l), leaf),
                            "equality of %s accepts any %s, whose own equality does not accept %s: the result depends on the operand order" % (short, t, short))
        shared = any((short, k[0]) in SHARED for k in ident)
        good = {(True, True)} | ({(False, False)} if shared or ident else set())
        if not res <= good or (True, True) not in res:
            ctx.violate("%s:reflexive" % short, W, "two %s objects that agree in every member do not always compare equal (outcomes %s)" % (short, sorted(map(str, res))))
        else:
            ctx.ok("%s: objects agreeing in all members are equal" % short)
        for k in sorted(keys):
            for r in "<>":
                try:
                    rr, _ = evaluate(F, s, {k: r})
                except TooComplex as e:
                    raise AnalysisBroken("%s: %s" % (s.cls, e))
                ctx.count("worlds")
                if rr != {(False, False)}:
                    asym = any(x != y for x, y in rr)
                    ctx.violate("%s:%s:%s" % (short, "asymmetric" if asym else "ignored", keyname(k)), where_of(F, keys[k], leaf),
                                "two %s objects that differ only in %s %s" % (short, keyname(k), "compare differently depending on the operand order" if asym else "can compare equal"))
                    break
            else:
                ctx.ok("%s: %s decides equality" % (short, keyname(k)))
        req = required_fields(F, s)
        for k, (c, f) in sorted(req.items()):
            ctx.count("members")
            if any(q[:1] == k for q in keys):
                continue
            ctx.violate("%s:missing:%s" % (short, keyname(k)), W, "equality of %s does not take its member %s into account" % (short, keyname(k)))


def name_of(n):
    ks = n[1]
    if ks and isinstance(ks, (list,)):
        return "+".join(".".join(k) for k in ks)
    return ".".join(ks) + "".join(n[2]) if ks else "the object"


def run_lt(ctx):
    F = ctx.F
    eqkeys = {}
    for s in subjects(F, "eq"):
        res, infos = evaluate(F, s, {})
        keys, *_ = gather(infos)
        eqkeys.setdefault(s.cls, set()).update(keys)
    subs = subjects(F, "lt")
    ctx.require(len(subs) > 50, "only %d orderings found" % len(subs))
    G = {(True, False), (False, True)}
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        # objects of different classes are ordered by their class
        if f["n"] == "operator<" and f.get("cls") and f.get("body") and len(f["params"]) == 1 and calls_virtual(f, ("less",)) and "/test" not in f["file"]:
            root = disp(f["cls"])
            ctx.count("roots")
            for r in "<>":
                a, _ = evaluate(F, Subject(f["cls"], f, "lt"), {("#typeid",): r})
                if a <= G:
                    ctx.ok("%s: objects of different classes are strictly ordered" % root)
                else:
                    ctx.violate("%s:classes" % root, F.where(f), "two objects of different subclasses of %s are not always strictly ordered (a<b, b<a can be %s)" % (root, sorted(map(str, a - G))[0]))
                    break
    for s in subs:
        short = disp(s.cls)
        leaf = getattr(s, "leaf", s.fn)
        W = F.where(leaf)
        ctx.count("classes")
        try:
            res, infos = evaluate(F, s, {})
            keys, ident, cr, sc = gather(infos)
            if s.cls in eqkeys:
                ks = sorted(eqkeys[s.cls] | set(keys))
            else:
                ks = sorted(set(keys))
            for k in ks:
                for r in "<>":
                    a, inf = evaluate(F, s, {k: r})
                    for i in inf:
                        cr += i.crossed
                        sc += i.selfcmp
                    ctx.count("worlds")
                    if not a <= G:
                        both = (True, True) in a
                        ctx.violate("%s:%s:%s" % (short, "not-antisymmetric" if both else "tied", keyname(k)), W,
                                    "%s objects that differ only in %s: %s" % (short, keyname(k), "each is ordered before the other" if both else
                                    ("ordering does not separate them although they are unequal" if (False, False) in a else "ordering can fail")))
                        break
                else:
                    ctx.ok("%s: objects differing in %s are strictly ordered" % (short, keyname(k)))
            for i, k in enumerate(ks):
                for q in ks[i + 1:]:
                    if k == q[:len(k)] or q == k[:len(q)]:
                        continue
                    for r in ("<<", "<>"):
                        a, _ = evaluate(F, s, {k: r[0], q: r[1]})
                        ctx.count("worlds")
                        if not a <= G:
                            ctx.violate("%s:pair:%s:%s" % (short, keyname(k), keyname(q)), W,
                                        "%s objects that differ in %s and %s are not strictly ordered (a<b, b<a can be %s)" %
                                        (short, keyname(k), keyname(q), sorted(map(str, a - G))[0]))
                            break
        except TooComplex as e:
            raise AnalysisBroken("%s: %s" % (s.cls, e))
        if res != {(False, False)}:
            ctx.violate("%s:irreflexive" % short, W, "of two %s objects that agree in every member, one is ordered before the other" % short)
        else:
            ctx.ok("%s: equal objects are unordered" % short)
        for a, b, fn, l in cr:
            ctx.violate("%s:crossed:%s:%s" % (short, name_of(a), name_of(b)), where_of(F, (fn, l), leaf),
                        "ordering of %s compares %s of one operand with %s of the other" % (short, name_of(a), name_of(b)))
        for a, fn, l in sc:
            ctx.violate("%s:self:%s" % (short, name_of(a)), where_of(F, (fn, l), leaf), "ordering of %s compares %s with itself" % (short, name_of(a)))
