"""Particle roles: primary, target and secondary quantities are not mixed up."""
import re
from ..interp import Interp, V, Thrown, TooComplex, walk
from .serial import nm

ROLE = re.compile(r"^_?(primary|target|secondary)s?(?:_(particle_)?(types?|mass|masses|energy|energies|momentum|momenta|helicity|helicities|type))?_?$")
KINDS = {"types": "type", "type": "type", "mass": "mass", "masses": "mass", "energy": "energy", "energies": "energy", "momentum": "momentum", "momenta": "momentum", "helicity": "helicity", "helicities": "helicity"}
GETTERS = {"GetPrimaryMass": ("primary", "mass"), "GetTargetMass": ("target", "mass"), "GetPrimaryMomentum": ("primary", "momentum"), "GetPrimaryHelicity": ("primary", "helicity"),
           "GetTargetHelicity": ("target", "helicity"), "GetPrimaryType": ("primary", "type"), "GetTargetType": ("target", "type")}
SCOPES = ("/interactions/", "/injection/", "/distributions/", "/detector/", "/dataclasses/", "/io/")


def in_scope(f):
    return f.get("body") is not None and any(s in f["file"] for s in SCOPES) and "/test" not in f["file"] and "/pybindings/" not in f["file"]


def role_of_name(name, ty=""):
    m = ROLE.match(name or "")
    if not m:
        if name in ("energy", "mass") and (ty or "").replace("const ", "").strip(" &") == "double":
            return ("any", name)
        return None
    kind = KINDS.get(m.group(3)) if m.group(3) else ("type" if "ParticleType" in (ty or "") else None)
    if kind is None:
        return None
    return (m.group(1), kind)


def strip(e):
    while e is not None:
        if e["k"] == "cast":
            e = e["e"]
        elif e["k"] == "ctor" and len(e.get("a", [])) == 1 and (e.get("cp") or e.get("li")):
            e = e["a"][0]
        elif e["k"] == "un" and e.get("op") in ("*", "&"):
            e = e["e"]
        elif e["k"] == "opcall" and e.get("op") == "*" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        elif e["k"] == "call" and (e.get("qn") or "") in ("std::move", "std::forward", "std::ref", "std::cref"):
            e = e["a"][0]
        elif e["k"] == "ilist" and len(e.get("a", [])) == 1:
            e = e["a"][0]
        else:
            return e
    return None


class Defs:
    """what each local of a function can hold (flow-insensitive)"""

    def __init__(self, fn):
        self.d = {}
        self.n = {}
        self.ty = {}
        for b in [fn.get("body")] + [i.get("e") for i in fn.get("inits", [])]:
            for n in walk(b):
                if n["k"] == "decl":
                    for v in n.get("vars", []):
                        self.ty[v["id"]] = v.get("t", "")
                        self.n[v["id"]] = v["n"]
                        if v.get("init") is not None:
                            self.d.setdefault(v["id"], []).append(v["init"])
                elif n["k"] == "range" and n.get("var"):
                    v = n["var"]
                    self.n[v["id"]] = v.get("n")
                    self.d.setdefault(v["id"], []).append({"k": "elem", "b": n["range"], "l": n.get("l")})
                    for i, x in enumerate(v.get("bindings", [])):
                        self.d.setdefault(x["id"], []).append({"k": "mem", "n": ("first", "second")[i] if i < 2 else "?", "b": {"k": "elem", "b": n["range"]}})
                elif n["k"] == "bin" and n["op"] == "=" and (strip(n["lhs"]) or {}).get("k") == "ref":
                    self.d.setdefault(strip(n["lhs"]).get("id"), []).append(n["rhs"])
                elif n["k"] == "opcall" and n.get("op") == "=" and (strip(n["a"][0]) or {}).get("k") == "ref" and len(n["a"]) == 2:
                    self.d.setdefault(strip(n["a"][0]).get("id"), []).append(n["a"][1])


def sources(e, D, seen=()):
    """the (role, kind) a copied value has; computed values give nothing"""
    e = strip(e)
    if e is None:
        return set()
    k = e["k"]
    if k == "cond":
        return sources(e.get("then"), D, seen) | sources(e.get("else"), D, seen)
    if k == "elem":
        return sources(e["b"], D, seen)
    if k in ("idx",) or (k == "opcall" and e.get("op") == "[]") or (k == "mcall" and e.get("fn") in ("at", "front", "back", "begin", "cbegin")):
        b = e.get("b") if k == "idx" else (e["a"][0] if k == "opcall" else e.get("obj"))
        i = strip(e.get("i") if k == "idx" else (e["a"][1] if k == "opcall" else (e["a"][0] if e.get("a") else None)))
        if key_map(b):
            return set()
        out = set()
        for r, kd in sources(b, D, seen):
            if kd == "momentum":
                if i is not None and i["k"] == "int" and r != "secondary":
                    out.add((r, "energy" if i["v"] in ("0", 0) else "momentum component"))
            else:
                out.add((r, kd))
        return out
    if k == "mem":
        if e["n"] in ("first", "second"):
            return set()
        r = role_of_name(e["n"], e.get("t"))
        return {r} if r and r[0] != "any" and not map_type(e.get("t")) else set()
    if k == "mcall" and e.get("fn") in GETTERS and not e.get("a"):
        return {GETTERS[e["fn"]]}
    if k == "ref":
        if e.get("dk") == "p":
            r = role_of_name(e["n"], e.get("t"))
            if r and r[0] != "any":
                return {r} if not map_type(e.get("t")) else set()
        i = e.get("id")
        if i in seen:
            return set()
        out = set()
        for x in D.d.get(i, []):
            out |= sources(x, D, seen + (i,))
        return out
    if k in ("ilist", "ctor") and e.get("a"):
        # a container made from a range of another
        if k == "ctor" and len(e["a"]) == 2 and ("vector" in e.get("cls", "") or "set" in e.get("cls", "")):
            a, b = sources(e["a"][0], D, seen), strip(e["a"][1])
            if b is not None and b["k"] == "mcall" and b.get("fn") in ("end", "cend"):
                return a
        return set()
    return set()


def map_type(t):
    return bool(t) and ("std::map<" in t or "unordered_map<" in t or "std::pair<" in t)


def key_map(b):
    b = strip(b)
    return b is not None and map_type(b.get("t"))


def clash(src, want):
    """src does not belong where want is expected"""
    (r, k), (wr, wk) = src, want
    if {r, wr} == {"primary", "target"}:
        return True
    if r == "secondary" and wr == "target" and k != "type":
        return True
    if (r == wr or wr == "any") and k != wk and {k, wk} <= {"mass", "energy", "helicity", "momentum component"}:
        return True
    return False


def where(f, n):
    return "%s:%s" % (f["file"], n.get("l"))


def run(ctx):
    F = ctx.F
    byusr = {}
    for c in F.classes.values():
        for m in c.get("methods", []):
            byusr.setdefault(m["usr"], m)
    fns = [f for f in F.functions.values() if in_scope(f)]
    ctx.require(len(fns) > 300, "the interaction code was not found")
    for f in fns:
        flows(ctx, F, f, byusr)
    decays(ctx, F, fns)
    filtering(ctx, F)


def flows(ctx, F, f, byusr):
    D = None
    for b in [f["body"]] + [i.get("e") for i in f.get("inits", [])]:
        for n in walk(b):
            if n["k"] in ("call", "mcall", "ctor"):
                pn = None
                if n["k"] == "ctor":
                    c = F.functions.get(n.get("usr"))
                    pn = [(p, "") for p in n.get("pn", [])] if not c else [(p["n"], p["t"]) for p in c["params"]]
                    if n.get("cp"):
                        continue
                else:
                    m = F.functions.get(n.get("usr")) or byusr.get(n.get("usr"))
                    if m is None and n["k"] == "mcall" and n.get("fn") in ("count", "find", "contains", "at", "erase") and len(n.get("a", [])) == 1:
                        b = strip(n.get("obj"))
                        want = role_of_name(b["n"], b.get("t")) if b is not None and b["k"] in ("mem", "ref") and "set<" in (b.get("t") or "") else None
                        if want is not None and want[0] in ("primary", "target"):
                            D = D or Defs(f)
                            judge(ctx, f, n["a"][0], sources(n["a"][0], D), want, "looked up in %s" % b["n"])
                    if m is None:
                        if (n.get("qn") or "") == "std::make_pair" or (n.get("fn") == "make_pair"):
                            D = D or Defs(f)
                            pair(ctx, f, n, n["a"], D)
                        continue
                    pn = [(p["n"], p["t"]) for p in m["params"]]
                    # the declaration in the class names the parameters for callers
                    alt = byusr.get(n.get("usr"))
                    if alt and len(alt["params"]) == len(pn):
                        pn = [(a["n"] or p[0], p[1]) for a, p in zip(alt["params"], pn)]
                if n["k"] == "ctor" and "std::pair" in (n.get("cls") or "") and len(n.get("a", [])) == 2:
                    D = D or Defs(f)
                    pair(ctx, f, n, n["a"], D)
                    continue
                if n["k"] == "ctor":
                    D = D or Defs(f)
                    at_rest(ctx, f, n, D)
                for a, (name, ty) in zip(n.get("a", []), pn or []):
                    want = role_of_name(name, ty)
                    if want is None or want[0] == "secondary":
                        continue
                    D = D or Defs(f)
                    judge(ctx, f, a, sources(a, D), want, "%s of %s" % (name, (n.get("fn") or n.get("cls") or "?").split("::")[-1]))
            elif n["k"] in ("bin", "opcall") and n.get("op") in ("==", "!=") and (n["k"] == "bin" or len(n["a"]) == 2):
                lhs, rhs = (n["lhs"], n["rhs"]) if n["k"] == "bin" else n["a"]
                D = D or Defs(f)
                a, b = sources(lhs, D), sources(rhs, D)
                if len(a) == 1 and len(b) == 1:
                    judge(ctx, f, n, a, next(iter(b)), "compared with it")
            elif (n["k"] == "bin" and n["op"] == "=") or (n["k"] == "opcall" and n.get("op") == "=" and len(n["a"]) == 2):
                lhs, rhs = (n["lhs"], n["rhs"]) if n["k"] == "bin" else n["a"]
                t = strip(lhs)
                if t is None:
                    continue
                want = None
                if t["k"] == "mem":
                    want = role_of_name(t["n"], t.get("t"))
                elif t["k"] == "idx" or (t["k"] == "opcall" and t.get("op") == "[]"):
                    D = D or Defs(f)
                    b = strip(t["b"] if t["k"] == "idx" else t["a"][0])
                    if b is not None and b["k"] == "mem":
                        got = sources(t, D)
                        want = next(iter(got)) if len(got) == 1 else None
                if want is None or want[0] == "secondary":
                    continue
                D = D or Defs(f)
                judge(ctx, f, rhs, sources(rhs, D), want, "the field %s" % text(t))


def at_rest(ctx, f, n, D):
    """a four-momentum of a particle at rest is the target's or a product's, never the incoming primary's"""
    if (n.get("cls") or "").split("::")[-1] != "P4" or len(n.get("a", [])) != 2:
        return
    v, m = strip(n["a"][0]), sources(n["a"][1], D)
    if v is None or v["k"] != "ctor" or not m:
        return
    xs = [strip(x) for x in v.get("a", [])]
    if not all(x is not None and x["k"] in ("int", "float", "real", "num", "zero") and float(x.get("v", 1)) == 0 for x in xs):
        return
    ctx.count("at_rest")
    if any(r == ("primary", "mass") for r in m) and "Decay" not in (f.get("cls") or ""):
        ctx.violate("at rest in %s" % nm(f["qn"]), where(f, n), "%s gives the particle at rest the mass of the incoming primary" % f["qn"])
    else:
        ctx.ok("%s: the particle at rest has the target's mass" % nm(f["qn"]))


def decays(ctx, F, fns):
    """a decay has no target"""
    root = "siren::interactions::Decay"
    for f in fns:
        c = f.get("cls") or ""
        if c != root and root not in F.bases(c):
            continue
        ctx.count("decay_functions")
        for n in walk(f["body"]):
            if n["k"] == "mem" and n["n"] in ("target_mass", "target_helicity") or n["k"] == "mcall" and n.get("fn") in ("GetTargetMass", "GetTargetHelicity"):
                if any(x["k"] in ("bin", "opcall") and x.get("op") == "=" and strip(x["lhs"] if x["k"] == "bin" else x["a"][0]) is n for x in walk(f["body"])):
                    continue
                ctx.violate("%s reads the target" % nm(f["qn"]), where(f, n), "%s reads a property of the target; a decay has none, the decaying particle is the primary" % f["qn"])
                break
        else:
            ctx.ok("%s: no target in a decay" % nm(f["qn"]))


def text(t):
    if t["k"] == "mem":
        return t["n"]
    if t["k"] == "ref":
        return t["n"]
    b = t.get("b") or (t["a"][0] if t.get("a") else None)
    b = strip(b) if b else None
    return (text(b) if b and b["k"] in ("mem", "ref") else "?") + "[]"


def judge(ctx, f, a, got, want, what):
    if not got:
        return
    ctx.count("flows")
    bad = [s for s in got if clash(s, want)]
    if bad:
        ctx.violate("%s %s in %s <- %s %s" % (want[0], want[1], nm(f["qn"]), bad[0][0], bad[0][1]), where(f, a),
                    "%s: the %s's %s is used as the %s's %s (%s)" % (f["qn"].split("::", 1)[-1], bad[0][0], bad[0][1], want[0], want[1], what))
    else:
        ctx.ok("%s: %s gets the %s's %s" % (nm(f["qn"]), what, want[0], want[1]))


def pair(ctx, f, n, args, D):
    """a (primary, target) key has that order everywhere"""
    if len(args) != 2:
        return
    a, b = sources(args[0], D), sources(args[1], D)
    if not a or not b:
        return
    ra, rb = {r for r, k in a if k == "type"}, {r for r, k in b if k == "type"}
    if ra and rb and (ra | rb) == {"primary", "target"} and ra != rb:
        ctx.count("keys")
        if ra == {"target"}:
            ctx.violate("swapped key in %s" % nm(f["qn"]), where(f, n), "%s builds a (target, primary) key; the keys are (primary, target) elsewhere" % f["qn"])
        else:
            ctx.ok("%s: (primary, target) key" % nm(f["qn"]))


# ---- cross sections of a target are evaluated for that target --------------------------------

XS = "siren::interactions::CrossSection"
EVAL = {"TotalCrossSection", "TotalCrossSectionAllFinalStates"}


def base_ref(e):
    e = strip(e)
    while e is not None and e["k"] in ("mem",):
        e = strip(e.get("b"))
    return e


def key_of(e, D, seen=()):
    """canonical text of a target expression, locals with a single definition looked through"""
    e = strip(e)
    if e is None:
        return "?"
    if e["k"] == "ref":
        ds = D.d.get(e.get("id"), [])
        if len(ds) == 1 and e.get("id") not in seen and ds[0]["k"] != "elem":
            return key_of(ds[0], D, seen + (e.get("id"),))
        return "v%s" % e.get("id") if e.get("id") is not None else "g" + str(e.get("n"))
    if e["k"] == "mem":
        return key_of(e.get("b"), D, seen) + "." + e["n"]
    if e["k"] == "idx":
        return key_of(e["b"], D, seen) + "[" + key_of(e["i"], D, seen) + "]"
    if e["k"] == "opcall" and e.get("op") == "[]" and len(e["a"]) == 2:
        return key_of(e["a"][0], D, seen) + "[" + key_of(e["a"][1], D, seen) + "]"
    if e["k"] == "opcall" and e.get("op") in ("->", "*"):
        return "[".join(key_of(x, D, seen) for x in e["a"])
    if e["k"] == "mcall" and e.get("fn") in ("front", "at") and len(e.get("a", [])) <= 1:
        return key_of(e.get("obj"), D, seen) + "[" + (key_of(e["a"][0], D, seen) if e.get("a") else "0") + "]"
    if e["k"] == "mcall":
        return key_of(e.get("obj"), D, seen) + "." + str(e.get("fn")) + "(" + ",".join(key_of(x, D, seen) for x in e.get("a", [])) + ")"
    if e["k"] == "int":
        return str(e["v"])
    if e["k"] == "this":
        return "this"
    if e["k"] == "bin":
        return "(" + key_of(e["lhs"], D, seen) + e["op"] + key_of(e["rhs"], D, seen) + ")"
    if e["k"] == "cond":
        return "(" + "?".join(key_of(e[x], D, seen) for x in ("cond", "then", "else")) + ")"
    return "?%s" % id(e)


def target_of(e, D, seen=()):
    """the target the list of cross sections was looked up for: expression, or None"""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "mcall" and e.get("fn") == "GetCrossSectionsForTarget" and e.get("a"):
        return key_of(e["a"][0], D)
    if e["k"] == "mcall" and e.get("fn") == "at" and map_type((strip(e.get("obj")) or {}).get("t")) and "CrossSection" in strip(e["obj"]).get("t", ""):
        return key_of(e["a"][0], D)
    if e["k"] == "opcall" and e.get("op") == "[]" and map_type((strip(e["a"][0]) or {}).get("t")) and "CrossSection" in strip(e["a"][0]).get("t", ""):
        return key_of(e["a"][1], D)
    if e["k"] == "mem" and e["n"] == "second" and "CrossSection" in (e.get("t") or ""):
        return key_of(e["b"], D) + ".first"
    if e["k"] == "elem":
        return target_of(e["b"], D, seen)
    if e["k"] == "ref":
        for x in D.d.get(e.get("id"), []):
            if e.get("id") in seen:
                break
            r = target_of(x, D, seen + (e.get("id"),))
            if r:
                return r
    if e["k"] in ("idx", "opcall"):
        return target_of(e.get("b") or e["a"][0], D, seen)
    return None


def per_target(ctx, F, f):
    calls = [n for n in walk(f["body"]) if n["k"] == "mcall" and n.get("fn") in EVAL and len(n.get("a", [])) == 1]
    if not calls:
        return
    D = Defs(f)
    for n in calls:
        t = target_of(n.get("obj"), D)
        if t is None:
            continue
        r = base_ref(n["a"][0])
        if r is None or r["k"] != "ref":
            continue
        ctx.count("target_sums")
        good, wrong, mass = False, None, None
        for x in walk(f["body"]):
            if x is n:
                break
            if not ((x["k"] == "bin" and x["op"] == "=") or (x["k"] == "opcall" and x.get("op") == "=" and len(x["a"]) == 2)):
                continue
            lhs, rhs = (x["lhs"], x["rhs"]) if x["k"] == "bin" else x["a"]
            l = strip(lhs)
            b = base_ref(l)
            if l is None or l["k"] != "mem" or b is None or b.get("id") != r.get("id"):
                continue
            if l["n"] == "target_type":
                if key_of(rhs, D) == t:
                    good, wrong = True, None
                else:
                    wrong = "signature.target_type is set to something else"
            elif l["n"] == "signature":
                if signature_for(rhs, D, t):
                    good, wrong = True, None
                else:
                    wrong = "signature is not one of that target's"
            elif l["n"] == "target_mass":
                m = strip(rhs)
                if m is not None and m["k"] == "mcall" and m.get("fn") == "GetTargetMass" and m.get("a"):
                    mass = x if key_of(m["a"][0], D) != t else None
        if wrong or not good:
            ctx.violate("%s target of %s" % (nm(f["qn"]), n["fn"]), where(f, n), "%s evaluates the cross sections of a target with a record that is not about that target (%s)" % (f["qn"], wrong or "its target type is never set"))
        elif mass is not None:
            ctx.violate("%s target mass of %s" % (nm(f["qn"]), n["fn"]), where(f, mass), "%s evaluates the cross sections of one target with the mass of another" % f["qn"])
        else:
            ctx.ok("%s: %s of the target it was looked up for" % (nm(f["qn"]), n["fn"]))


def signature_for(e, D, t, seen=()):
    """e is a signature out of GetPossibleSignaturesFromParents(.., t)"""
    e = strip(e)
    if e is None:
        return False
    if e["k"] == "elem":
        return signature_for(e["b"], D, t, seen)
    if e["k"] == "mcall" and e.get("fn") == "GetPossibleSignaturesFromParents":
        return len(e["a"]) == 2 and key_of(e["a"][1], D) == t
    if e["k"] in ("idx",) or (e["k"] == "opcall" and e.get("op") == "[]"):
        return signature_for(e.get("b") or e["a"][0], D, t, seen)
    if e["k"] == "ref" and e.get("id") not in seen:
        return any(signature_for(x, D, t, seen + (e.get("id"),)) for x in D.d.get(e.get("id"), []))
    return False


# ---- signatures asked for a pair of parents are filtered by both ------------------------------

class Filt(Interp):
    MAXDEPTH = 4
    MAXSTEPS = 20000

    def h_loop_iterations(self, n):
        return 1

    def truth(self, v, node):
        t = super().truth(v, node)
        if v.const is None:
            self.__dict__.setdefault("trace", []).append((v, t))
        return t

    def h_call(self, node, callee, obj, args):
        if node.get("fn") in ("push_back", "emplace_back", "insert", "append") and obj is not None and "InteractionSignature" in ((node.get("obj") or {}).get("t") or "InteractionSignature"):
            self.__dict__.setdefault("adds", []).append((set(d for v, _ in self.__dict__.get("trace", []) for d in v.deps), args, obj))
        return None

    def should_inline(self, fn, obj, args, node):
        return (fn.get("cls") or "") == self.dyn_class and not fn["n"].startswith("GetPossible")


def filtering(ctx, F):
    n = 0
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        name = f["n"]
        if name not in ("GetPossibleSignaturesFromParents", "GetPossibleSignaturesFromParent") or f.get("body") is None or not in_scope(f):
            continue
        if nm(f.get("cls") or "").split("::")[-1].startswith("py") or not f["params"]:
            continue
        if all(x["k"] in ("block", "throw", "return", "null") for x in ([f["body"]] + f["body"].get("c", []))) and any(x["k"] == "throw" for x in f["body"].get("c", [])):
            continue
        n += 1
        one_filter(ctx, F, f)
    ctx.require(n >= 8, "the signature queries were not found")


def one_filter(ctx, F, f):
    short = nm(f["cls"])
    ps = [("p%d" % i,) for i in range(len(f["params"]))]

    def go(it):
        try:
            r = it.call_function(f, V(("this",)), [V(p) for p in ps])
        except Thrown:
            r = None
        return it, r
    try:
        rs = Filt.explore(lambda: Filt(F, f["cls"]), go, limit=2000)
    except TooComplex:
        ctx.notes.append("%s: too many paths, not decided" % short)
        return
    names = [p["n"] or "parameter %d" % i for i, p in enumerate(f["params"])]
    for i, p in enumerate(ps):
        ctx.count("filters")
        bad = False
        for it, r in rs:
            if r is None:
                continue
            adds = it.__dict__.get("adds", [])
            deps = set(d for v, _ in it.__dict__.get("trace", []) for d in v.deps)
            looked = set(r.deps)
            for e in r.elems or []:
                pass
            empty = not adds and not nonempty(r, it)
            if empty:
                continue
            if adds:
                seen = set()
                for dd, args, obj in adds:
                    seen |= dd
                deps = seen if not nonempty(r, it) else deps
            if not any(d[:1] == p for d in deps) and not keyed(r, p):
                bad = True
        if bad:
            ctx.violate("%s ignores %s" % (short, names[i]), F.where(f), "%s::%s can return signatures without having looked at %s, so it offers processes for parents it does not handle" % (short, f["n"], names[i]))
        else:
            ctx.ok("%s: signatures filtered by %s" % (short, names[i]))


def nonempty(r, it):
    return bool(r.elems) or (r.path is not None and r.path[0] == "this") or any(d[0] == "this" for d in r.deps)


def keyed(r, p):
    return any(d[:1] == p for d in r.deps) and any(d[0] == "this" for d in r.deps)
