"""Components of vectors and four-momenta keep their order and their owner."""
import re
from ..interp import walk
from .serial import nm
from .roles import Defs, strip, key_of, where, sources

ACC = {"e": 0, "E": 0, "px": 1, "py": 2, "pz": 3,
       "GetX": "x", "GetY": "y", "GetZ": "z", "GetW": "w", "x": "x", "y": "y", "z": "z",
       "GetPx": 1, "GetPy": 2, "GetPz": 3}
FIELD = {"x_": "x", "y_": "y", "z_": "z", "w_": "w", "fX": "x", "fY": "y", "fZ": "z"}
FOUR = re.compile(r"std::array<double, ?4>|array<double, 4")
THREE = re.compile(r"std::array<double, ?3>|array<double, 3")


def width(e, D):
    """length of the fixed-size array an expression is, or None"""
    t = (e or {}).get("t") or ""
    if FOUR.search(t) and not "vector" in t.split("array")[0]:
        return 4
    if THREE.search(t) and not "vector" in t.split("array")[0]:
        return 3
    return None


def component(e, D, seen=()):
    """(owner, which, kind) when the expression is one component of something"""
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "idx" or (e["k"] == "opcall" and e.get("op") == "[]") or (e["k"] == "mcall" and e.get("fn") == "at"):
        b = e.get("b") if e["k"] == "idx" else (e["a"][0] if e["k"] == "opcall" else e.get("obj"))
        i = strip(e.get("i") if e["k"] == "idx" else (e["a"][1] if e["k"] == "opcall" else e["a"][0]))
        w = width(strip(b), D)
        if w and i is not None and i["k"] == "int":
            return (key_of(b, D), int(i["v"]), "array%d" % w, b)
        return None
    if e["k"] == "mcall" and not e.get("a") and e.get("fn") in ACC and e.get("obj") is not None:
        c = ACC[e["fn"]]
        cls = e.get("cls") or e.get("qn") or ""
        return (key_of(e["obj"], D), c, "p4" if isinstance(c, int) else "vec", e["obj"])
    if e["k"] == "ref" and e.get("dk") != "p" and e.get("id") not in seen:
        ds = D.d.get(e.get("id"), [])
        if len(ds) == 1 and ds[0]["k"] != "elem":
            return component(ds[0], D, seen + (e.get("id"),))
    return None


def linear(e, D, seen=()):
    """components an expression is a linear combination of; None when it is something else"""
    e = strip(e)
    if e is None:
        return None
    c = component(e, D, seen)
    if c:
        return [c]
    k = e["k"]
    if k == "un" and e.get("op") in ("-", "+"):
        return linear(e["e"], D, seen)
    if k == "paren":
        return linear(e.get("e"), D, seen)
    if k == "bin" and e["op"] in ("+", "-", "*", "/"):
        a, b = linear(e["lhs"], D, seen), linear(e["rhs"], D, seen)
        if a is None or b is None:
            return None
        if e["op"] in ("+", "-"):
            return a + b
        if a and b:
            return None
        if e["op"] == "/" and b:
            return None
        return a + b
    if k == "ref" and e.get("dk") != "p" and e.get("id") not in seen:
        ds = D.d.get(e.get("id"), [])
        if len(ds) == 1 and ds[0]["k"] != "elem":
            return linear(ds[0], D, seen + (e.get("id"),))
        return []
    if k in ("ref", "mem", "int", "float", "idx"):
        return []
    # a scalar: a call whose arguments are not followed
    if k in ("call", "mcall"):
        return []
    return None


CANON = {
    ("array4", 3): [1, 2, 3], ("array4", 4): [0, 1, 2, 3], ("array3", 3): [0, 1, 2],
    ("p4", 3): [1, 2, 3], ("p4", 4): [0, 1, 2, 3], ("vec", 3): ["x", "y", "z"], ("vec", 4): ["x", "y", "z", "w"],
}


def tuples(n):
    """groups of 3 or 4 expressions that form one vector"""
    if n["k"] == "ctor" and len(n.get("a", [])) in (3, 4):
        yield n["a"], (n.get("cls") or "").split("::")[-1]
    elif n["k"] == "ilist" and len(n.get("a", [])) in (3, 4):
        yield n["a"], "array"
    elif n["k"] == "call" and n.get("fn") in ("make_tuple", "tie") and len(n.get("a", [])) in (3, 4):
        yield n["a"], n["fn"]
    elif n["k"] == "mcall" and n.get("fn", "").startswith("Set") and len(n.get("a", [])) in (3, 4):
        yield n["a"], n["fn"]


def in_files(f):
    return f.get("body") is not None and "/test" not in f["file"] and "/projects/" in f["file"]


def run(ctx):
    F = ctx.F
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        if not in_files(f):
            continue
        D = None
        for b in [f["body"]] + [i.get("e") for i in f.get("inits", [])]:
            for n in walk(b):
                for args, what in tuples(n):
                    D = D or Defs(f)
                    judge(ctx, F, f, n, args, what, D)
                if n["k"] == "mcall" and n.get("fn") in SETC and len(n.get("a", [])) == 1:
                    D = D or Defs(f)
                    setter(ctx, f, n, D)
                if n["k"] in ("call", "mcall", "ctor") and n.get("a"):
                    m = F.functions.get(n.get("usr"))
                    if m is not None:
                        D = D or Defs(f)
                        named(ctx, f, n, m, D)
                if n["k"] == "bin" and n["op"] == "=":
                    D = D or Defs(f)
                    slot(ctx, f, n, D)
                if n["k"] == "ctor" and (n.get("cls") or "").endswith("P4") and len(n.get("a", [])) == 2:
                    D = D or Defs(f)
                    owner(ctx, f, n, D)
    ctx.require(ctx.counts.get("tuples", 0) > 30, "no vectors built from components found")


def judge(ctx, F, f, n, args, what, D):
    cs = [component(a, D) for a in args]
    got = [c for c in cs if c]
    if len(got) < len(args):
        combos(ctx, f, n, args, what, D)
    if len(got) < 2:
        return
    kinds = {c[2] for c in got}
    if len(kinds) != 1:
        return
    kind = kinds.pop()
    want = CANON.get((kind, len(args)))
    if want is None:
        return
    ctx.count("tuples")
    short = nm(f["qn"])
    bad = [(i, c) for i, c in enumerate(cs) if c and c[1] != want[i]]
    if len(got) == len(args) and not bad:
        if kind != "vec" and len({c[0] for c in got}) > 1:
            ctx.violate("%s mixes vectors" % short, where(f, n), "%s builds one %s from components of different vectors" % (f["qn"], what))
            return
        ctx.ok("%s: components in order" % short)
    elif bad:
        ctx.violate("%s component order" % short, where(f, n), "%s builds %s with component %s in place %d" % (f["qn"], what, bad[0][1][1], bad[0][0]))


def combos(ctx, f, n, args, what, D):
    """linear combinations of components keep each component in its place"""
    ls = [linear(a, D) for a in args]
    if any(not l for l in ls):
        return
    short = nm(f["qn"])
    for i, l in enumerate(ls):
        for c in l:
            want = CANON.get((c[2], len(args)))
            if want is None or (c[2] == "p4" and len(args) == 3):
                return
    if any(len({c[1] for c in l if c[2] == k}) > 1 for l in ls for k in {c[2] for c in l}):
        return      # a linear map: rotation, projection
    ctx.count("combinations")
    for i, l in enumerate(ls):
        for c in l:
            if c[1] != CANON[(c[2], len(args))][i]:
                ctx.violate("%s component order" % short, where(f, n), "%s builds %s with component %s in place %d" % (f["qn"], what, c[1], i))
                return
    ctx.ok("%s: components in order" % short)


SETC = {"SetX": "x", "SetY": "y", "SetZ": "z", "SetW": "w"}
NAMED = {"energy": 0, "primary_energy": 0, "px": 1, "py": 2, "pz": 3}


def setter(ctx, f, n, D):
    c = component(n["a"][0], D)
    if c is None or c[2] != "vec":
        return
    ctx.count("slots")
    if c[1] != SETC[n["fn"]]:
        ctx.violate("%s component %s by %s" % (nm(f["qn"]), c[1], n["fn"]), where(f, n), "%s calls %s with the %s component" % (f["qn"], n["fn"], c[1]))
    else:
        ctx.ok("%s: components in their slots" % nm(f["qn"]))


def named(ctx, f, n, m, D):
    """a parameter called energy, px, .. gets that component of a four-momentum"""
    for a, p in zip(n["a"], m["params"]):
        if p["n"] not in NAMED:
            continue
        c = component(a, D)
        if c is None or c[2] not in ("array4", "p4"):
            continue
        ctx.count("slots")
        if c[1] != NAMED[p["n"]]:
            ctx.violate("%s component %s as %s" % (nm(f["qn"]), c[1], p["n"]), where(f, a), "%s passes component %s of a four-momentum as %s" % (f["qn"], c[1], p["n"]))
        else:
            ctx.ok("%s: %s is component %s" % (nm(f["qn"]), p["n"], c[1]))


def slot(ctx, f, n, D):
    l = strip(n["lhs"])
    if l is None or not (l["k"] == "idx" or (l["k"] == "opcall" and l.get("op") == "[]")):
        return
    b = l.get("b") if l["k"] == "idx" else l["a"][0]
    i = strip(l.get("i") if l["k"] == "idx" else l["a"][1])
    w = width(strip(b), D)
    if not w or i is None or i["k"] != "int":
        return
    c = component(n["rhs"], D)
    if c is None:
        return
    i = int(i["v"])
    want = None
    if c[2] == "p4" or c[2] == "array%d" % w:
        want = c[1]
    elif c[2] == "vec":
        want = {"x": 0, "y": 1, "z": 2, "w": 3}[c[1]] + (1 if w == 4 else 0)
    elif c[2] == "array3" and w == 4:
        want = c[1] + 1
    elif c[2] == "array4" and w == 3:
        want = c[1] - 1
    if want is None:
        return
    ctx.count("slots")
    if want != i:
        ctx.violate("%s component %s in slot %d" % (nm(f["qn"]), c[1], i), where(f, n), "%s stores component %s in slot %d of a %d-component array" % (f["qn"], c[1], i, w))
    else:
        ctx.ok("%s: components in their slots" % nm(f["qn"]))


def owner(ctx, f, n, D):
    """a four-momentum is built from the momentum and the mass of one particle"""
    v = strip(n["a"][0])
    if v is None or v["k"] != "ctor" or len(v.get("a", [])) != 3:
        return
    c = component(v["a"][0], D)
    if c is None or c[2] != "array4":
        return
    m = strip(n["a"][1])
    pk, mk = c[0], key_of(n["a"][1], D)
    mp = re.match(r"(.*)\.primary_momentum$", pk)
    sp = re.match(r"(.*)\.secondary_momenta\[(.*?)\]?$", pk)
    mm = re.match(r"(.*)\.(primary|target)_mass$", mk)
    sm = re.match(r"(.*)\.secondary_masses\[(.*?)\]?$", mk)
    if not (mp or sp) or not (mm or sm):
        return
    ctx.count("four_momenta")
    good = (mp and mm and mm.group(2) == "primary") or (sp and sm and (sp.group(2) == sm.group(2) or "?" in re.sub(r"\(.*\)", "", sp.group(2) + sm.group(2))))
    if good:
        ctx.ok("%s: momentum and mass of one particle" % nm(f["qn"]))
    else:
        ctx.violate("%s mixes particles" % nm(f["qn"]), where(f, n), "%s builds a four-momentum from the momentum of one particle and the mass of another" % f["qn"])
