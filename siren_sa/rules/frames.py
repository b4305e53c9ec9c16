"""C25: coordinates change frame only through the conversion made for them."""
import re
from ..interp import walk
from .roles import Defs, strip, key_of, where

TAG = re.compile(r"^(?:const )?fluent::NamedType<siren::math::Vector3D, (?:struct )?siren::(?:detector|geometry)::(Geometry|Detector|Local)(Position|Direction)Tag\b[^&*]*[&* ]*$")
KIND = {"Position": "pos", "Direction": "dir"}
VEC = re.compile(r"^(?:const )?(?:siren::)?(?:math::)?Vector3D(?: const)?[&* ]*$")
# what the event records hold is in detector coordinates
RECORD = {"interaction_vertex": "pos", "primary_initial_position": "pos"}
RECORD_FN = {"GetInteractionVertex": "pos", "GetInitialPosition": "pos", "GetDirection": "dir"}
CONV = re.compile(r"^(GlobalToLocal|LocalToGlobal)(Position|Direction)$")
LISTS = ("siren::geometry::Geometry::Intersection", "siren::geometry::Geometry::IntersectionList")


def nm(f):
    return f["qn"].replace("siren::", "")


def tag(t):
    m = TAG.match((t or "").strip())
    return (m.group(1), KIND[m.group(2)]) if m else None


def is_vec(t):
    return bool(VEC.match((t or "").strip()))


# ------------------------------------------------------------------ words
class Undecided(Exception):
    pass


class Words:
    """what a conversion does to its argument: a word over rotations and shifts"""

    def __init__(self, F, fn):
        self.F = F
        self.fn = fn

    def results(self):
        """[(word, under identity)] of every return of the function, applied to its first vector parameter"""
        return self.call(self.fn, [("arg", ())] + [None] * (len(self.fn["params"]) - 1), 0)

    def call(self, fn, args, depth):
        if depth > 5 or fn.get("body") is None:
            raise Undecided("no body for " + fn["n"])
        env = {p["id"]: a for p, a in zip(fn["params"], args)}
        self.depth = depth
        out = []
        self.block([fn["body"]], [(dict(env), False)], out)
        if not out:
            raise Undecided("nothing returned")
        return out

    def block(self, stmts, states, out):
        """-> states that fall through"""
        for s in stmts:
            if s is None:
                continue
            k = s["k"]
            nxt = []
            for env, idn in states:
                if k == "block":
                    nxt += self.block(s["c"], [(env, idn)], out)
                elif k == "decl":
                    for v in s["vars"]:
                        env[v["id"]] = self.ev(v["init"], env) if v.get("init") is not None else None
                    nxt.append((env, idn))
                elif k == "return":
                    for w in self.alts(s.get("v"), env):
                        out.append((w, idn))
                elif k == "if":
                    same = self.identity(s["cond"], env)
                    c = self.const(s["cond"], env)
                    if c is not False:
                        nxt += self.block([s["then"]], [(dict(env), idn or same is True)], out)
                    if c is not True:
                        nxt += self.block([s["else"]] if s.get("else") else [], [(dict(env), idn or same is False)], out)
                elif k in ("null",):
                    nxt.append((env, idn))
                elif k == "throw":
                    pass
                elif k in ("for", "while", "do", "range", "switch", "try"):
                    raise Undecided("loop")
                else:
                    self.effect(s, env)
                    nxt.append((env, idn))
            states = nxt
        return states

    def identity(self, c, env):
        """True: holds only where nothing is to be converted; False: fails only there"""
        c = strip(c)
        if c is None:
            return None
        if c["k"] == "un" and c.get("op") in ("!", "not"):
            r = self.identity(c["e"], env)
            return None if r is None else not r
        if c["k"] == "mcall" and c.get("fn") == "IsIdentity":
            return True
        if c["k"] == "mem" and c["n"] == "is_identity_":
            return True
        return None

    def const(self, c, env):
        c = strip(c)
        if c is None:
            return None
        if c["k"] == "bool":
            return bool(c["v"])
        if c["k"] == "un" and c.get("op") in ("!", "not"):
            r = self.const(c["e"], env)
            return None if r is None else not r
        if c["k"] == "ref" and c.get("id") in env and isinstance(env[c["id"]], tuple) and env[c["id"]][0] == "bool":
            return env[c["id"]][1]
        return None

    def effect(self, s, env):
        e = strip(s)
        if e is None:
            return
        if e["k"] == "opcall" and e.get("op") in ("=", "+=", "-=") and len(e["a"]) == 2:
            l = strip(e["a"][0])
            if l["k"] == "ref":
                v = self.ev(e["a"][1], env)
                if e["op"] == "=":
                    env[l["id"]] = v
                else:
                    env[l["id"]] = self.add(env.get(l["id"]), v, e["op"][0])
                return
        if e["k"] == "bin" and e.get("op") == "=" and strip(e["lhs"])["k"] == "ref":
            env[strip(e["lhs"])["id"]] = self.ev(e["rhs"], env)
            return
        for n in walk(e):
            if n["k"] == "ref" and isinstance(env.get(n.get("id")), tuple):
                if n["k"] in ("mcall", "opcall") or e["k"] in ("mcall", "opcall") and e.get("obj") is not None and strip(e["obj"]) is n and not e.get("cm"):
                    env[n["id"]] = None

    def alts(self, e, env):
        s = strip(e)
        if s is not None and s["k"] == "cond":
            c = self.const(s["cond"], env)
            if c is True:
                return self.alts(s["then"], env)
            if c is False:
                return self.alts(s["else"], env)
            i = self.identity(s["cond"], env)
            if i is True:
                return self.alts(s["else"], env)
            if i is False:
                return self.alts(s["then"], env)
            return self.alts(s["then"], env) + self.alts(s["else"], env)
        v = self.ev(e, env)
        if v is None or v[0] != "arg":
            raise Undecided("unknown result")
        return [v[1]]

    def ev(self, e, env):
        """('arg', word) | ('member', name, sign) | ('rot', name, inverse) | ('bool', b) | None"""
        e = strip(e)
        if e is None:
            return None
        k = e["k"]
        if k == "bool":
            return ("bool", bool(e["v"]))
        if k == "ref":
            return env.get(e.get("id"))
        if k == "un" and e.get("op") in ("!", "not"):
            c = self.const(e, env)
            return None if c is None else ("bool", c)
        if k == "mem" and strip(e.get("b") or {"k": "this"})["k"] == "this":
            if is_vec(e.get("t")):
                return ("member", e["n"], 1)
            if "Quaternion" in (e.get("t") or ""):
                return ("rot", e["n"], False)
            if tag(e.get("t")):
                return ("member", e["n"], 1)
            return None
        if k == "ctor" and len(e.get("a", [])) == 1 and (is_vec(e.get("t")) or tag(e.get("t"))):
            return self.ev(e["a"][0], env)
        if k == "opcall" and e.get("op") in ("+", "-") and len(e["a"]) == 2:
            return self.add(self.ev(e["a"][0], env), self.ev(e["a"][1], env), e["op"])
        if k == "opcall" and e.get("op") == "-" and len(e["a"]) == 1:
            v = self.ev(e["a"][0], env)
            return ("member", v[1], -v[2]) if v and v[0] == "member" else None
        if k == "mcall":
            fn, obj = e.get("fn"), e.get("obj")
            if fn == "get" or (fn or "").startswith("operator "):
                return self.ev(obj, env)
            if fn == "rotate" and len(e.get("a", [])) in (1, 2):
                q, x = self.ev(obj, env), self.ev(e["a"][0], env)
                inv = self.const(e["a"][1], env) if len(e["a"]) == 2 else False
                if q and q[0] == "rot" and x and x[0] == "arg" and inv is not None:
                    return ("arg", x[1] + (("R", q[1], q[2] != inv),))
                return None
            if fn in ("conjugated", "inverted", "inverse", "conjugate") and not e.get("a"):
                q = self.ev(obj, env)
                return ("rot", q[1], not q[2]) if q and q[0] == "rot" else None
            if fn in ("GetPosition", "GetQuaternion", "GetDetectorOrigin", "GetDetectorRotation") or (obj is not None and strip(obj)["k"] in ("this", "mem")):
                m = self.F.functions.get(e.get("usr"))
                if m is not None and m.get("body") is not None and not m.get("virt"):
                    if strip(obj)["k"] == "mem" and "Placement" not in (strip(obj).get("t") or ""):
                        return None
                    d = self.depth
                    args = [self.ev(a, env) for a in e.get("a", [])]
                    if args and args[0] and args[0][0] == "arg":
                        r = [w for w, i in self.call(m, args, d + 1) if not i]
                        self.depth = d
                        return ("arg", r[0]) if r and all(x == r[0] for x in r) else None
                    rets = [n for n in walk(m["body"]) if n["k"] == "return"]
                    if not e.get("a") and len(rets) == 1:
                        return self.ev(rets[0].get("v"), {})
        return None

    def add(self, a, b, op):
        if a is None or b is None:
            return None
        if a[0] == "arg" and b[0] == "member":
            return ("arg", a[1] + (("T", b[1], (b[2] > 0) == (op == "+")),))
        if a[0] == "member" and b[0] == "arg" and op == "+":
            return ("arg", b[1] + (("T", a[1], a[2] > 0),))
        return None


def inverse(w):
    return tuple((k, n, not f) for k, n, f in reversed(w))


def show(w):
    t = []
    for k, n, f in w:
        t.append(("rotate by " if not f else "rotate back by ") + n if k == "R" else ("add " if f else "subtract ") + n)
    return ", then ".join(t) or "nothing"


def conversions(ctx, F):
    done = {}
    for f in sorted(F.functions.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("body") is None or "/test" in f["file"] or not f.get("cls"):
            continue
        m = CONV.match(f["n"])
        role = None
        if m and len(f["params"]) == 1:
            role = ("out" if m.group(1) == "LocalToGlobal" else "in", KIND[m.group(2)])
        elif f["n"] in ("ToGeo", "ToDet") and len(f["params"]) == 1 and tag(f["params"][0]["t"]):
            fr, kd = tag(f["params"][0]["t"])
            role = ("out" if f["n"] == "ToGeo" else "in", kd)
        if role is None:
            continue
        ctx.count("conversions")
        try:
            res = Words(F, f).results()
        except Undecided as u:
            ctx.notes.append("%s: conversion not decided (%s)" % (nm(f), u))
            continue
        done.setdefault(f["cls"], []).append((role, f, res))
    for cls, fs in sorted(done.items()):
        rot = shift = None
        for role, f, res in fs:
            for w, i in res:
                if i:
                    continue
                for k, n, fl in w:
                    if k == "R":
                        rot = rot or n
                    else:
                        shift = shift or n
        for role, f, res in fs:
            d, kd = role
            want = (("R", rot, False),) + ((("T", shift, True),) if kd == "pos" else ())
            if d == "in":
                want = inverse(want)
            for w, i in res:
                if i and w in ((), want):
                    ctx.ok("%s: unchanged where the placement does nothing" % nm(f))
                    continue
                if w != want:
                    ctx.violate("conv:%s:%s" % (nm(f), ",".join(p["t"][:90] for p in f["params"])), where(f, f),
                                "%s takes a %s %s the frame of the object, but does: %s; the conversion is: %s" %
                                (nm(f), {"pos": "position", "dir": "direction"}[kd], "out of" if d == "out" else "into", show(w), show(want)))
                else:
                    ctx.ok("%s: %s" % (nm(f), show(w)))
    ctx.require(sum(len(v) for v in done.values()) >= 4, "the coordinate conversions were not found")


def plain_rotation(ctx, F):
    """Placement::Rotate(p, inv) is the direction part of the conversion"""
    for f in F.functions.values():
        if f["n"] != "Rotate" or f.get("cls") != "siren::geometry::Placement" or f.get("body") is None or len(f["params"]) != 2:
            continue
        for inv in (False, True):
            try:
                res = Words(F, f).call(f, [("arg", ()), ("bool", inv)], 0)
            except Undecided as u:
                ctx.notes.append("Placement::Rotate not decided (%s)" % u)
                continue
            for w, i in res:
                if len(w) == 1 and w[0][0] == "R" and w[0][2] == inv or (i and not w):
                    ctx.ok("Placement::Rotate(inv=%s): %s" % (inv, show(w)))
                else:
                    ctx.violate("rotate:%s" % inv, where(f, f), "Placement::Rotate with inv=%s does: %s" % (inv, show(w)))


def conjugation(ctx, F):
    """rotating back uses the conjugate: the scalar part keeps its sign, the vector part changes it"""
    for f in F.functions.values():
        if f["n"] != "rotate" or not (f.get("cls") or "").endswith("math::Quaternion") or f.get("body") is None or len(f["params"]) != 2:
            continue
        pid = f["params"][1]["id"]
        for inv in (False, True):
            got = {}
            signs(f["body"], inv, pid, {}, got)
            for m, ss in sorted(got.items()):
                want = -1 if inv and m != "w_" else 1
                for sg, n in ss:
                    if sg != want:
                        ctx.violate("conj:%s:%s:%s" % (f["params"][0]["t"], m, inv), where(f, n), "Quaternion::rotate with inv=%s takes %s with the %s sign" % (inv, m, "opposite" if sg < 0 else "same"))
                    else:
                        ctx.count("rotation_signs")
                        ctx.ok("Quaternion::rotate inv=%s: sign of %s" % (inv, m))


def signs(n, inv, pid, env, got):
    """signs with which the components enter the locals of a rotation, for one sense of rotation"""
    def cond(c):
        c = strip(c)
        if c is None:
            return None
        if c["k"] == "ref" and c.get("id") == pid:
            return inv
        if c["k"] == "un" and c.get("op") in ("!", "not"):
            r = cond(c["e"])
            return None if r is None else not r
        if c["k"] == "bool":
            return bool(c["v"])
        if c["k"] == "bin" and c.get("op") in ("==", "!="):
            a, b = cond(c["lhs"]), cond(c["rhs"])
            return None if a is None or b is None else (a == b) == (c["op"] == "==")
        return None

    def sg(e):
        """(member or None, sign) of a component times something of known sign; None if unknown"""
        e = strip(e)
        if e is None:
            return None
        k = e["k"]
        if k == "paren":
            return sg(e.get("e"))
        if k == "mem" and e["n"] in ("w_", "x_", "y_", "z_") and strip(e.get("b") or {"k": "this"})["k"] == "this":
            return (e["n"], 1)
        if k == "un" and e.get("op") == "-":
            r = sg(e["e"])
            return (r[0], -r[1]) if r else None
        if k in ("int", "float"):
            try:
                v = float(e["v"])
            except ValueError:
                return None
            return (None, 1 if v > 0 else -1) if v else None
        if k == "cond":
            c = cond(e["cond"])
            if c is None:
                a, b = sg(e["then"]), sg(e["else"])
                return a if a == b else None
            return sg(e["then"] if c else e["else"])
        if k == "bin" and e.get("op") in ("*", "/"):
            a, b = sg(e["lhs"]), sg(e["rhs"])
            if a and b and not (a[0] and b[0]):
                return (a[0] or b[0], a[1] * b[1])
            # a norm is positive
            if a and b is None and norm(e["rhs"]):
                return a
            if b and a is None and norm(e["lhs"]):
                return b
            return None
        if k == "ref" and e.get("id") in env:
            r = env[e["id"]]
            return (None, r) if isinstance(r, int) else None
        return None

    def norm(e):
        e = strip(e)
        return e is not None and e["k"] == "ref" and e.get("id") in env and env[e["id"]] == "norm"

    def record(lid, e, node):
        e = strip(e)
        r = sg(e)
        if r and r[0]:
            got.setdefault(r[0], []).append((r[1], node))
        elif r:
            env[lid] = r[1]
        elif e is not None and any(x["k"] in ("mcall", "call") and (x.get("fn") in ("magnitude", "magnitudesq", "sqrt", "norm")) for x in walk(e)) and not any(x["k"] == "un" and x.get("op") == "-" for x in walk(e)):
            env[lid] = "norm"

    def st(n):
        if n is None or not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "block":
            for c in n["c"]:
                st(c)
        elif k == "decl":
            for v in n["vars"]:
                if v.get("init") is not None:
                    record(v["id"], v["init"], n)
        elif k == "if":
            c = cond(n["cond"])
            if c is not False:
                st(n.get("then"))
            if c is not True:
                st(n.get("else"))
        elif k == "bin" and n.get("op") == "=" and strip(n["lhs"])["k"] == "ref":
            record(strip(n["lhs"])["id"], n["rhs"], n)
    st(n)


# ------------------------------------------------------------------ frames
def is_geometry(F, c):
    return c == "siren::geometry::Geometry" or c in F.all_derived("siren::geometry::Geometry")


class Frames:
    def __init__(self, ctx, F, f):
        self.ctx, self.F, self.f = ctx, F, f
        self.D = Defs(f)
        self.base = {}
        c = f.get("cls") or ""
        for p in f["params"]:
            t = tag(p["t"])
            if t:
                self.base[p["id"]] = {t}
            elif is_vec(p["t"]) and is_geometry(F, c):
                kd = {"position": "pos", "direction": "dir"}.get(p.get("n"))
                if kd:
                    self.base[p["id"]] = {(("own" if f["n"].startswith("Compute") else "outer"), kd)}

    def list_frame(self, b, seen):
        """frame of the intersections an expression holds"""
        b = strip(b)
        if b is None:
            return set()
        k = b["k"]
        if k == "elem":
            return self.list_frame(b["b"], seen)
        if k == "mem" and b["n"] in ("intersections",):
            return self.list_frame(b["b"], seen)
        if k == "mcall" and b.get("fn") in ("front", "back", "at", "begin", "rbegin", "end", "cbegin", "crbegin"):
            return self.list_frame(b.get("obj"), seen)
        if k == "idx" or (k == "opcall" and b.get("op") in ("[]", "->")):
            return self.list_frame(b.get("b") if k == "idx" else b["a"][0], seen)
        if k == "ref":
            if b.get("id") in seen:
                return set()
            out = set()
            for d in self.D.d.get(b.get("id"), []):
                out |= self.list_frame(d, seen + (b.get("id"),))
            if b.get("dk") == "p" and "/detector/" in self.f["file"]:
                return {"Geometry"}
            return out
        if k == "mcall" and b.get("fn") == "Intersections" and len(b.get("a", [])) == 2:
            return {fr for fr, kd in self.fk(b["a"][0], seen)}
        if k == "mcall" and b.get("fn") == "ComputeIntersections" and len(b.get("a", [])) == 2:
            return {"own"} if strip(b.get("obj"))["k"] == "this" else set()
        if k == "mcall" and b.get("fn") in ("GetIntersections", "GetOuterBounds") and (b.get("qn") or "").startswith("siren::detector::"):
            return {"Geometry"}
        if k == "mem" and b["n"] == "intersections_" and "detector::Path" in (b.get("qn") or ""):
            return {"Geometry"}
        return set()

    def fk(self, e, seen=()):
        """{(frame, kind)} an expression is known to have; empty when nothing is known"""
        e = strip(e)
        if e is None:
            return set()
        k = e["k"]
        if k == "cond":
            return self.fk(e.get("then"), seen) | self.fk(e.get("else"), seen)
        if k == "opcall" and e.get("op") in ("+", "-", "*", "/") and (is_vec(e.get("t")) or tag(e.get("t"))):
            return self.arith(e, seen)
        if k == "ctor" and tag(e.get("t")):
            return {tag(e["t"])}
        t = tag(e.get("t"))
        if t:
            return {t}
        if k == "mcall" and (e.get("fn") == "get" or (e.get("fn") or "").startswith("operator ")) and e.get("obj") is not None:
            return self.fk(e["obj"], seen)
        if k == "ctor" and len(e.get("a", [])) == 1 and is_vec(e.get("t")):
            return self.fk(e["a"][0], seen)
        if k == "ctor" and len(e.get("a", [])) == 3 and is_vec(e.get("t")):
            return self.assembled(e["a"], seen)
        if k == "mem" and e["n"] in RECORD and "Record" in (e.get("qn") or ""):
            return {("Detector", RECORD[e["n"]])}
        if k == "mcall" and e.get("fn") in RECORD_FN and "DistributionRecord" in (e.get("qn") or "") and not e.get("a"):
            return {("Detector", RECORD_FN[e["fn"]])}
        if k == "mem" and e["n"] in ("position", "direction") and any((e.get("qn") or "").startswith(x + "::") for x in LISTS):
            return {(fr, "pos" if e["n"] == "position" else "dir") for fr in self.list_frame(e.get("b"), seen)}
        if k in ("mcall", "call") and CONV.match(e.get("fn") or ""):
            m = CONV.match(e["fn"])
            if e.get("obj") is None or strip(e["obj"])["k"] == "this" or (strip(e["obj"])["k"] == "mem" and strip(e["obj"])["n"] == "placement_"):
                return {("own" if m.group(1) == "GlobalToLocal" else "outer", KIND[m.group(2)])}
            return set()
        if k == "ref":
            i = e.get("id")
            if i in seen:
                return set()
            if i in self.base and e.get("dk") == "p":
                return set(self.base[i])
            out = set()
            for d in self.D.d.get(i, []):
                out |= self.fk(d, seen + (i,))
            return out
        return set()

    def assembled(self, args, seen):
        """a vector put together from the components of one"""
        out = None
        for a in args:
            a = strip(a)
            got = set()
            if a is not None and (a["k"] == "idx" or (a["k"] == "opcall" and a.get("op") == "[]") or (a["k"] == "mcall" and a.get("fn") == "at")):
                b = strip(a.get("b") if a["k"] == "idx" else (a["a"][0] if a["k"] == "opcall" else a.get("obj")))
                if b is not None and b["k"] == "mem" and b["n"] == "primary_momentum" and "Record" in (b.get("qn") or ""):
                    got = {("Detector", "disp")}
                else:
                    got = self.fk(b, seen)
            elif a is not None and a["k"] == "mcall" and a.get("fn") in ("GetX", "GetY", "GetZ") and a.get("obj") is not None:
                got = self.fk(a["obj"], seen)
            if not got:
                return set()
            out = got if out is None else out & got
        return out or set()

    def arith(self, e, seen):
        a = self.fk(e["a"][0], seen)
        if len(e["a"]) == 1:
            return a
        b = self.fk(e["a"][1], seen)
        if e["op"] in ("*", "/"):
            v = a or b
            return {(fr, "disp" if kd != "pos" else "pos") for fr, kd in v}
        if not a or not b:
            return set()
        fa, fb = {x for x, _ in a}, {x for x, _ in b}
        if not fa & fb:
            return set()
        ka, kb = {x for _, x in a}, {x for _, x in b}
        if ka == {"pos"} and kb == {"pos"}:
            kd = "disp" if e["op"] == "-" else "pos"
        elif "pos" in ka or "pos" in kb:
            kd = "pos" if not (e["op"] == "-" and "pos" in ka and "pos" in kb) else None
        else:
            kd = "disp"
        return {(fr, kd) for fr in fa & fb} if kd else set()

    def check(self):
        f = self.f
        for b in [f["body"]] + [i.get("e") for i in f.get("inits", [])]:
            self.visit(b, False)

    def visit(self, n, idn):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.visit(x, idn)
            return
        if not isinstance(n, dict):
            return
        if "k" in n:
            self.judge(n, idn)
        if n.get("k") == "if":
            c = Words(self.F, self.f).identity(n.get("cond"), {})
            self.visit(n.get("cond"), idn)
            self.visit(n.get("then"), idn or c is True)
            self.visit(n.get("else"), idn or c is False)
            return
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                self.visit(v, idn)

    def bad(self, n, what, msg):
        self.ctx.violate("frame:%s:%s" % (nm(self.f), what), where(self.f, n), "%s: %s" % (nm(self.f), msg))

    NAMES = {"Geometry": "geometry coordinates", "Detector": "detector coordinates", "Local": "a solid's own coordinates", "own": "the solid's own coordinates", "outer": "the coordinates around the solid"}
    K = {"pos": "position", "dir": "direction", "disp": "displacement"}

    def sampled(self, n):
        """positions handed to or returned by the distributions are in detector coordinates"""
        f = self.f
        if n["k"] == "mcall" and n.get("fn") in ("SetInteractionVertex", "SetInitialPosition", "SetPosition") and "Record" in (n.get("qn") or "") and n.get("a"):
            vs = n["a"][:1]
        elif n["k"] == "return" and f["n"] in ("SamplePosition", "SampleVertex", "InjectionBounds", "SampleLength") and n.get("v") is not None:
            e = strip(n["v"])
            vs = e.get("a", []) if e is not None and e["k"] in ("ilist", "ctor", "call") and not is_vec(e.get("t")) else [e]
        else:
            return
        for v in vs:
            for g, gk in self.fk(v):
                if g == "Geometry":
                    self.bad(n, "event in geometry coordinates", "a %s in geometry coordinates is handed out; events are in detector coordinates" % self.K[gk])
                elif g == "Detector":
                    self.ctx.count("event_positions")
                    self.ctx.ok("%s: event position in detector coordinates" % nm(f))

    def judge(self, n, idn):
        ctx, f = self.ctx, self.f
        k = n["k"]
        self.sampled(n)
        if k == "ctor" and tag(n.get("t")) and len(n.get("a", [])) == 1:
            fr, kd = tag(n["t"])
            if f["n"] in ("ToGeo", "ToDet") or n.get("cp"):
                return
            got = self.fk(n["a"][0])
            if not got:
                ctx.count("frame_unknown")
                return
            for g, gk in got:
                if g in ("outer",) and fr == "Local" and not idn:
                    self.bad(n, "%s from outer" % fr, "coordinates around the solid are passed off as the solid's own")
                elif {g, fr} <= {"Geometry", "Detector", "Local"} and g != fr:
                    self.bad(n, "%s%s from %s" % (fr, kd, g), "a value in %s is passed off as one in %s without conversion" % (self.NAMES[g], self.NAMES[fr]))
                elif (gk, kd) in (("pos", "dir"), ("dir", "pos")):
                    self.bad(n, "%s as %s" % (gk, kd), "a %s is passed off as a %s" % (self.K[gk], self.K[kd]))
                else:
                    ctx.count("labelled")
                    ctx.ok("%s: %s of %s" % (nm(f), self.K[kd], self.NAMES[fr]))
            return
        if k == "opcall" and n.get("op") in ("+", "-") and len(n.get("a", [])) == 2 and is_vec(n.get("t")) and f["n"] not in ("ToGeo", "ToDet"):
            a, b = self.fk(n["a"][0]), self.fk(n["a"][1])
            if a and b:
                ctx.count("sums")
                fa, fb = {self.norm(x) for x, _ in a}, {self.norm(x) for x, _ in b}
                if not fa & fb:
                    self.bad(n, "mix %s %s" % (sorted(fa), sorted(fb)), "vectors of different frames (%s and %s) are combined" % (self.NAMES[sorted(a)[0][0]], self.NAMES[sorted(b)[0][0]]))
                else:
                    ctx.ok("%s: sum within one frame" % nm(f))
            return
        if k in ("call", "mcall") and n.get("fn") in ("scalar_product", "vector_product", "cross_product") and len(n.get("a", [])) == 2:
            a, b = self.fk(n["a"][0]), self.fk(n["a"][1])
            if a and b:
                ctx.count("products")
                if not {self.norm(x) for x, _ in a} & {self.norm(x) for x, _ in b}:
                    self.bad(n, "product", "vectors of different frames (%s and %s) are multiplied" % (self.NAMES[sorted(a)[0][0]], self.NAMES[sorted(b)[0][0]]))
                else:
                    ctx.ok("%s: product within one frame" % nm(f))
            return
        if k == "mcall" and CONV.match(n.get("fn") or "") and len(n.get("a", [])) == 1:
            m = CONV.match(n["fn"])
            ctx.count("conversion_calls")
            this = n.get("obj") is None or strip(n["obj"])["k"] == "this" or (strip(n["obj"])["k"] == "mem" and strip(n["obj"])["n"] == "placement_")
            if CONV.match(f["n"]):
                return      # judged as a whole by conversions()
            got = self.fk(n["a"][0])
            for g, gk in got:
                if (gk, KIND[m.group(2)]) in (("pos", "dir"), ("dir", "pos")):
                    self.bad(n, "%s by %s" % (gk, n["fn"]), "a %s is converted by %s" % (self.K[gk], n["fn"]))
                elif this and ((m.group(1) == "GlobalToLocal" and g == "own") or (m.group(1) == "LocalToGlobal" and g == "outer")):
                    self.bad(n, "twice %s" % n["fn"], "a %s that is already converted is converted again by %s" % (self.K[gk], n["fn"]))
                else:
                    ctx.ok("%s: %s once" % (nm(f), n["fn"]))
            return
        if k == "mcall" and n.get("fn") == "ComputeIntersections" and len(n.get("a", [])) == 2 and (n.get("obj") is None or strip(n["obj"])["k"] == "this"):
            for a, kd in zip(n["a"], ("pos", "dir")):
                for g, gk in self.fk(a):
                    if g == "outer" and not idn:
                        self.bad(n, "unconverted %s" % kd, "the %s reaches ComputeIntersections without having been converted to the solid's own coordinates" % self.K[kd])
                    elif (gk, kd) in (("pos", "dir"), ("dir", "pos")):
                        self.bad(n, "swapped %s" % kd, "a %s reaches ComputeIntersections as the %s" % (self.K[gk], self.K[kd]))
                    else:
                        ctx.count("computed_in_own_frame")
                        ctx.ok("%s: %s in the solid's own frame" % (nm(f), self.K[kd]))
            return
        if k == "mcall" and n.get("fn") in ("Intersections", "IsInside") and n.get("obj") is not None and strip(n["obj"])["k"] != "this" and (n.get("qn") or "").startswith("siren::geometry::"):
            if len(n.get("a", [])) == 2:
                fs = [self.fk(a) for a in n["a"]]
                if all(fs):
                    ctx.count("queries")
                    if not {x for x, _ in fs[0]} & {x for x, _ in fs[1]}:
                        self.bad(n, "query frames", "position and direction of different frames are handed to %s" % n["fn"])
                    elif {x for _, x in fs[0]} == {"dir"} or {x for _, x in fs[1]} == {"pos"}:
                        self.bad(n, "query kinds", "position and direction handed to %s are exchanged" % n["fn"])
                    else:
                        ctx.ok("%s: %s in one frame" % (nm(f), n["fn"]))
            if "/detector/" in f["file"]:
                for a in n.get("a", []):
                    for g, gk in self.fk(a):
                        if g == "Detector":
                            self.bad(n, "query in detector coordinates", "the sectors are placed in geometry coordinates, but are asked about a %s in detector coordinates" % self.K[gk])
                        else:
                            ctx.ok("%s: sectors asked in geometry coordinates" % nm(f))

    @staticmethod
    def norm(x):
        return "own" if x == "Local" else x


def handed_out(ctx, F):
    """what Geometry::Intersections returns is converted back"""
    for f in F.functions.values():
        if f.get("cls") != "siren::geometry::Geometry" or f["n"] != "Intersections" or f.get("body") is None:
            continue
        R = Frames(ctx, F, f)
        convs = [n for n in walk(f["body"]) if n["k"] == "mcall" and n.get("fn") == "LocalToGlobalPosition"]
        stores = []
        for n in walk(f["body"]):
            if n["k"] in ("opcall", "bin") and n.get("op") == "=":
                l = strip(n["a"][0] if n["k"] == "opcall" else n["lhs"])
                if l and l["k"] == "mem" and l["n"] == "position":
                    stores.append(n)
        calls = [n for n in walk(f["body"]) if n["k"] in ("mcall", "call")]
        others = [n for n in calls if n.get("fn") not in ("LocalToGlobalPosition", "GlobalToLocalPosition", "GlobalToLocalDirection", "ComputeIntersections", "IsIdentity", "get", "Intersections", "begin", "end", "size", "at")
                  and (n.get("qn") or "").startswith("siren::")]
        if not convs and not others and any(n.get("fn") == "ComputeIntersections" for n in calls):
            ctx.violate("out:%s" % ",".join(p["t"][:80] for p in f["params"]), where(f, f), "Geometry::Intersections hands out positions in the solid's own coordinates: nothing converts them back")
        else:
            ctx.ok("Geometry::Intersections: positions converted back")


# ------------------------------------------------------------------ overloads
def shape(t):
    return re.sub(r"siren::detector::(Geometry|Detector)(Position|Direction)Tag", r"\2Tag", t or "").replace("&", "").replace("const", "").replace(" ", "")


def body_call(f):
    """the single call a function hands over to"""
    c = [s for s in (f["body"].get("c") or []) if s and s["k"] != "null"]
    while len(c) == 1 and c[0]["k"] == "block":
        c = c[0]["c"]
    if not c:
        return None, None
    last = c[-1]
    e = strip(last.get("v")) if last["k"] == "return" else strip(last)
    if any(s["k"] != "decl" for s in c[:-1]):
        return None, None
    D = Defs(f)
    seen = set()
    while e is not None and e["k"] == "ref" and e.get("id") not in seen and len(D.d.get(e["id"], [])) == 1:
        seen.add(e["id"])
        e = strip(D.d[e["id"]][0])
    return (e, D) if e is not None and e["k"] in ("mcall", "call") else (None, None)


def term(e, D, f, seen=()):
    """structure of an argument with the frame conversions taken out"""
    e = strip(e)
    if e is None:
        return "?"
    k = e["k"]
    if k == "ref":
        if e.get("dk") == "p":
            ids = [p["id"] for p in f["params"]]
            return "$%d" % ids.index(e["id"]) if e.get("id") in ids else "?" + e["n"]
        ds = D.d.get(e.get("id"), [])
        if len(ds) == 1 and e["id"] not in seen:
            return term(ds[0], D, f, seen + (e["id"],))
        return "?" + str(e.get("n"))
    if k == "mcall" and e.get("fn") in ("ToGeo", "ToDet") and len(e["a"]) == 1:
        return term(e["a"][0], D, f, seen)
    if k == "mcall" and (e.get("fn") == "get" or (e.get("fn") or "").startswith("operator ")):
        return term(e["obj"], D, f, seen)
    if k == "ctor" and len(e.get("a", [])) == 1 and (is_vec(e.get("t")) or tag(e.get("t"))):
        return term(e["a"][0], D, f, seen)
    if k == "opcall":
        return "(%s %s)" % (e.get("op"), " ".join(term(a, D, f, seen) for a in e["a"]))
    if k == "un":
        return "(%s %s)" % (e.get("op"), term(e["e"], D, f, seen))
    if k in ("int", "float", "bool", "str"):
        return str(e.get("v"))
    return "?%s" % e.get("n", k)


def overloads(ctx, F):
    by = {}
    for f in F.functions.values():
        if f.get("body") is None or not (f.get("cls") or "").startswith("siren::detector::") or "/test" in f["file"]:
            continue
        tags = [tag(p["t"]) for p in f["params"]]
        frames = {t[0] for t in tags if t}
        if frames in ({"Geometry"}, {"Detector"}) and f["n"] not in ("ToGeo", "ToDet"):
            by.setdefault((f["cls"], f["n"], tuple(shape(p["t"]) for p in f["params"])), {})[frames.pop()] = f
    for (cls, name, sh), d in sorted(by.items()):
        if len(d) != 2:
            continue
        ctx.count("overload_pairs")
        det, geo = d["Detector"], d["Geometry"]
        e, D = body_call(det)
        if e is None:
            ctx.count("overload_undecided")
            continue
        args = [term(a, D, det) for a in e.get("a", [])]
        key = "overload:%s::%s/%d" % (cls.split("::")[-1], name, len(sh))
        if e.get("usr") == geo["usr"]:
            if args == ["$%d" % i for i in range(len(geo["params"]))]:
                ctx.ok("%s::%s: the geometry overload with every argument converted" % (cls, name))
            elif any("?" in a for a in args):
                ctx.count("overload_undecided")
            else:
                ctx.violate(key, where(det, e), "%s::%s in detector coordinates hands its arguments over as (%s)" % (cls, name, ", ".join(args)))
            continue
        g, DG = body_call(geo)
        if g is not None and g.get("fn") == e.get("fn") and len(g.get("a", [])) == len(e.get("a", [])):
            ga = [term(a, DG, geo) for a in g["a"]]
            if ga == args and not any("?" in a for a in args):
                ctx.ok("%s::%s: both overloads hand over alike" % (cls, name))
                continue
            if not any("?" in a for a in args + ga):
                ctx.violate(key, where(det, e), "%s::%s does something else in detector coordinates than in geometry coordinates: %s(%s) against %s(%s)" % (cls, name, e["fn"], ", ".join(args), g["fn"], ", ".join(ga)))
                continue
        elif e.get("fn") != name and "?" not in "".join(args) and e.get("cls") == cls or (e.get("fn") == name and e.get("usr") != geo["usr"] and e.get("usr") != det["usr"]):
            m = F.functions.get(e.get("usr"))
            if m is not None and m.get("cls") == cls and tag_frames(m) == {"Geometry"}:
                ctx.violate(key, where(det, e), "%s::%s in detector coordinates hands over to %s, which is not what it does in geometry coordinates" % (cls, name, e["fn"]))
                continue
        ctx.count("overload_undecided")


def tag_frames(m):
    return {t[0] for t in (tag(p["t"]) for p in m["params"]) if t}


SCOPE = ("/detector/", "/distributions/", "/injection/", "/geometry/", "/interactions/")


def run(ctx):
    F = ctx.F
    conversions(ctx, F)
    plain_rotation(ctx, F)
    conjugation(ctx, F)
    for f in sorted(F.functions.values(), key=lambda f: f["usr"]):
        if f.get("body") is None or "/test" in f["file"] or "/pybindings/" in f["file"] or not any(s in f["file"] for s in SCOPE):
            continue
        Frames(ctx, F, f).check()
    handed_out(ctx, F)
    overloads(ctx, F)
