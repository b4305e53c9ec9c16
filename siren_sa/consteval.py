"""Constant propagation through functions that build tables of enumerators.

Values: int/float/bool/str, Vec (vector, set and array), Obj (struct), Map, Pair (as Obj), It (iterator), U (not known).
A condition that is not known is followed both ways (bounded)."""
import copy
import math


class Unknown:
    def __repr__(self):
        return "U"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


U = Unknown()


class Unset(Unknown):
    def __repr__(self):
        return "UNSET"


UNSET = Unset()
SCALARS = ("double", "float", "int", "unsigned int", "bool", "long", "unsigned long", "size_t")


class Vec:
    def __init__(self, xs=None, unique=False):
        self.xs = list(xs or [])
        self.unique = unique
        self.open = False       # may hold further elements nobody knows
        if unique:
            self.norm()

    def norm(self):
        try:
            self.xs = sorted(set(self.xs))
        except TypeError:
            pass

    def __repr__(self):
        return "Vec%r%s" % (self.xs, "+" if self.open else "")

    def key(self):
        return tuple(x.key() if isinstance(x, (Vec, Obj)) else x for x in self.xs)


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}

    def key(self):
        return tuple(sorted((k, v.key() if isinstance(v, (Vec, Obj)) else v) for k, v in self.f.items()))

    def __repr__(self):
        return "%s%r" % (self.cls.split("::")[-1], self.f)


class Map:
    def __init__(self):
        self.d = {}
        self.open = False


class It:
    def __init__(self, c, i):
        self.c, self.i = c, i


class Lam:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Throw(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Budget(Exception):
    pass


def known(v):
    if v is U:
        return False
    if isinstance(v, Vec):
        return not v.open and all(known(x) for x in v.xs)
    if isinstance(v, Obj):
        return all(known(x) for x in v.f.values())
    return True


def hkey(v):
    return v.key() if isinstance(v, (Vec, Obj)) else v


class Eval:
    STEPS = 60000
    LOOPS = 400

    def __init__(self, F, script=None):
        self.F = F
        self.script = script if script is not None else []
        self.pos = 0
        self.steps = 0
        self.depth = 0
        self.this = None
        self.envs = []
        self.unset = set()      # locals read before anything was stored in them
        self.quiet = 0

    # ---- all ways through --------------------------------------------------
    @classmethod
    def explore(cls, F, run, limit=64):
        """run(ev) for every combination of unknown conditions; returns [(result or Throw, ev)]"""
        script, out = [], []
        while True:
            ev = cls(F, [c for c in script])
            try:
                r = run(ev)
            except Throw:
                r = Throw
            out.append((r, ev))
            script = ev.script[:ev.pos]
            while script and script[-1][0] == 1:
                script.pop()
            if not script:
                return out
            script[-1] = [1]
            if len(out) >= limit:
                raise Budget()

    def choose(self):
        if self.pos >= len(self.script):
            self.script.append([0])
        c = self.script[self.pos][0]
        self.pos += 1
        return c == 0

    def truth(self, v):
        if v is U or isinstance(v, (Obj, Vec, Map, It, Lam)):
            return self.choose() if v is U else True
        return bool(v)

    # ---- calls --------------------------------------------------------------
    def call(self, fn, this, args):
        if self.depth > 12 or fn.get("body") is None:
            return U
        env = {}
        for i, p in enumerate(fn["params"]):
            if i < len(args):
                byref = p["t"].endswith("&") or p["t"].endswith("*") or (p.get("tw") or "").endswith("&")
                env[p["id"]] = args[i] if byref else copy.deepcopy(args[i])
            elif "def" in p:
                env[p["id"]] = self.ev_in(p["def"], env)
            else:
                env[p["id"]] = U
        saved, st = self.envs, self.this
        self.envs = [env]
        self.this = this
        self.depth += 1
        try:
            self.ex(fn["body"])
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.envs, self.this = saved, st

    def ev_in(self, e, env):
        self.envs.append(env)
        try:
            return self.ev(e)
        finally:
            self.envs.pop()

    # ---- statements -----------------------------------------------------------
    def ex(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.STEPS:
            raise Budget()
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m:
            return m(n)
        self.ev(n)

    def x_block(self, n):
        for c in n["c"]:
            self.ex(c)

    def x_decl(self, n):
        for v in n["vars"]:
            val = self.ev(v["init"]) if v.get("init") is not None else UNSET if v.get("t") in SCALARS else self.default(v.get("t") or "")
            if not (v.get("t") or "").endswith(("&", "*")) and not v.get("ref"):
                val = copy.deepcopy(val) if isinstance(val, (Vec, Obj, Map)) else val
            self.envs[-1][v["id"]] = val

    def default(self, t):
        t = t.replace("const ", "")
        if t.startswith("std::vector<"):
            return Vec()
        if t.startswith("std::set<"):
            return Vec(unique=True)
        if t.startswith("std::map<") or t.startswith("std::unordered_map<"):
            return Map()
        if t in self.F.classes and not self.F.classes[t].get("abstract"):
            return self.make(t)
        return U

    def make(self, cls):
        o = Obj(cls)
        for f in self.F.fields(cls, True):
            if f.get("init") is not None:
                try:
                    o.f[f["n"]] = self.ev(f["init"])
                    if f["t"].replace("const ", "").startswith("std::set<") and isinstance(o.f[f["n"]], Vec):
                        o.f[f["n"]] = Vec(o.f[f["n"]].xs, True)
                except (Throw, Budget):
                    o.f[f["n"]] = U
            else:
                t = f["t"].replace("const ", "")
                o.f[f["n"]] = self.default(t) if t.startswith("std::") else U
        return o

    def x_if(self, n):
        if n.get("init"):
            self.ex(n["init"])
        if self.truth(self.ev(n["cond"])):
            self.ex(n["then"])
        elif n.get("else"):
            self.ex(n["else"])

    def x_for(self, n):
        if n.get("init"):
            self.ex(n["init"])
        for _ in range(self.LOOPS):
            if n.get("cond") is not None:
                c = self.ev(n["cond"])
                if c is U:
                    if _ >= 1:
                        return
                if not self.truth(c):
                    return
            try:
                self.ex(n["body"])
            except Brk:
                return
            except Cont:
                pass
            if n.get("inc"):
                self.ev(n["inc"])
        raise Budget()

    def x_while(self, n):
        self.x_for({"cond": n["cond"], "body": n["body"]})

    def x_do(self, n):
        try:
            self.ex(n["body"])
        except Brk:
            return
        except Cont:
            pass
        self.x_while(n)

    def x_range(self, n):
        c = self.ev(n["range"])
        if isinstance(c, Map):
            xs = [self.pair(k, v) for k, v in c.d.items()]
        elif isinstance(c, Vec):
            xs = list(c.xs)
        else:
            xs = [U]
        t = n["var"].get("t") or ""
        for x in xs:
            self.envs[-1][n["var"]["id"]] = x if t.endswith("&") else copy.deepcopy(x)
            for j, b in enumerate(n["var"].get("binds") or []):
                self.envs[-1][b.get("id")] = list(x.f.values())[j] if isinstance(x, Obj) else U
            try:
                self.ex(n["body"])
            except Brk:
                return
            except Cont:
                continue

    def x_return(self, n):
        raise Ret(self.ev(n["v"]) if n.get("v") is not None else None)

    def x_throw(self, n):
        raise Throw()

    def x_break(self, n):
        raise Brk()

    def x_continue(self, n):
        raise Cont()

    def x_try(self, n):
        try:
            self.ex(n.get("body"))
        except Throw:
            hs = n.get("handlers") or n.get("catch") or []
            if hs:
                h = hs[0]
                self.ex(h.get("body") if isinstance(h, dict) and "body" in h else h)

    def x_switch(self, n):
        v = self.ev(n["cond"])
        body = n["body"]["c"] if n.get("body") and n["body"]["k"] == "block" else [n["body"]]
        flat = []
        for b in body:
            while b is not None and b["k"] in ("case", "default"):
                flat.append(("label", b))
                b = b["body"]
            if b is not None:
                flat.append(("stmt", b))
        start = None
        for i, (w, b) in enumerate(flat):
            if w == "label" and b["k"] == "case":
                c = self.ev(b["v"])
                if v is U or c is U:
                    if self.choose():
                        start = i
                        break
                elif c == v:
                    start = i
                    break
        if start is None:
            start = next((i for i, (w, b) in enumerate(flat) if w == "label" and b["k"] == "default"), None)
        if start is None:
            return
        try:
            for w, b in flat[start:]:
                if w == "stmt":
                    self.ex(b)
        except Brk:
            pass

    # ---- expressions ----------------------------------------------------------
    def ev(self, n):
        if n is None:
            return U
        self.steps += 1
        if self.steps > self.STEPS:
            raise Budget()
        m = getattr(self, "e_" + n["k"], None)
        return m(n) if m else U

    def e_int(self, n):
        return int(n["v"])

    def e_float(self, n):
        return float(n["v"])

    def e_bool(self, n):
        return bool(n["v"])

    def e_str(self, n):
        return n.get("v", "")

    def e_char(self, n):
        return n.get("v", 0)

    def e_this(self, n):
        return self.this if self.this is not None else U

    def e_defarg(self, n):
        return self.ev(n.get("e")) if n.get("e") else U

    def e_cast(self, n):
        v = self.ev(n["e"])
        to = n.get("to") or ""
        if isinstance(v, float) and to in ("int", "unsigned int", "long", "size_t", "unsigned long"):
            return int(v)
        return v

    def e_zero(self, n):
        return self.default(n.get("t") or "")

    def e_lambda(self, n):
        return Lam(n, self.envs)

    def e_ref(self, n):
        if n.get("dk") == "e":
            return int(n["v"]) if n.get("v") is not None else U
        if n.get("dk") in ("v", "p"):
            for env in reversed(self.envs):
                if n.get("id") in env:
                    v = env[n["id"]]
                    if v is UNSET:
                        if not self.quiet:
                            self.unset.add(n.get("n"))
                        return U
                    return v
        return self.glob(n)

    def glob(self, n):
        for v in self.F.vars:
            if v.get("qn") == n.get("qn") and v.get("init") is not None:
                try:
                    return self.ev(v["init"])
                except (Throw, Budget):
                    return U
        return U

    def e_mem(self, n):
        if n.get("dk") == "e":
            return int(n["v"]) if n.get("v") is not None else U
        b = self.ev(n["b"]) if n.get("b") is not None else (self.this if self.this is not None else U)
        if isinstance(b, It):
            b = b.c.xs[b.i] if isinstance(b.c, Vec) and 0 <= b.i < len(b.c.xs) else U
        if isinstance(b, Obj):
            return b.f.get(n["n"], U)
        return U

    def e_idx(self, n):
        return self.at(self.ev(n["b"]), self.ev(n["i"]))

    def at(self, c, i):
        if isinstance(c, Vec):
            if isinstance(i, int) and not isinstance(i, bool):
                return c.xs[i] if 0 <= i < len(c.xs) else U
            return U
        if isinstance(c, Map):
            k = hkey(i)
            if not known(i):
                return U
            if k not in c.d:
                c.d[k] = U if c.open else Vec()
            return c.d[k]
        return U

    def e_ilist(self, n):
        return Vec([self.ev(a) for a in n.get("a", [])])

    def pair(self, a, b):
        o = Obj("std::pair")
        o.f = {"first": a, "second": b}
        return o

    def e_ctor(self, n):
        t = (n.get("t") or "").replace("const ", "")
        args = n.get("a", [])
        if t.startswith("std::shared_ptr") or t.startswith("std::initializer_list"):
            return self.ev(args[0]) if args else U
        uniq = t.startswith("std::set<")
        if t.startswith(("std::vector<", "std::set<", "std::array<")):
            vs = [self.ev(a) for a in args]
            if not vs:
                return Vec(unique=uniq)
            if len(vs) == 1 and isinstance(vs[0], Vec):
                v = copy.deepcopy(vs[0])
                return Vec(v.xs, True) if uniq else v
            if len(vs) >= 2 and isinstance(vs[0], It) and isinstance(vs[1], It) and vs[0].c is vs[1].c and isinstance(vs[0].c, Vec):
                v = Vec(copy.deepcopy(vs[0].c.xs[vs[0].i:vs[1].i]), uniq)
                v.open = vs[0].c.open
                return v
            if isinstance(vs[0], int) and not n.get("li") and vs[0] < 64:
                fill = vs[1] if len(vs) > 1 else U
                return Vec([copy.deepcopy(fill) for _ in range(vs[0])])
            return U
        if t.startswith("std::pair<") or t.startswith("std::tuple<"):
            vs = [self.ev(a) for a in args]
            if len(vs) == 1:
                return copy.deepcopy(vs[0])
            o = Obj("std::pair")
            o.f = dict(zip(["first", "second"] + ["_%d" % i for i in range(2, 9)], vs))
            return o
        if t.startswith("std::map<"):
            m = Map()
            if args:
                v = self.ev(args[0])
                if isinstance(v, Vec):
                    for p in v.xs:
                        xs = list(p.f.values()) if isinstance(p, Obj) else (p.xs if isinstance(p, Vec) else [])
                        if len(xs) == 2 and known(xs[0]):
                            m.d[hkey(xs[0])] = xs[1]
                        else:
                            m.open = True
                elif isinstance(v, Map):
                    return copy.deepcopy(v)
                else:
                    m.open = True
            return m
        if n.get("cp") and len(args) == 1:
            return copy.deepcopy(self.ev(args[0]))
        if t in self.F.classes:
            vs = [self.ev(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == t:
                return copy.deepcopy(vs[0])
            if not vs:
                return self.make(t)
            o = self.make(t)
            return o if t.endswith("InteractionSignature") else U
        if len(args) == 1:
            return self.ev(args[0])
        return U

    def e_new(self, n):
        return self.ev(n.get("e")) if n.get("e") else U

    def e_cond(self, n):
        return self.ev(n["then"] if self.truth(self.ev(n["cond"])) else n["else"])

    def e_un(self, n):
        op = n["op"]
        if op in ("++", "--"):
            v = self.ev(n["e"])
            if isinstance(v, It):
                nv = It(v.c, v.i + (1 if op == "++" else -1))
            elif isinstance(v, (int, float)):
                nv = v + (1 if op == "++" else -1)
            else:
                nv = U
            self.assign(n["e"], nv)
            return v if n.get("post") else nv
        v = self.ev(n["e"])
        if op == "*":
            if isinstance(v, It):
                return self.deref(v)
            return v
        if op == "&":
            return v
        if v is U:
            return U
        if op == "!":
            return (not v) if isinstance(v, (bool, int, float)) else U
        if op == "-":
            return -v if isinstance(v, (int, float)) else U
        return v if op == "+" else U

    def deref(self, it):
        if isinstance(it.c, Vec):
            return it.c.xs[it.i] if 0 <= it.i < len(it.c.xs) else U
        if isinstance(it.c, Map):
            ks = list(it.c.d.items())
            return self.pair(*ks[it.i]) if 0 <= it.i < len(ks) else U
        return U

    def eq(self, a, b):
        if isinstance(a, It) and isinstance(b, It):
            return a.i == b.i if a.c is b.c else U
        if isinstance(a, (Vec, Obj)) and isinstance(b, (Vec, Obj)):
            if known(a) and known(b):
                return a.key() == b.key()
            if isinstance(a, Vec) and isinstance(b, Vec) and not a.open and not b.open and len(a.xs) != len(b.xs):
                return False
            return U
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a == b
        return U

    def e_bin(self, n):
        op = n["op"]
        if op == "&&":
            a = self.ev(n["lhs"])
            if a is not U and not self.truth(a):
                return False
            b = self.ev(n["rhs"])
            if b is not U and not self.truth(b):
                return False
            return True if a is not U and b is not U else U
        if op == "||":
            a = self.ev(n["lhs"])
            if a is not U and self.truth(a):
                return True
            b = self.ev(n["rhs"])
            if b is not U and self.truth(b):
                return True
            return False if a is not U and b is not U else U
        if op == ",":
            self.ev(n["lhs"])
            return self.ev(n["rhs"])
        if op == "=":
            v = self.ev(n["rhs"])
            v = copy.deepcopy(v) if isinstance(v, (Vec, Obj, Map)) else v
            self.assign(n["lhs"], v)
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            v = self.arith(op[:-1], self.ev(n["lhs"]), self.ev(n["rhs"]))
            self.assign(n["lhs"], v)
            return v
        return self.arith(op, self.ev(n["lhs"]), self.ev(n["rhs"]))

    def arith(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            r = self.eq(a, b)
            return U if r is U else not r
        if isinstance(a, It) and isinstance(b, int) and op in ("+", "-"):
            return It(a.c, a.i + (b if op == "+" else -b))
        if isinstance(a, It) and isinstance(b, It) and a.c is b.c and op == "-":
            return a.i - b.i
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return U
        try:
            if op == "/" and isinstance(a, int) and isinstance(b, int):
                return int(a / b) if b else U
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: int(math.fmod(a, b)),
                    "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "&": lambda: a & b, "|": lambda: a | b,
                    "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
        except Exception:
            return U

    def assign(self, l, v):
        k = l["k"]
        if k == "ref" and l.get("dk") in ("v", "p"):
            for env in reversed(self.envs):
                if l.get("id") in env:
                    old = env[l["id"]]
                    # writing through a reference to a part
                    if isinstance(old, (Vec, Obj)) and type(old) is type(v):
                        old.__dict__.update(copy.deepcopy(v).__dict__)
                    else:
                        env[l["id"]] = v
                    return
            self.envs[-1][l["id"]] = v
        elif k == "mem":
            b = self.ev(l["b"]) if l.get("b") is not None else self.this
            if isinstance(b, Obj):
                b.f[l["n"]] = v
        elif k in ("idx", "opcall") and (k == "idx" or l.get("op") == "[]"):
            c, i = (self.ev(l["b"]), self.ev(l["i"])) if k == "idx" else (self.ev(l["a"][0]), self.ev(l["a"][1]))
            self.put(c, i, v)
        elif k == "mcall" and l.get("fn") in ("at", "front", "back"):
            c = self.ev(l.get("obj"))
            i = self.ev(l["a"][0]) if l.get("a") else (0 if l["fn"] == "front" else -1)
            if i == -1 and isinstance(c, Vec):
                i = len(c.xs) - 1
            self.put(c, i, v)
        elif k == "un" and l.get("op") == "*" or k == "opcall" and l.get("op") == "*":
            it = self.ev(l["e"] if k == "un" else l["a"][0])
            if isinstance(it, It) and isinstance(it.c, Vec) and 0 <= it.i < len(it.c.xs):
                it.c.xs[it.i] = v

    def put(self, c, i, v):
        if isinstance(c, Vec):
            if isinstance(i, int) and 0 <= i < len(c.xs):
                c.xs[i] = v
            else:
                c.xs = [U for _ in c.xs]
        elif isinstance(c, Map) and known(i):
            c.d[hkey(i)] = v

    def e_opcall(self, n):
        op = n["op"]
        a = n["a"]
        if op == "[]":
            return self.at(self.ev(a[0]), self.ev(a[1]))
        if op == "=":
            v = self.ev(a[1])
            v = copy.deepcopy(v) if isinstance(v, (Vec, Obj, Map)) else v
            if isinstance(v, Vec) and (a[0].get("t") or "").replace("const ", "").startswith("std::set<"):
                v = Vec(v.xs, True)
            self.assign(a[0], v)
            return v
        if op in ("++", "--"):
            v = self.ev(a[0])
            if isinstance(v, It):
                self.assign(a[0], It(v.c, v.i + (1 if op == "++" else -1)))
                return self.ev(a[0]) if len(a) == 1 else v
            return U
        if op in ("*", "->"):
            v = self.ev(a[0])
            if len(a) == 1:
                return self.deref(v) if isinstance(v, It) else v
            return self.arith("*", v, self.ev(a[1]))
        if op == "()":
            f = self.ev(a[0])
            return self.apply(f, [self.ev(x) for x in a[1:]])
        if op == "+=" and len(a) == 2:
            v = self.arith("+", self.ev(a[0]), self.ev(a[1]))
            self.assign(a[0], v)
            return v
        vs = [self.ev(x) for x in a]
        if len(vs) == 2:
            if op == "<<":
                return vs[0]
            return self.arith(op, vs[0], vs[1])
        if op == "!" and len(vs) == 1:
            return (not vs[0]) if isinstance(vs[0], (bool, int)) else U
        return U

    def apply(self, f, args):
        if isinstance(f, Lam) and self.depth < 12:
            env = {}
            for i, p in enumerate(f.node.get("params", [])):
                env[p.get("id")] = args[i] if i < len(args) else U
            saved = self.envs
            self.envs = f.env + [env]
            self.depth += 1
            try:
                self.ex(f.node.get("body"))
                return None
            except Ret as r:
                return r.v
            finally:
                self.depth -= 1
                self.envs = saved
        return U

    def args(self, n):
        wr = n.get("wr") or []
        out = []
        for i, a in enumerate(n.get("a", [])):
            w = i < len(wr) and wr[i] or a.get("k") == "un" and a.get("op") == "&"
            self.quiet += 1 if w else 0
            out.append(self.ev(a))
            self.quiet -= 1 if w else 0
            if w:
                # it may come back changed
                t = a["e"] if a.get("k") == "un" else a
                if t.get("k") == "ref" and not isinstance(out[-1], (Vec, Obj, Map)):
                    self.assign(t, U)
        return out

    def e_call(self, n):
        f = n.get("f") or {}
        name = n.get("fn") or f.get("n") or ""
        args = self.args(n)
        g = self.F.functions.get(n.get("usr") or f.get("usr"))
        if g is not None and g.get("body") is not None:
            return self.call(g, self.this if g.get("cls") and not g.get("static") else None, args)
        if f.get("k") == "ref" and f.get("dk") in ("v", "p"):
            return self.apply(self.ev(f), args)
        return self.std(name, args, n)

    def std(self, name, args, n):
        if name in ("make_pair", "tie", "make_tuple"):
            o = Obj("std::pair")
            o.f = dict(zip(["first", "second"] + ["_%d" % i for i in range(2, 9)], args))
            return o
        if name in ("move", "forward", "ref", "cref", "as_const"):
            return args[0] if args else U
        if name == "find" and len(args) == 3 and isinstance(args[0], It) and isinstance(args[1], It) and isinstance(args[0].c, Vec):
            c = args[0].c
            for i in range(args[0].i, min(args[1].i, len(c.xs))):
                r = self.eq(c.xs[i], args[2])
                if r is U:
                    return U
                if r:
                    return It(c, i)
            return U if c.open else It(c, args[1].i)
        if name in ("begin", "cbegin", "end", "cend") and args:
            return self.method(args[0], name, [], n)
        if name in ("any_of", "all_of", "none_of", "for_each", "count_if", "find_if") and len(args) == 3 and isinstance(args[0], It) and isinstance(args[0].c, Vec):
            c = args[0].c
            rs = [self.apply(args[2], [x]) for x in c.xs[args[0].i:args[1].i]]
            if name == "for_each":
                return U
            if any(r is U for r in rs) or c.open:
                return U
            return {"any_of": any(rs), "all_of": all(rs), "none_of": not any(rs), "count_if": sum(map(bool, rs)),
                    "find_if": It(c, next((args[0].i + i for i, r in enumerate(rs) if r), args[1].i))}[name]
        if name == "pow" and len(args) == 2 and all(isinstance(x, (int, float)) for x in args):
            try:
                return float(args[0]) ** args[1]
            except Exception:
                return U
        if name == "sqrt" and args and isinstance(args[0], (int, float)) and args[0] >= 0:
            return math.sqrt(args[0])
        if name == "abs" and args and isinstance(args[0], (int, float)):
            return abs(args[0])
        if name in ("swap",) and len(n.get("a", [])) == 2:
            self.assign(n["a"][0], copy.deepcopy(args[1]))
            self.assign(n["a"][1], copy.deepcopy(args[0]))
            return None
        if name in ("make_shared",):
            return U
        return U

    def e_mcall(self, n):
        name = n.get("fn") or ""
        obj = self.ev(n["obj"]) if n.get("obj") is not None else (self.this if self.this is not None else U)
        g = self.F.functions.get(n.get("usr"))
        if g is not None and g.get("body") is None and isinstance(obj, Obj):
            g = None
        if isinstance(obj, It):
            obj = self.deref(obj)
        if g is None and isinstance(obj, Obj) and obj.cls in self.F.classes:
            for c in [obj.cls] + list(self.F.bases(obj.cls)):
                for h in self.F.methods(c, name):
                    if h.get("body") is not None and len(h["params"]) >= len(n.get("a", [])):
                        g = h
                        break
                if g:
                    break
        if g is not None and n.get("virt") and isinstance(obj, Obj):
            for c in [obj.cls] + list(self.F.bases(obj.cls)):
                h = next((h for h in self.F.methods(c, name) if h.get("body") is not None and
                          [p["t"] for p in h["params"]] == [p["t"] for p in g["params"]]), None)
                if h:
                    g = h
                    break
        args = self.args(n)
        if g is not None and g.get("body") is not None and isinstance(obj, Obj):
            return self.call(g, obj, args)
        return self.method(obj, name, args, n)

    def method(self, o, name, args, n):
        if isinstance(o, Vec):
            if name in ("push_back", "emplace_back"):
                v = args[0] if args else U
                o.xs.append(copy.deepcopy(v))
                self.h_push(o, v, n)
                return None
            if name == "resize":
                k = args[0] if args else U
                if not isinstance(k, int):
                    o.open = True
                    return None
                fill = args[1] if len(args) > 1 else U
                o.xs = o.xs[:k] + [copy.deepcopy(fill) for _ in range(k - len(o.xs))]
                return None
            if name == "clear":
                o.xs = []
                o.open = False
                return None
            if name == "assign" and len(args) == 2:
                if isinstance(args[0], int):
                    o.xs = [copy.deepcopy(args[1]) for _ in range(min(args[0], 64))]
                elif isinstance(args[0], It) and isinstance(args[1], It) and isinstance(args[0].c, Vec):
                    o.xs = copy.deepcopy(args[0].c.xs[args[0].i:args[1].i])
                else:
                    o.open = True
                return None
            if name in ("size", "length"):
                return U if o.open else len(o.xs)
            if name == "empty":
                return False if o.xs else (U if o.open else True)
            if name == "at":
                return self.at(o, args[0])
            if name == "front":
                return self.at(o, 0)
            if name == "back":
                return o.xs[-1] if o.xs else U
            if name == "pop_back":
                if o.xs:
                    o.xs.pop()
                return None
            if name in ("begin", "cbegin"):
                return It(o, 0)
            if name in ("end", "cend"):
                return It(o, len(o.xs))
            if name in ("count", "contains"):
                rs = [self.eq(x, args[0]) for x in o.xs]
                if any(r is True for r in rs):
                    return 1
                return U if o.open or any(r is U for r in rs) else 0
            if name == "find":
                for i, x in enumerate(o.xs):
                    r = self.eq(x, args[0])
                    if r is U:
                        return U
                    if r:
                        return It(o, i)
                return U if o.open else It(o, len(o.xs))
            if name in ("insert", "emplace"):
                if len(args) == 3 and isinstance(args[1], It) and isinstance(args[2], It) and isinstance(args[1].c, Vec):
                    at = args[0].i if isinstance(args[0], It) else len(o.xs)
                    o.xs[at:at] = copy.deepcopy(args[1].c.xs[args[1].i:args[2].i])
                    o.open = o.open or args[1].c.open
                elif len(args) == 2 and isinstance(args[0], It) and args[0].c is o:
                    if isinstance(args[1], Vec) and not o.unique:
                        o.xs[args[0].i:args[0].i] = copy.deepcopy(args[1].xs)
                    else:
                        o.xs.insert(args[0].i, copy.deepcopy(args[1]))
                elif len(args) == 1:
                    o.xs.append(copy.deepcopy(args[0]))
                else:
                    o.open = True
                if o.unique:
                    o.norm()
                return None
            if name == "erase":
                if len(args) == 1 and isinstance(args[0], It) and args[0].c is o and args[0].i < len(o.xs):
                    del o.xs[args[0].i]
                elif len(args) == 1 and not isinstance(args[0], It) and o.unique:
                    o.xs = [x for x in o.xs if self.eq(x, args[0]) is not True]
                else:
                    o.open = True
                return None
            if name in ("reserve", "shrink_to_fit"):
                return None
            return U
        if isinstance(o, Map):
            if name == "clear":
                o.d.clear()
                o.open = False
                return None
            if name in ("count", "contains"):
                return 1 if known(args[0]) and hkey(args[0]) in o.d else (U if o.open or not known(args[0]) else 0)
            if name == "at":
                if known(args[0]) and hkey(args[0]) in o.d:
                    return o.d[hkey(args[0])]
                if not o.open and known(args[0]):
                    raise Throw()
                return U
            if name in ("insert", "emplace"):
                p = args[-1] if len(args) < 2 or name == "insert" else self.pair(args[0], args[1])
                if isinstance(p, Obj) and p.cls == "std::pair" and known(p.f.get("first", U)):
                    o.d.setdefault(hkey(p.f["first"]), copy.deepcopy(p.f.get("second", U)))
                else:
                    o.open = True
                return None
            if name == "size":
                return U if o.open else len(o.d)
            if name == "empty":
                return False if o.d else (U if o.open else True)
            if name == "find":
                if known(args[0]) and hkey(args[0]) in o.d:
                    return It(o, list(o.d).index(hkey(args[0])))
                return U if o.open or not known(args[0]) else It(o, len(o.d))
            if name in ("begin", "cbegin"):
                return It(o, 0)
            if name in ("end", "cend"):
                return It(o, len(o.d))
            return U
        if name == "get" and o is not U:
            return o
        return U

    def h_push(self, vec, v, node):
        pass
