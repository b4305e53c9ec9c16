"""Abstract evaluation of one function over access paths.

Values are abstract: an access path relative to the function's roots (the
object, its parameters), the set of paths the value was computed from, known
tuple elements, a known truth value.  Nothing of SIREN is executed and no path
condition is handed to a solver.

Two ways of treating an undecided condition:
  mode 'path'   one control path at a time; a choice script enumerates them
  mode 'join'   both branches are followed and the states joined
"""
import copy
import re

TRANSPARENT_FREE = {"std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const",
                    "std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast", "std::__addressof",
                    "std::begin", "std::cbegin"}
TRANSPARENT_METHODS = {"get", "begin", "cbegin", "c_str", "data", "value", "rbegin", "crbegin", "load", "lock", "ptr"}
ELEMENT_METHODS = {"at", "front", "back"}
PROPERTY_METHODS = {"size", "empty", "end", "cend", "rend", "length", "use_count", "has_value", "name", "hash_code"}
TUPLE_MAKERS = {"std::tie", "std::make_tuple", "std::forward_as_tuple", "std::make_pair"}


class V:
    __slots__ = ("path", "deps", "elems", "lam", "const", "loc", "key", "cls", "dyn", "dist", "neg")

    def __init__(self, path=None, deps=frozenset(), elems=None, lam=None, const=None, loc=None, key=None, cls=None, dyn=False, dist=False):
        self.path = path
        self.deps = deps if deps else (frozenset([path]) if path else frozenset())
        self.elems = elems
        self.lam = lam
        self.const = const
        self.loc = loc          # storage of a local object (writes go there)
        self.key = key          # identity of an opaque condition
        self.cls = cls
        self.dyn = dyn          # result of a dynamic_cast: assumed to succeed
        self.dist = dist
        self.neg = None

    def clone(self, **kw):
        n = V(self.path, self.deps, self.elems, self.lam, self.const, self.loc, self.key, self.cls, self.dyn, self.dist)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def __repr__(self):
        return "V(%s%s%s)" % (".".join(map(str, self.path)) if self.path else "?",
                              " const=%r" % (self.const,) if self.const is not None else "",
                              " deps=%s" % sorted(".".join(map(str, d)) for d in self.deps) if (not self.path and self.deps) else "")


UNKNOWN = V()


def union(vs):
    d = frozenset()
    for v in vs:
        if v is not None:
            d |= v.deps
            if v.elems:
                for e in v.elems:
                    d |= e.deps
    return d


def join_v(a, b):
    if a is b:
        return a
    if a is None or b is None:
        return a or b
    p = a.path if a.path == b.path else None
    el = None
    if a.elems and b.elems and len(a.elems) == len(b.elems):
        el = [join_v(x, y) for x, y in zip(a.elems, b.elems)]
    c = a.const if (a.const is not None and a.const == b.const) else None
    return V(p, a.deps | b.deps, el, a.lam or b.lam, c, a.loc if a.loc == b.loc else None, a.key if a.key == b.key else None,
             a.cls if a.cls == b.cls else None)


class State:
    __slots__ = ("env", "store", "facts")

    def __init__(self):
        self.env = {}
        self.store = {}
        self.facts = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        return s


def join_s(a, b):
    if a is None:
        return b
    if b is None:
        return a
    s = State()
    for k in set(a.env) | set(b.env):
        s.env[k] = join_v(a.env.get(k), b.env.get(k))
    for k in set(a.store) | set(b.store):
        x, y = a.store.get(k), b.store.get(k)
        if x is None or y is None:
            z = x or y
            # written on one side only: old value still possible
            s.store[k] = V(None, z.deps | frozenset([k]), key=None)
        else:
            s.store[k] = join_v(x, y)
    s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    return s


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Thrown(Exception):
    def __init__(self, node):
        self.node = node


class Break(Exception):
    pass


class Continue(Exception):
    pass


class TooComplex(Exception):
    pass


class Frame:
    def __init__(self, fn, this, depth, uid):
        self.fn = fn
        self.this = this
        self.depth = depth
        self.uid = uid
        self.returns = []      # join mode: (V, state)


class Interp:
    """path-mode interpreter; subclasses hook compare/truth/call/write"""
    MAXDEPTH = 10
    MAXSTEPS = 60000

    def __init__(self, F, dyn_class=None):
        self.F = F
        self.dyn_class = dyn_class     # most derived class of root objects
        self.script = []
        self.pos = 0
        self.memo = {}
        self.steps = 0
        self.uid = 0
        self.st = State()
        self.frames = []

    # ---- choices ------------------------------------------------------
    def choose(self, key=None, n=2):
        if key is not None and key in self.memo:
            return self.memo[key]
        if self.pos < len(self.script):
            c = self.script[self.pos][0]
        else:
            c = 0
            self.script.append([0, n])
        self.pos += 1
        if key is not None:
            self.memo[key] = c
        return c

    @classmethod
    def explore(cls, make, run, limit=4096):
        """enumerate control paths; make() -> interpreter, run(interp) -> result"""
        out = []
        script = []
        while True:
            it = make()
            it.script = [list(x) for x in script]
            out.append(run(it))
            script = it.script[:it.pos]
            while script and script[-1][0] + 1 >= script[-1][1]:
                script.pop()
            if not script:
                return out
            script[-1][0] += 1
            if len(out) >= limit:
                raise TooComplex("more than %d paths" % limit)

    # ---- hooks --------------------------------------------------------
    def h_compare(self, op, a, b, node):
        return V(None, union([a, b]), key=("cmp", op, self.vkey(a), self.vkey(b)))

    def h_call(self, node, callee, obj, args):
        """return a V to override the default treatment of a call"""
        return None

    def h_write(self, path, v, node):
        pass

    def h_read(self, path, node):
        pass

    def h_truth(self, v, node):
        return None

    def h_loop_iterations(self, node):
        return 1

    def h_div(self, num, den, node):
        pass

    def should_inline(self, fn, obj, args, node):
        return True

    def vkey(self, v):
        if v.const is not None:
            return ("c", v.const)
        if v.path:
            return v.path
        if v.key is not None:
            return v.key
        return ("d",) + tuple(sorted(map(str, v.deps)))

    # ---- truth --------------------------------------------------------
    def truth(self, v, node):
        if v.const is not None:
            return bool(v.const)
        if v.dyn:
            return True
        t = self.h_truth(v, node)
        if t is not None:
            return t
        if v.neg is not None:
            return not self.truth(v.neg, node)
        k = self.vkey(v)
        if k is None or k == ("d",):
            k = None
        return bool(self.choose(("t", k) if k is not None else None))

    # ---- running a function -------------------------------------------
    def call_function(self, fn, this, args, node=None):
        if len(self.frames) >= self.MAXDEPTH:
            return V(None, union([this] + list(args)) if this else union(args), key=("call", fn["qn"]))
        if sum(1 for f in self.frames if f.fn is fn) >= 2:
            return V(None, union(([this] if this else []) + list(args)), key=("rec", fn["qn"]))
        self.uid += 1
        fr = Frame(fn, this, len(self.frames), self.uid)
        saved = self.st.env
        env = {}
        self.st.env = env
        for i, p in enumerate(fn["params"]):
            if i < len(args) and args[i] is not None:
                a = args[i]
                t = p["t"]
                if not (t.endswith("&") or t.endswith("*")):
                    if a.loc is not None:
                        # by-value copy of a local object keeps its contents
                        a = self.copy_local(a, ("L", self.uid, p["id"]))
                    else:
                        a = a.clone(loc=None)
                env[p["id"]] = a
            elif "def" in p:
                env[p["id"]] = None
        self.frames.append(fr)
        try:
            for p in fn["params"]:
                if p["id"] in env and env[p["id"]] is None:
                    env[p["id"]] = self.ev(p["def"])
            for init in fn.get("inits", []):
                self.exec_init(init, fr)
            try:
                self.exec(fn.get("body"))
                r = V(None, frozenset(), key=("void",))
            except Return as e:
                r = e.v
            return r
        finally:
            self.frames.pop()
            self.st.env = saved

    def exec_init(self, init, fr):
        e = init.get("e")
        if "m" in init:
            v = self.ev(e) if e else UNKNOWN
            if fr.this is not None:
                self.store_value(fr.this, (init["m"],), v, init)
        elif "base" in init or "deleg" in init:
            if e and e.get("k") == "ctor":
                args = [self.ev(x) for x in e.get("a", [])]
                fn = self.F.functions.get(e.get("usr"))
                if e.get("cp") and args and fr.this is not None and args[0].path is not None:
                    # copy of the base part: every inherited field
                    for f in self.F.fields(e.get("cls", ""), True):
                        self.write_to(fr.this, (f["n"],), self.member(args[0], f["n"], e), e)
                elif fn is not None and fr.this is not None:
                    self.call_function(fn, fr.this, args, e)
            elif e:
                self.ev(e)

    # ---- storage ------------------------------------------------------
    def copy_local(self, v, newloc):
        src = v.loc
        for k in [k for k in self.st.store if k[:len(src)] == src]:
            self.st.store[newloc + k[len(src):]] = self.st.store[k]
        return v.clone(loc=newloc)

    def write_to(self, base, fields, v, node):
        if base is None:
            return
        if base.loc is not None:
            p = base.loc + tuple(fields)
        elif base.path is not None:
            p = base.path + tuple(fields)
        else:
            return
        # a whole-object write invalidates what was known about its parts
        for k in [k for k in self.st.store if len(k) > len(p) and k[:len(p)] == p]:
            del self.st.store[k]
        self.st.store[p] = v
        self.h_write(p, v, node)

    def store_value(self, b, fields, v, node):
        """write_to, taking the parts of a local object along"""
        base = b.loc if b.loc is not None else b.path
        if v.loc is None or base is None or base + tuple(fields) == v.loc:
            return self.write_to(b, fields, v.clone(loc=None) if v.loc is not None else v, node)
        dst = base + tuple(fields)
        parts = [(k[len(v.loc):], x) for k, x in self.st.store.items() if len(k) > len(v.loc) and k[:len(v.loc)] == v.loc]
        self.write_to(b, fields, v.clone(loc=None), node)
        for k, x in parts:
            self.st.store[dst + k] = x

    def member(self, b, name, node):
        if b.elems is not None and name in ("first", "second") and len(b.elems) == 2:
            return b.elems[0 if name == "first" else 1]
        if b.loc is not None:
            lp = b.loc + (name,)
            if lp in self.st.store:
                s = self.st.store[lp]
                return s.clone(loc=lp)
            if b.path is not None:
                p = b.path + (name,)
                if not self.quiet_reads:
                    self.h_read(p, node)
                return V(p, loc=lp)
            return V(None, b.deps, loc=lp)
        if b.path is not None:
            p = b.path + (name,)
            if not self.quiet_reads:
                self.h_read(p, node)
            if p in self.st.store:
                s = self.st.store[p]
                return s.clone(loc=p)
            return V(p)
        return V(None, b.deps)

    # ---- statements ---------------------------------------------------
    def exec(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooComplex("step limit")
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def x_block(self, n):
        for c in n["c"]:
            self.exec(c)

    def x_null(self, n):
        pass

    def x_decl(self, n):
        for v in n["vars"]:
            self.declare(v)

    def declare(self, v):
        init = v.get("init")
        t = v["t"]
        isref = t.endswith("&") or t.endswith("&&")
        val = self.ev(init) if init is not None else V(None)
        if not isref and not t.endswith("*"):
            self.uid += 1
            loc = ("L", self.uid, v["n"])
            if val.loc is not None:
                val = self.copy_local(val, loc)
            else:
                val = val.clone(loc=loc)
            if init is None or (init.get("k") == "ctor" and not init.get("cp")):
                pass
        self.st.env[v["id"]] = val
        for i, b in enumerate(v.get("bindings", [])):
            if val.elems and i < len(val.elems):
                self.st.env[b["id"]] = val.elems[i]
            else:
                self.st.env[b["id"]] = self.member(val, ("first", "second")[i] if i < 2 else "#%d" % i, v)

    def x_if(self, n):
        if n.get("init"):
            self.exec(n["init"])
        if n.get("cv"):
            self.exec(n["cv"])
        c = self.ev(n["cond"])
        if self.truth(c, n["cond"]):
            self.exec(n.get("then"))
        else:
            self.exec(n.get("else"))

    def loop_body(self, n, body, inc=None):
        try:
            self.exec(body)
        except Break:
            return False
        except Continue:
            pass
        if inc is not None:
            self.ev(inc)
        return True

    def widen(self, n, parts):
        """a variable a loop changes has no known value inside the loop"""
        ids = n.get("_mod")
        if ids is None:
            ids = set()
            for x in walk([n.get(p) for p in parts if n.get(p)]):
                t = None
                if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    t = x["lhs"]
                elif x["k"] == "un" and x["op"] in ("++", "--"):
                    t = x["e"]
                elif x["k"] == "opcall" and x["op"] in ("++", "--", "+=", "-="):
                    t = x["a"][0]
                if t is not None and t["k"] == "ref" and "id" in t:
                    ids.add(t["id"])
            n["_mod"] = ids
        for i in ids:
            v = self.st.env.get(i)
            if v is not None and v.const is not None:
                self.st.env[i] = V(None, v.deps, loc=v.loc, key=("loopvar", i))

    UNROLL = True

    def fixed_rounds(self, n):
        """for(i = c; i < d; ++i) with known c, d <= 16 and a counter only the header changes"""
        r = n.get("_fixed")
        if r is None:
            r = False
            c, inc, init = n.get("cond"), n.get("inc"), n.get("init")
            if self.UNROLL and c and inc and init and init["k"] == "decl" and len(init["vars"]) == 1 and c["k"] == "bin" and c["op"] in ("<", "<=", "!=") and inc["k"] == "un" and inc["op"] == "++":
                i = init["vars"][0]["id"]
                rf = strip(c["lhs"])
                if rf.get("k") == "ref" and rf.get("id") == i and strip(inc["e"]).get("id") == i and strip(c["rhs"]).get("k") == "int" and int(strip(c["rhs"])["v"]) <= 16:
                    r = not any(x["k"] in ("bin", "un") and x.get("op") in ("=", "+=", "-=", "++", "--", "&", "*=") and strip(x.get("lhs") or x.get("e") or {}).get("id") == i for x in walk(n.get("body") or {}))
                    a = strip(init["vars"][0].get("init") or {})
                    r = r and a.get("k") == "int" and int(a["v"]) >= 0
            n["_fixed"] = r
        return r

    def x_for(self, n):
        self.exec(n.get("init"))
        if self.fixed_rounds(n):
            for _ in range(17):
                if not self.ev(n["cond"]).const:
                    return
                if not self.loop_body(n, n.get("body"), n.get("inc")):
                    return
            raise TooComplex()
        self.widen(n, ("inc", "body"))
        for _ in range(self.h_loop_iterations(n)):
            if n.get("cond"):
                self.ev(n["cond"])
            if not self.loop_body(n, n.get("body"), n.get("inc")):
                break

    def x_while(self, n):
        self.widen(n, ("body", "cond"))
        for _ in range(self.h_loop_iterations(n)):
            if n.get("cv"):
                self.exec(n["cv"])
            if n.get("cond"):
                self.ev(n["cond"])
            if not self.loop_body(n, n.get("body")):
                break

    def x_do(self, n):
        self.widen(n, ("body", "cond"))
        for _ in range(self.h_loop_iterations(n)):
            if not self.loop_body(n, n.get("body")):
                return
            if n.get("cond"):
                self.ev(n["cond"])

    def elem(self, r):
        if r.elems:
            v = r.elems[0]
            for x in r.elems[1:]:
                v = join_v(v, x)
            return v
        if r.path is not None:
            p = r.path + ("[]",)
            lp = r.loc + ("[]",) if r.loc is not None else None
            if lp is not None and lp in self.st.store:
                return self.st.store[lp].clone(loc=lp)
            if p in self.st.store:
                return self.st.store[p].clone(loc=p)
            return V(p, loc=lp)
        if r.loc is not None and r.loc + ("[]",) in self.st.store:
            return self.st.store[r.loc + ("[]",)].clone(loc=r.loc + ("[]",))
        return V(None, r.deps, loc=(r.loc + ("[]",) if r.loc is not None else None))

    def x_range(self, n):
        r = self.ev(n["range"])
        k = re.match(r"(?:const )?std::array<(?:double|int|float), (\d)(?:UL)?>", n["range"].get("t") or "") if self.UNROLL else None
        if k and n.get("var"):
            for i in range(int(k.group(1))):
                self.st.env[n["var"]["id"]] = self.index(r, V(None, const=i), n)
                if not self.loop_body(n, n.get("body")):
                    break
            return
        self.widen(n, ("body",))
        for _ in range(self.h_loop_iterations(n)):
            e = self.elem(r)
            v = n.get("var")
            if v:
                self.st.env[v["id"]] = e
                for i, b in enumerate(v.get("bindings", [])):
                    self.st.env[b["id"]] = self.member(e, ("first", "second")[i] if i < 2 else "#%d" % i, n)
            if not self.loop_body(n, n.get("body")):
                break

    def x_switch(self, n):
        c = self.ev(n["cond"])
        body = n.get("body") or {}
        stmts = body.get("c", []) if body.get("k") == "block" else [body]
        labels = []
        for i, s in enumerate(stmts):
            while s and s["k"] in ("case", "default"):
                labels.append((i, s))
                s = s.get("body")
        nchoices = len(labels) + (0 if any(s["k"] == "default" for _, s in labels) else 1)
        ch = None
        if isinstance(c.const, int):
            vals = [self.ev(s["v"]).const if s["k"] == "case" else None for _, s in labels]
            if all(isinstance(v, int) or s["k"] == "default" for v, (_, s) in zip(vals, labels)):
                ch = vals.index(c.const) if c.const in vals else next((i for i, (_, s) in enumerate(labels) if s["k"] == "default"), len(labels))
        if ch is None:
            ch = self.choose(("sw", self.vkey(c)), max(nchoices, 1)) if nchoices > 1 else 0
        if ch >= len(labels):
            return
        start, lab = labels[ch]
        try:
            first = True
            for s in stmts[start:]:
                if first:
                    # enter at the label
                    s2 = s
                    while s2 is not lab and s2["k"] in ("case", "default"):
                        s2 = s2.get("body")
                    self.exec(s2)
                    first = False
                else:
                    self.exec(s)
        except Break:
            pass

    def x_case(self, n):
        self.exec(n.get("body"))

    def x_default(self, n):
        self.exec(n.get("body"))

    def x_break(self, n):
        raise Break()

    def x_continue(self, n):
        raise Continue()

    def x_return(self, n):
        v = self.ev(n["v"]) if n.get("v") is not None else V(None, key=("void",))
        raise Return(v)

    def x_throw(self, n):
        if n.get("v"):
            self.ev(n["v"])
        raise Thrown(n)

    def x_try(self, n):
        try:
            self.exec(n["body"])
        except Thrown:
            if n["h"]:
                self.exec(n["h"][0]["body"])
            else:
                raise

    # ---- expressions --------------------------------------------------
    def ev(self, n):
        if n is None:
            return UNKNOWN
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooComplex("step limit")
        m = getattr(self, "e_" + n["k"], None)
        if m is not None:
            return m(n)
        m = getattr(self, "x_" + n["k"], None)
        if m is not None:
            m(n)
            return UNKNOWN
        vs = [self.ev(c) for c in n.get("c", []) if c]
        return V(None, union(vs))

    def e_throw(self, n):
        self.x_throw(n)

    def e_this(self, n):
        # innermost frame that has an object (lambda bodies share it)
        for f in reversed(self.frames):
            if f.this is not None:
                return f.this
        return V(("this",))

    def e_ref(self, n):
        dk = n.get("dk")
        if dk in ("p", "v") and "id" in n:
            v = self.st.env.get(n["id"])
            if v is None:
                v = V(("?" + n["n"],)) if dk == "p" else V(None)
                v = self.captured(n["id"], v)
            return v
        if dk == "e":
            return V(None, const=("enum", n.get("qn")), key=("enum", n.get("qn")))
        if dk in ("g", "s", "m"):
            p = ("::" + (n.get("qn") or n["n"]),)
            self.h_read(p, n)
            return self.st.store.get(p) or V(p)
        return V(None, key=("ref", n.get("qn") or n["n"]))

    def captured(self, vid, default):
        return default

    def e_mem(self, n):
        b = self.ev(n["b"]) if n.get("b") else UNKNOWN
        return self.member(b, n["n"], n)

    quiet_reads = False

    def lv_base(self, n):
        """an array whose element is assigned to: naming the array does not read it"""
        if n["k"] != "mem" or "std::array<" not in (n.get("t") or "std::array<") and not (n.get("t") or "").endswith("]"):
            return self.ev(n)
        old, self.quiet_reads = self.quiet_reads, True
        try:
            return self.ev(n)
        finally:
            self.quiet_reads = old

    def lvalue(self, n):
        """(base V, fields) of an assignable expression, or None"""
        k = n["k"]
        if k == "ref":
            if n.get("dk") in ("p", "v") and "id" in n:
                return ("var", n["id"], n)
            if n.get("dk") in ("g", "s", "m"):
                return ("path", V(("::" + (n.get("qn") or n["n"]),)), (), n)
            return None
        if k == "mem":
            b = self.ev(n["b"]) if n.get("b") else UNKNOWN
            return ("path", b, (n["n"],), n)
        if k == "un" and n["op"] == "*":
            return ("path", self.ev(n["e"]), (), n)
        if k == "opcall" and n["op"] == "*":
            return ("path", self.ev(n["a"][0]), (), n)
        if k == "idx":
            b = self.lv_base(n["b"])
            i = self.ev(n["i"])
            return ("path", b, (self.ixname(i),), n)
        if k == "opcall" and n["op"] == "[]":
            b = self.lv_base(n["a"][0])
            i = self.ev(n["a"][1])
            return ("path", b, (self.ixname(i),), n)
        if k == "mcall" and n.get("fn") == "at" and n.get("obj") and len(n.get("a", [])) == 1 and "std::array<" in (n["obj"].get("t") or ""):
            b = self.lv_base(n["obj"])
            i = self.ev(n["a"][0])
            return ("path", b, (self.ixname(i),), n)
        if k == "cast":
            return self.lvalue(n["e"])
        v = self.ev(n)
        return ("path", v, (), n)

    @staticmethod
    def ixname(i):
        if isinstance(i.const, int) and not isinstance(i.const, bool):
            return "[%d]" % i.const
        return "[]"

    def assign(self, lhs, v, node):
        if lhs.get("k") == "call" and (lhs.get("fn") or (lhs.get("f") or {}).get("n")) == "tie":
            # std::tie(a, b) = make_tuple(x, y)
            for i, a in enumerate(lhs.get("a", [])):
                if v.elems and i < len(v.elems):
                    e = v.elems[i]
                else:
                    e = self.member(v, ("first", "second")[i], node) if "pair<" in (node.get("a", [{}, {}])[1].get("t") or "") and i < 2 else V(None, v.deps)
                self.assign(a, e, node)
            return
        lv = self.lvalue(lhs)
        if lv is None:
            return
        if lv[0] == "var":
            old = self.st.env.get(lv[1])
            if old is not None and old.loc is None and old.path is not None and (lhs.get("refvar")):
                self.write_to(old, (), v, node)
            t = lhs.get("t", "")
            if old is not None and old.loc is not None:
                loc = old.loc
                for k in [k for k in self.st.store if len(k) > len(loc) and k[:len(loc)] == loc]:
                    del self.st.store[k]
                if v.loc is not None and v.loc != loc:
                    v = self.copy_local(v, loc)
                else:
                    v = v.clone(loc=loc)
                self.h_write(loc, v, node)
            elif old is not None and old.path is not None and self.isrefvar(lv[1]):
                self.write_to(old, (), v, node)
                return
            self.st.env[lv[1]] = v
        else:
            _, b, fields, _n = lv
            if v.loc is not None:
                # detach from the local it was copied from
                v2 = v.clone(loc=None)
                if b.loc is not None or b.path is not None:
                    dst = (b.loc if b.loc is not None else b.path) + tuple(fields)
                    if dst != v.loc:
                        self.write_to(b, fields, v2, node)
                        for k in [k for k in self.st.store if len(k) > len(v.loc) and k[:len(v.loc)] == v.loc]:
                            self.st.store[dst + k[len(v.loc):]] = self.st.store[k]
                    return
            self.write_to(b, fields, v, node)

    def isrefvar(self, vid):
        fn = self.frames[-1].fn if self.frames else None
        if fn is None:
            return False
        if "_refvars" not in fn:
            s = set()
            for p in fn.get("params", []):
                if p["t"].endswith("&"):
                    s.add(p["id"])
            for d in walk(fn.get("body")):
                if d["k"] == "decl":
                    for v in d["vars"]:
                        if v["t"].endswith("&"):
                            s.add(v["id"])
                if d["k"] == "range" and d.get("var") and d["var"]["t"].endswith("&"):
                    s.add(d["var"]["id"])
                if d["k"] == "lambda":
                    s.update(p["id"] for p in d.get("params", []) if p.get("t", "").endswith("&"))
            fn["_refvars"] = s
        return vid in fn["_refvars"]

    def e_bin(self, n):
        op = n["op"]
        if op == "=":
            v = self.ev(n["rhs"])
            self.assign(n["lhs"], v, n)
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            a = self.ev(n["lhs"])
            b = self.ev(n["rhs"])
            if op == "/=":
                self.h_div(a, b, n)
            v = V(None, union([a, b]))
            if op in ("&=", "|="):
                v = self.logic("&&" if op == "&=" else "||", a, lambda: b, n, eager=True)
            self.assign(n["lhs"], v, n)
            return v
        if op in ("&&", "||"):
            a = self.ev(n["lhs"])
            return self.logic(op, a, lambda: self.ev(n["rhs"]), n)
        if op == ",":
            self.ev(n["lhs"])
            return self.ev(n["rhs"])
        a = self.ev(n["lhs"])
        b = self.ev(n["rhs"])
        if op in ("==", "!=", "<", ">", "<=", ">=", "<=>"):
            return self.compare(op, a, b, n)
        if op in ("&", "|") and n.get("t") in ("bool", "int") and (isinstance(a.const, bool) or isinstance(b.const, bool)):
            return self.logic("&&" if op == "&" else "||", a, lambda: b, n, eager=True)
        if op in ("/", "%"):
            self.h_div(a, b, n)
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n):
        if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)) and not isinstance(a.const, bool):
            try:
                c = {"+": lambda: a.const + b.const, "-": lambda: a.const - b.const, "*": lambda: a.const * b.const}.get(op, lambda: None)()
            except Exception:
                c = None
            if c is not None:
                return V(None, const=c)
        return V(None, union([a, b]), key=("ar", op, self.vkey(a), self.vkey(b)))

    def logic(self, op, a, rhs, n, eager=False):
        ta = self.truth(a, n.get("lhs", n))
        if op == "&&":
            if not ta:
                return V(None, const=False)
            b = rhs()
            return V(None, const=self.truth(b, n.get("rhs", n)))
        if ta:
            return V(None, const=True)
        b = rhs()
        return V(None, const=self.truth(b, n.get("rhs", n)))

    def compare(self, op, a, b, n):
        if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
            return self.compare_tuple(op, a.elems, b.elems, n)
        if a.const is not None and b.const is not None and op in ("==", "!=") and not (isinstance(a.const, tuple) != isinstance(b.const, tuple)):
            return V(None, const=(a.const == b.const) == (op == "=="))
        if isinstance(a.const, (bool, int, float)) and isinstance(b.const, (bool, int, float)):
            x, y = a.const, b.const
            return V(None, const={"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}.get(op))
        r = self.h_compare(op, a, b, n)
        return r

    def compare_tuple(self, op, xs, ys, n):
        if op in ("==", "!="):
            eq = True
            for x, y in zip(xs, ys):
                if not self.truth(self.compare("==", x, y, n), n):
                    eq = False
                    break
            return V(None, const=(eq == (op == "==")))
        for x, y in zip(xs, ys):
            if self.truth(self.compare("<", x, y, n), n):
                return V(None, const=op in ("<", "<="))
            if self.truth(self.compare("<", y, x, n), n):
                return V(None, const=op in (">", ">="))
        return V(None, const=op in ("<=", ">="))

    def e_un(self, n):
        op = n["op"]
        v = self.ev(n["e"])
        if op in ("*", "&", "+", "__extension__"):
            return v
        if op == "!":
            if v.const is not None:
                return V(None, const=not v.const)
            if v.dyn:
                return V(None, const=False)
            r = V(None, v.deps, key=("not", self.vkey(v)))
            r.neg = v
            return r
        if op in ("++", "--"):
            w = V(None, v.deps)
            if isinstance(v.const, int) and not isinstance(v.const, bool):
                w = V(None, const=v.const + (1 if op == "++" else -1))
            self.assign(n["e"], w, n)
            return v.clone(loc=None) if n.get("post") else w.clone()
        if op == "-" and isinstance(v.const, (int, float)) and not isinstance(v.const, bool):
            return V(None, const=-v.const)
        return V(None, v.deps, key=("un", op, self.vkey(v)))

    def e_cond(self, n):
        c = self.ev(n["cond"])
        return self.ev(n["then"]) if self.truth(c, n["cond"]) else self.ev(n["else"])

    def e_idx(self, n):
        b = self.ev(n["b"])
        i = self.ev(n["i"])
        return self.index(b, i, n)

    def index(self, b, i, n):
        nm = self.ixname(i)
        if b.elems is not None and nm != "[]" and int(nm[1:-1]) < len(b.elems):
            return b.elems[int(nm[1:-1])]
        r = self.member(b, nm, n)
        if i.deps and r.path is None:
            r = r.clone(deps=r.deps | i.deps)
        return r

    def e_int(self, n):
        return V(None, const=int(n["v"]))

    def e_float(self, n):
        try:
            return V(None, const=float(n["v"]))
        except ValueError:
            return V(None, key=("f", n["v"]))

    def e_bool(self, n):
        return V(None, const=bool(n["v"]))

    def e_str(self, n):
        return V(None, const=("str", n.get("v", "")))

    def e_char(self, n):
        return V(None, const=("chr", n.get("v", "")))

    def e_nullptr(self, n):
        return V(None, const=("null",))

    def e_zero(self, n):
        return V(None, const=0)

    def e_sizeof(self, n):
        return V(None, key=("sizeof", n["l"]))

    def e_defarg(self, n):
        return V(None, key=("defarg",))

    def e_typeid(self, n):
        if n.get("e"):
            v = self.ev(n["e"])
            if v.path:
                return V(v.path + ("#typeid",))
            return V(None, v.deps)
        return V(None, const=("type", n.get("of")))

    def e_cast(self, n):
        v = self.ev(n["e"])
        if n["ck"] == "dynamic":
            return v.clone(dyn=True, cls=n.get("to"))
        return v

    def e_lambda(self, n):
        caps = {}
        for c in n.get("caps", []):
            if "init" in c:
                caps[c["id"]] = self.ev(c["init"])
        return V(None, lam=(n, self.st.env, caps, self.frames[-1] if self.frames else None))

    def call_lambda(self, v, args):
        n, env, caps, fr = v.lam
        if len(self.frames) >= self.MAXDEPTH + 4:
            return V(None, union(args))
        saved = self.st.env
        # by-reference view of the defining scope (ids are unique per function)
        if saved is not env:
            new = dict(env)
        else:
            new = env
        shadow = {}
        for k, x in caps.items():
            shadow[k] = new.get(k)
            new[k] = x
        for p, a in zip(n.get("params", []), args):
            shadow[p["id"]] = new.get(p["id"])
            new[p["id"]] = a
        self.st.env = new
        self.frames.append(Frame(fr.fn if fr else {"qn": "lambda", "params": []}, fr.this if fr else None, len(self.frames), self.uid))
        try:
            try:
                self.exec(n.get("body"))
                return V(None, key=("void",))
            except Return as e:
                return e.v
        finally:
            self.frames.pop()
            self.st.env = saved
            if new is not env:
                for k in env:
                    if k in new and k not in shadow:
                        env[k] = new[k]

    def e_ilist(self, n):
        vs = [self.ev(x) for x in n.get("a", [])]
        if len(vs) == 1 and vs[0].elems is not None and n["a"][0].get("k") == "ilist" and "array<" in n.get("t", ""):
            return vs[0]        # the inner braces of a std::array
        return V(None, union(vs), elems=vs)

    def e_new(self, n):
        v = self.ev(n["e"]) if n.get("e") else UNKNOWN
        return v

    def e_delete(self, n):
        self.ev(n.get("e"))
        return UNKNOWN

    def e_ctor(self, n):
        args = [self.ev(x) for x in n.get("a", [])]
        r = self.h_call(n, n.get("cls"), None, args)
        if r is not None:
            return r
        if n.get("cp") and args:
            return args[0]
        cls = n.get("cls", "")
        fn = self.F.functions.get(n.get("usr"))
        if fn is not None and self.should_inline(fn, None, args, n):
            self.uid += 1
            obj = V(None, union(args), loc=("L", self.uid, "tmp"), cls=cls)
            obj.deps = union(args)
            self.call_function(fn, obj, args, n)
            return obj
        if cls in ("std::pair", "std::tuple") and len(args) >= 2:
            return V(None, union(args), elems=args)
        if len(args) == 1 and (cls.startswith("std::") and (args[0].path or args[0].elems or args[0].const is not None)):
            return args[0]
        if cls and self.F.classes.get(cls) and len(args) == 0:
            self.uid += 1
            return V(None, loc=("L", self.uid, "tmp"), cls=cls)
        if cls.startswith("std::initializer_list") or n.get("li"):
            if len(args) == 1 and args[0].elems is not None:
                return args[0]
        return V(None, union(args), cls=cls)

    # ---- calls --------------------------------------------------------
    def resolve(self, n, obj):
        """function facts of the callee, using the dynamic class for virtual calls on root objects"""
        u = n.get("usr")
        fn = self.F.functions.get(u)
        if n.get("virt") and not n.get("nonvirt"):
            dc = None
            if obj is not None and obj.path in (("this",), ("other",)) and self.dyn_class:
                dc = self.dyn_class
            if dc:
                r = self.find_override(dc, n.get("fn"), u)
                if r is not None:
                    return r
                return fn
            # an override may exist
            return fn if fn is not None and not self.has_override(u) else None
        return fn

    def find_override(self, cls, name, usr):
        for c in [cls] + self.F.bases(cls):
            for f in self.F.by_cls.get(c, []):
                if f["n"] == name and (f["usr"] == usr or self.overrides(f, usr)):
                    return f
        return None

    def overrides(self, f, usr):
        seen = set()
        todo = list(f.get("over", []))
        while todo:
            u = todo.pop()
            if u == usr:
                return True
            if u in seen:
                continue
            seen.add(u)
            m = self.method_index().get(u)
            if m:
                todo += m.get("over", [])
        return False

    def method_index(self):
        ix = getattr(self.F, "_mix", None)
        if ix is None:
            ix = {}
            for c in self.F.classes.values():
                for m in c["methods"]:
                    ix[m["usr"]] = m
            self.F._mix = ix
            ov = set()
            for m in ix.values():
                for u in m.get("over", []):
                    ov.add(u)
            self.F._overridden = ov
        return ix

    def has_override(self, usr):
        self.method_index()
        return usr in self.F._overridden

    def e_call(self, n):
        f = n.get("f")
        fv = None
        if f is not None and f.get("k") not in ("ref",) or (f is not None and f.get("dk") in ("p", "v")):
            if f.get("k") == "mem" and f.get("dk") in ("d", "u"):
                # dependent member call
                obj = self.ev(f["b"]) if f.get("b") else UNKNOWN
                args = [self.ev(x) for x in n.get("a", [])]
                return self.method_call(n, f["n"], obj, args, cands=f.get("cands"))
            fv = self.ev(f)
        args = [self.ev(x) for x in n.get("a", [])]
        if fv is not None and fv.lam is not None:
            return self.call_lambda(fv, args)
        qn = n.get("qn") or (f or {}).get("qn") or (f or {}).get("n") or ""
        r = self.h_call(n, qn, fv, args)
        if r is not None:
            return r
        name = n.get("fn") or (f or {}).get("n") or ""
        base = qn if qn.startswith("std::") else ("std::" + name if (f or {}).get("dk") == "u" and not n.get("usr") else qn)
        if base in TRANSPARENT_FREE or (name in ("move", "forward") and len(args) == 1):
            return args[0] if args else UNKNOWN
        if base in TUPLE_MAKERS or name in ("tie", "make_tuple", "make_pair", "forward_as_tuple"):
            return V(None, union(args), elems=args)
        if name == "get" and len(args) == 1 and (n.get("ita") or (f or {}).get("ita")):
            i = int((n.get("ita") or f.get("ita"))[0])
            a = args[0]
            if a.elems and i < len(a.elems):
                return a.elems[i]
            return self.member(a, "#%d" % i, n)
        fn = self.F.functions.get(n.get("usr"))
        if fn is None and (f or {}).get("cands") and len(f["cands"]) == 1:
            fn = self.F.functions.get(f["cands"][0])
        if fn is not None and self.should_inline(fn, None, args, n):
            this = None
            if fn.get("cls") and not fn.get("static"):
                this = self.e_this(n)
            return self.call_function(fn, this, args, n)
        if name in ("make_shared", "make_unique"):
            return self.make_object(n, args)
        if name == "swap" and len(args) == 2 and fn is None:
            self.exchange(n["a"][0], args[0], n["a"][1], args[1], n)
            return V(None)
        return self.opaque_call(n, qn, None, args)

    def exchange(self, na, a, nb, b, n):
        """std::swap(a, b) and a.swap(b)"""
        vs = []
        for v in (a, b):
            if v.loc is not None:
                self.uid += 1
                v = self.copy_local(v, ("L", self.uid, "swap"))
            vs.append(v)
        self.assign(na, vs[1], n)
        self.assign(nb, vs[0], n)

    def make_object(self, n, args):
        return V(None, union(args))

    def opaque_call(self, n, qn, obj, args):
        allv = ([obj] if obj is not None else []) + args
        for a in args:
            if a.lam is not None:
                # functional argument: its body runs with unknown (element) arguments
                el = [self.elem(x) for x in args if x.lam is None and (x.path or x.deps)]
                name = n.get("fn") or (n.get("f") or {}).get("n") or ""
                try:
                    rv = self.call_lambda(a, (el + [UNKNOWN] * 4)[:len(a.lam[0].get("params", []))])
                    allv.append(rv)
                    if name in ("any_of", "all_of"):
                        return rv
                    if name == "none_of":
                        if rv.const is not None:
                            return V(None, const=not rv.const)
                        r = V(None, rv.deps, key=("not", self.vkey(rv)))
                        r.neg = rv
                        return r
                except (Break, Continue):
                    pass
                except Thrown:
                    if name == "for_each":
                        raise
        wr = n.get("wr") or []
        for i, w in enumerate(wr):
            if w and i < len(args):
                self.clobber(args[i], union(allv), n)
        return V(None, union(allv), key=("call", qn) + tuple(self.vkey(a) for a in allv if a is not None))

    def clobber(self, v, deps, node):
        if v.loc is not None:
            self.st.store[v.loc + ("#out",)] = V(None, deps)

    def e_mcall(self, n):
        obj = self.ev(n["obj"]) if n.get("obj") else (self.ev(n["f"]) if n.get("f") else UNKNOWN)
        args = [self.ev(x) for x in n.get("a", [])]
        return self.method_call(n, n.get("fn") or "", obj, args)

    def method_call(self, n, name, obj, args, cands=None):
        r = self.h_call(n, n.get("qn") or name, obj, args)
        if r is not None:
            return r
        if obj.lam is not None and name == "operator()":
            return self.call_lambda(obj, args)
        fn = self.resolve(n, obj) if n.get("usr") else None
        if fn is None and cands and len(cands) == 1:
            fn = self.F.functions.get(cands[0])
        if fn is not None and self.should_inline(fn, obj, args, n):
            return self.call_function(fn, None if fn.get("static") else obj, args, n)
        if name.startswith("operator ") and not args:
            return obj          # conversion
        std = (n.get("qn") or "std::").startswith(("std::", "__gnu_cxx", "cereal::"))
        if std:
            if name in TRANSPARENT_METHODS and not args:
                if name == "get" and obj.loc is not None and obj.path is None:
                    return obj
                return obj
            if name in ELEMENT_METHODS:
                return self.index(obj, args[0] if args else UNKNOWN, n)
            if name in PROPERTY_METHODS and not args:
                if obj.path is not None:
                    return V(obj.path + ("#" + name,))
                return V(None, obj.deps, key=("prop", name, self.vkey(obj)))
            if name in ("push_back", "emplace_back", "insert", "push_front", "emplace", "assign", "resize", "emplace_front"):
                vs = [a for a in args]
                el = vs[0] if len(vs) == 1 else V(None, union(vs), elems=vs if vs else None)
                if obj.loc is not None or obj.path is not None:
                    b = obj.loc if obj.loc is not None else obj.path
                    old = self.st.store.get(b + ("[]",))
                    nv = el.clone(loc=None)
                    self.st.store[b + ("[]",)] = join_v(old, nv) if old else nv
                    self.h_write(b + ("[]",), nv, n)
                return V(None, union([obj] + args))
            if name == "swap" and len(args) == 1 and n.get("obj") and n.get("a"):
                self.exchange(n["obj"], obj, n["a"][0], args[0], n)
                return V(None)
            if name in ("find", "lower_bound", "upper_bound", "equal_range"):
                return V(obj.path + ("[]",) if obj.path else None, obj.deps | union(args), key=("find", self.vkey(obj)) + tuple(self.vkey(a) for a in args))
            if name in ("count", "contains"):
                return V(None, obj.deps | union(args), key=("find", self.vkey(obj)) + tuple(self.vkey(a) for a in args))
        return self.opaque_call(n, n.get("qn") or name, obj, args)

    def e_opcall(self, n):
        op = n["op"]
        if op == "=" and len(n["a"]) == 2:
            v = self.ev(n["a"][1])
            fn = self.F.functions.get(n.get("usr"))
            self.assign(n["a"][0], v, n)
            return v
        if op in ("+=", "-=", "*=", "/=", "<<=", ">>=", "|=", "&=") and len(n["a"]) == 2:
            a = self.ev(n["a"][0])
            b = self.ev(n["a"][1])
            v = V(None, union([a, b]))
            self.assign(n["a"][0], v, n)
            return v
        args = [self.ev(x) for x in n["a"]]
        r = self.h_call(n, n.get("qn") or op, None, args)
        if r is not None:
            return r
        if op in ("*", "->") and len(args) == 1:
            fn = self.F.functions.get(n.get("usr"))
            if fn is None:
                return args[0]
        if op == "[]":
            fn = self.F.functions.get(n.get("usr"))
            if fn is None:
                return self.index(args[0], args[1], n)
        if op == "()" and args and args[0].lam is not None:
            return self.call_lambda(args[0], args[1:])
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(args) == 2:
            return self.compare_objects(op, args[0], args[1], n)
        if op in ("++", "--"):
            self.assign(n["a"][0], V(args[0].path, args[0].deps), n)
            return args[0]
        if op == "!" and len(args) == 1:
            rr = V(None, args[0].deps, key=("not", self.vkey(args[0])))
            rr.neg = args[0]
            return rr
        fn = self.F.functions.get(n.get("usr"))
        if fn is not None and not (n.get("virt") and self.has_override(n.get("usr"))) and self.should_inline(fn, args[0], args, n):
            if fn.get("cls") and not fn.get("static"):
                return self.call_function(fn, args[0], args[1:], n)
            return self.call_function(fn, None, args, n)
        if op in ("/", "%") and len(args) == 2:
            self.h_div(args[0], args[1], n)
        return V(None, union(args), key=("op", op) + tuple(self.vkey(a) for a in args))

    def compare_objects(self, op, a, b, n):
        roots = (("this",), ("other",))
        if a.path in roots and b.path in roots:
            fn = self.F.functions.get(n.get("usr"))
            if fn is not None and n.get("virt"):
                fn = self.resolve(n, a) or fn
            if fn is not None:
                if fn.get("cls") and not fn.get("static"):
                    return self.call_function(fn, a, [b], n)
                return self.call_function(fn, None, [a, b], n)
        return self.compare(op, a, b, n)


def strip(e):
    while e is not None and e.get("k") == "cast" or (e is not None and e.get("k") == "ctor" and len(e.get("a", [])) == 1):
        e = e["e"] if e["k"] == "cast" else e["a"][0]
    return e


def walk(n):
    """all nodes of a body, outermost first"""
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for key, v in n.items():
            if isinstance(v, (dict, list)) and not key.startswith("_"):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)
