"""Forward must-analysis over a function's syntax tree.  A state is a frozenset of facts that hold on every path to a
point, None where no path arrives.  A client gives
  atom(e)          -> (facts if e is true, facts if e is false)
  visit(e, state)  called for every expression with the state it is evaluated in (its operands already visited)
  after(e, state)  -> state after the expression (assignments, calls that change something)
Facts are tuples whose elements are strings; kill(state, words) drops every fact with one of the words in its text."""
import re
from .interp import walk
from .rules.roles import Defs, strip

NORETURN = {"abort", "exit", "_exit", "quick_exit", "terminate", "__assert_fail", "__assert_rtn", "pybind11_fail", "throw_exception", "rethrow_exception"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def word(state, words):
    if state is None or not words:
        return state
    r = re.compile(r"(?<![A-Za-z0-9_])(?:%s)(?![A-Za-z0-9_])" % "|".join(map(re.escape, words)))
    return frozenset(f for f in state if not any(r.search(x) for x in f))


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a & b


class Flow:
    def __init__(self, fn, client):
        self.fn = fn
        self.c = client
        self.breaks = []
        self.conts = []
        self.exits = []         # (node, state) at each return / end

    def run(self):
        s = frozenset()
        for i in self.fn.get("inits", []):
            s = self.value(i.get("e"), s)
        s = self.stmt(self.fn.get("body"), s)
        if s is not None:
            self.exits.append((None, s))
        return s

    # ---- statements
    def stmt(self, n, s):
        if n is None or s is None:
            return s
        k = n["k"]
        if k == "block":
            for c in n.get("c", []):
                s = self.stmt(c, s)
            return s
        if k == "decl":
            for v in n.get("vars", []):
                s = self.value(v.get("init"), s)
                if s is not None:
                    s = self.c.declared(v, s)
            return s
        if k == "if":
            s = self.stmt(n.get("init"), s)
            s = self.stmt(n.get("cv"), s)
            if s is None:
                return None
            t, f = self.cond(n["cond"], s)
            return meet(self.stmt(n.get("then"), t), self.stmt(n["else"], f) if n.get("else") else f)
        if k in ("for", "while", "do", "range"):
            return self.loop(n, s)
        if k == "switch":
            s = self.value(n.get("cond"), s)
            self.breaks.append([])
            cur, out, default = None, None, False
            body = n.get("body") or {}
            for c in body.get("c", [body]) if body.get("k") == "block" else [body]:
                while c is not None and c["k"] in ("case", "default"):
                    default |= c["k"] == "default"
                    cur = meet(cur, s)
                    c = c.get("body")
                cur = self.stmt(c, cur)
            for b in self.breaks.pop():
                out = meet(out, b)
            out = meet(out, cur)
            return out if default else meet(out, s)
        if k in ("case", "default"):
            return self.stmt(n.get("body"), s)
        if k == "break":
            if self.breaks:
                self.breaks[-1].append(s)
            return None
        if k == "continue":
            if self.conts:
                self.conts[-1].append(s)
            return None
        if k == "return":
            s = self.value(n.get("v"), s)
            if s is not None:
                self.exits.append((n, s))
            return None
        if k == "throw":
            self.value(n.get("v"), s)
            return None
        if k == "try":
            r = self.stmt(n.get("body"), s)
            h0 = self.forget(n.get("body"), s)
            for h in n.get("h", []):
                r = meet(r, self.stmt(h.get("body"), h0))
            return r
        if k == "null":
            return s
        return self.value(n, s)

    def forget(self, n, s):
        """the state with everything n may change dropped"""
        words = set()
        for x in walk(n):
            words |= self.c.changes(x)
        return word(s, words)

    def loop(self, n, s):
        k = n["k"]
        if k == "for":
            s = self.stmt(n.get("init"), s)
        if k == "range":
            s = self.value(n.get("range"), s)
        if s is None:
            return None
        head = s
        for part in ("body", "inc", "cond", "cv"):
            if n.get(part):
                head = self.forget(n[part], head)
        self.breaks.append([])
        self.conts.append([])
        out = None
        if k == "do":
            b = self.stmt(n.get("body"), head)
            for c in self.conts[-1]:
                b = meet(b, c)
            if b is not None:
                t, out = self.cond(n["cond"], b)
        else:
            h = self.stmt(n.get("cv"), head) if n.get("cv") else head
            if n.get("cond") is not None:
                t, out = self.cond(n["cond"], h)
            else:
                t, out = h, (h if k == "range" else None)
            b = self.stmt(n.get("body"), t)
            for c in self.conts[-1]:
                b = meet(b, c)
            if b is not None and n.get("inc"):
                self.value(n["inc"], b)
        self.conts.pop()
        for b in self.breaks.pop():
            out = meet(out, b)
        return out

    # ---- expressions
    def value(self, e, s):
        if e is None or s is None:
            return s
        t, f = self.cond(e, s)
        return meet(t, f)

    def cond(self, e, s):
        if e is None:
            return s, s
        if s is None:
            return None, None
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "and"):
            t, f = self.cond(e["lhs"], s)
            t2, f2 = self.cond(e["rhs"], t)
            return t2, meet(f, f2)
        if k == "bin" and e["op"] in ("||", "or"):
            t, f = self.cond(e["lhs"], s)
            t2, f2 = self.cond(e["rhs"], f)
            return meet(t, t2), f2
        if k == "un" and e.get("op") in ("!", "not"):
            t, f = self.cond(e["e"], s)
            self.c.visit(e, s)
            return f, t
        if k == "cond":
            t, f = self.cond(e["cond"], s)
            a, b = self.cond(e["then"], t)
            c, d = self.cond(e["else"], f)
            return meet(a, c), meet(b, d)
        if k == "bool":
            return (s, None) if e["v"] else (None, s)
        if k in ("cast", "paren") or (k == "ctor" and len(e.get("a", [])) == 1 and (e.get("cp") or e.get("li"))):
            inner = e.get("e") if k != "ctor" else e["a"][0]
            t, f = self.cond(inner, s)
            m = meet(t, f)
            if m is None:
                return t, f
            self.c.visit(e, m)
            T, Fa = self.c.atom(e)
            return (None if t is None else t | frozenset(T)), (None if f is None else f | frozenset(Fa))
        if k == "throw":
            self.value(e.get("v"), s)
            return None, None
        if k == "lambda":
            b, c2, x = self.breaks, self.conts, self.exits
            self.breaks, self.conts, self.exits = [], [], []
            self.stmt(e.get("body"), s)
            self.breaks, self.conts, self.exits = b, c2, x
            return s, s
        for c in self.children(e):
            s = self.value(c, s)
            if s is None:
                return None, None
        self.c.visit(e, s)
        if k in ("call", "mcall") and (e.get("fn") in NORETURN or (e.get("qn") or "").split("::")[-1] in NORETURN):
            return None, None
        s = self.c.after(e, s)
        T, Fa = self.c.atom(e)
        return s | frozenset(T), s | frozenset(Fa)

    def children(self, e):
        k = e["k"]
        if k == "bin" and e["op"] in ASSIGN:
            return [e["rhs"], e["lhs"]]
        if k == "bin":
            return [e["lhs"], e["rhs"]]
        out = []
        for key in ("obj", "f", "b", "i", "e", "v", "init"):
            if isinstance(e.get(key), dict):
                out.append(e[key])
        for key in ("a", "c"):
            if isinstance(e.get(key), list):
                out += [x for x in e[key] if isinstance(x, dict)]
        return out


class Client:
    """defaults: nothing is learnt, assignments and increments make facts about their target stale"""

    def __init__(self, fn):
        self.D = Defs(fn)
        self.fn = fn

    def atom(self, e):
        return (), ()

    def visit(self, e, s):
        pass

    def target(self, e):
        """the word that names what is assigned"""
        e = strip(e)
        while e is not None and (e["k"] == "idx" or (e["k"] == "opcall" and e.get("op") in ("[]", "->"))):
            e = strip(e.get("b") if e["k"] == "idx" else e["a"][0])
        if e is None:
            return set()
        if e["k"] == "ref" and e.get("id") is not None:
            return {"v%s" % e["id"]}
        if e["k"] == "mem":
            return {e["n"]}
        return set()

    def changes(self, e):
        k = e["k"]
        if k == "bin" and e["op"] in ASSIGN:
            return self.target(e["lhs"])
        if k == "opcall" and e.get("op") in ASSIGN | {"++", "--"} and e.get("a"):
            return self.target(e["a"][0])
        if k == "un" and e.get("op") in ("++", "--"):
            return self.target(e["e"])
        if k == "decl":
            return {"v%s" % v["id"] for v in e.get("vars", [])}
        if k == "range" and e.get("var"):
            return {"v%s" % e["var"]["id"]}
        return set()

    def after(self, e, s):
        return word(s, self.changes(e))

    def declared(self, v, s):
        return word(s, {"v%s" % v["id"]})
