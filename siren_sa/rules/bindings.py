"""C14: Python overrides are reached; C15: Python names reach the C++ member of that name."""
import re

from ..interp import walk

PASS = {"std::ref", "std::cref", "std::move", "std::forward", "std::as_const", "std::addressof"}


def strip(n):
    """argument without wrappers that only pass it on; says whether a reference was made explicit"""
    ref = False
    while n is not None:
        k = n.get("k")
        if k == "call" and n.get("qn") in PASS and n.get("a"):
            ref = ref or n["qn"] in ("std::ref", "std::cref")
            n = n["a"][0]
        elif k == "cast" and n.get("e") is not None:
            n = n["e"]
        elif k == "ctor" and len([a for a in n.get("a", []) if a.get("k") != "defarg"]) == 1 and (n.get("cp") or "reference_wrapper" in n.get("cls", "") or "shared_ptr" in n.get("cls", "")):
            n = n["a"][0]
        elif k == "un" and n.get("op") == "&":
            ref = True
            n = n["e"]
        elif k == "mcall" and n.get("fn", "").startswith("operator ") and not n.get("a") and "reference_wrapper" in n.get("qn", ""):
            n = n["obj"]
        else:
            break
    return n, ref


def parents(body):
    """yields (node, chain of enclosing nodes with the key they were entered by)"""
    st = [(body, ())]
    while st:
        n, ch = st.pop()
        if isinstance(n, dict):
            if "k" in n:
                yield n, ch
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    st.append((v, ch + ((n, k),) if "k" in n else ch))
        elif isinstance(n, list):
            for x in n:
                st.append((x, ch))


def test_of(cond, is_it):
    """+1 the condition is the value itself, -1 its negation, 0 unrelated"""
    s = 1
    while cond is not None:
        k = cond.get("k")
        if k == "un" and cond.get("op") == "!":
            s, cond = -s, cond["e"]
        elif k == "mcall" and cond.get("fn") in ("operator bool", "ptr"):
            cond = cond["obj"]
        elif k == "mcall" and cond.get("fn") == "is_none":
            s, cond = -s, cond["obj"]
        elif k == "cast":
            cond = cond["e"]
        elif k == "bin" and cond.get("op") in ("!=", "==") and cond["rhs"].get("k") in ("null", "nullptr"):
            s = s if cond["op"] == "!=" else -s
            cond = cond["lhs"]
        else:
            break
    return s if cond is not None and is_it(cond) else 0


def sig(m):
    return (m["n"], tuple(p["t"] for p in m["params"]), bool(m.get("const")))


def lookup(F, cls, s):
    """nearest declaration of the virtual in the bases of cls: (class, method)"""
    todo = [b.get("qn") for b in F.classes[cls]["bases"]] if cls in F.classes else []
    while todo:
        q = todo.pop(0)
        c = F.classes.get(q)
        if not c:
            continue
        for m in c["methods"]:
            if sig(m) == s and m.get("virt"):
                return q, m
        todo += [b.get("qn") for b in c["bases"]]
    return None, None


def reaches_override(F, f, depth=3, seen=None):
    seen = seen if seen is not None else set()
    if f["usr"] in seen or depth < 0:
        return False
    seen.add(f["usr"])
    for n in walk(f.get("body")):
        if n.get("fn") in ("get_override", "get_type_override"):
            return True
        if n.get("k") in ("call", "mcall") and n.get("usr") in F.functions and reaches_override(F, F.functions[n["usr"]], depth - 1, seen):
            return True
    return False


def run_trampolines(ctx):
    F = ctx.F
    direct = {}
    for f in F.functions.values():
        if f.get("cls") and any(n.get("fn") == "get_override" for n in walk(f.get("body"))):
            direct.setdefault(f["cls"], []).append(f)
    tr = set()
    for c, fs in direct.items():
        if any(f.get("virt") or f.get("over") for f in fs):
            tr.add(c)
    # classes handed to pybind11 as the alias of another class
    registered = {}
    for f in F.functions.values():
        if "/pybindings/" not in f["file"]:
            continue
        for n in walk(f.get("body")):
            if n.get("k") == "decl" or n.get("k") == "ctor":
                ts = [v.get("t", "") for v in n.get("vars", [])] if n["k"] == "decl" else [n.get("cls", ""), n.get("t", "")]
                for t in ts:
                    if t.startswith("pybind11::class_<"):
                        args = split_targs(t)
                        for a in args[1:]:
                            if a in F.classes and args[0] in F.bases(a):
                                registered.setdefault(a, set()).add(args[0])
                                tr.add(a)
    for cls in sorted(tr):
        if cls not in F.classes:
            continue
        ctx.count("trampolines")
        C = F.classes[cls]
        where = "%s:%s %s" % (F.rel(C["file"]), C["l"], cls)
        B = [b for b in F.bases(cls) if b in F.classes]
        if cls in registered:
            ctx.ok("%s is the alias class of %s" % (cls, ", ".join(sorted(registered[cls]))))
        else:
            ctx.violate("unregistered|%s" % cls, where, "no binding names %s as the class that Python subclasses of %s are built on: no override is ever seen" % (cls, B[0] if B else "?"))
        own = {}
        for q in [cls] + [b for b in B if b in tr]:
            for m in F.classes[q]["methods"]:
                if m.get("virt") and not m.get("dtor"):
                    own.setdefault(sig(m), (q, m))
        names = {s[0] for s in own}
        done = set()
        for b in B:
            if b in tr:
                continue
            for m in F.classes[b]["methods"]:
                s = sig(m)
                if not m.get("virt") or m.get("dtor") or m["n"].startswith(("operator", "~")) or s in done:
                    continue
                done.add(s)
                ctx.count("virtuals")
                if s in own:
                    ctx.ok("%s forwards %s" % (cls, m["n"]))
                    continue
                # a function that only hands over to an overload which is forwarded
                q, near = lookup(F, cls, s)
                impl = [f for f in F.by_cls.get(q, []) if f["usr"] == near["usr"]] if near else []
                if m["n"] in names and impl and any(n.get("k") == "mcall" and n.get("fn") == m["n"] for n in walk(impl[0].get("body"))):
                    ctx.ok("%s: %s reaches a forwarded overload" % (cls, m["n"]))
                    continue
                ctx.violate("missing|%s|%s" % (cls, m["n"]), where, "the virtual function %s::%s is not forwarded by %s: an override written in Python is ignored by C++ callers" % (b, m["n"], cls))
        for s, (q, m) in sorted(own.items(), key=lambda x: x[0][0]):
            if q != cls:
                continue
            f = F.functions.get(m["usr"])
            if f is None:
                continue
            check_forward(ctx, F, cls, f, m, s)


def split_targs(t):
    i = t.index("<")
    out, d, cur = [], 0, ""
    for c in t[i + 1:-1]:
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
            continue
        if c == "<":
            d += 1
        if c == ">":
            d -= 1
        cur += c
    out.append(cur.strip())
    return out


def check_forward(ctx, F, cls, f, m, s):
    ctx.count("forwarders")
    where = "%s %s" % (F.where(f), f["qn"])
    nparams = len(f["params"])
    body = f.get("body")
    gets = []
    nodes = list(parents(body))
    for n, ch in nodes:
        if n.get("fn") == "get_override" and n.get("k") == "call":
            gets.append((n, ch))
    key = "%s|%s/%d" % (cls, f["n"], nparams)
    if not gets:
        if reaches_override(F, f):
            ctx.notes.append("%s dispatches through a helper" % f["qn"])
            return
        ctx.violate("dispatch|" + key, where, "never looks for a Python override")
        return
    bad = False
    for n, ch in gets:
        lit = strip(n["a"][1])[0] if len(n["a"]) > 1 else {}
        name = lit.get("v") if lit and lit.get("k") == "str" else None
        if name is not None and name not in (f["n"], "_" + f["n"]):
            ctx.violate("name|" + key, "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"]), "looks for a Python override named '%s' instead of '%s'" % (name, f["n"]))
            bad = True
        # interpreter lock
        first = min((x["l"], i) for i, (x, _) in enumerate(nodes) if x is n)
        locked = False
        for b, k in ch:
            if b.get("k") == "block":
                for st in b["c"]:
                    if any(x is n for x in walk(st)):
                        break
                    if st.get("k") == "decl" and any("gil_scoped_acquire" in v.get("t", "") for v in st.get("vars", [])):
                        locked = True
        if not locked:
            ctx.violate("gil|" + key, "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"]), "looks up and calls Python code without holding the interpreter lock")
            bad = True
    # the variable holding the override
    ovars = set()
    for n, ch in nodes:
        if n.get("k") == "decl":
            for v in n.get("vars", []):
                if any(x.get("fn") == "get_override" for x in walk(v.get("init"))):
                    ovars.add(v["id"])
    is_ov = lambda e: e.get("k") == "ref" and e.get("dk") == "v" and e.get("id") in ovars
    has_self = lambda e: e.get("k") == "mem" and e.get("n") == "self"
    calls = []
    for n, ch in nodes:
        if n.get("fn") == "operator()" and n.get("k") in ("mcall", "opcall"):
            o = n["obj"] if n["k"] == "mcall" else n["a"][0]
            if is_ov(o) or any(x.get("fn") == "get_override" for x in walk(o)):
                calls.append((n, ch))
        if n.get("k") == "mcall" and n.get("fn") == "cast" and has_self(n.get("obj") or {}):
            for b, k in ch:
                if b.get("k") in ("if", "cond") and k in ("then", "else", "t", "f", "a", "b"):
                    t = test_of(b.get("cond"), has_self)
                    if t and (t > 0) != (k in ("then", "t", "a")):
                        ctx.violate("self|" + key, "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"]), "uses the remembered Python object exactly when there is none")
                        bad = True
    if not calls:
        ctx.violate("call|" + key, where, "finds the Python override but never calls it")
        return
    for n, ch in calls:
        at = "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"])
        for b, k in ch:
            if b.get("k") == "if" and k in ("then", "else"):
                t = test_of(b.get("cond"), is_ov)
                if t and (t > 0) != (k == "then"):
                    ctx.violate("polarity|" + key, at, "calls the Python override only when there is none")
                    bad = True
        args = [strip(a) for a in (n["a"] if n["k"] == "mcall" else n["a"][1:]) if a.get("k") != "defarg"]
        ids = [a.get("id") if a and a.get("k") == "ref" and a.get("dk") == "p" else None for a, _ in args]
        want = [p["id"] for p in f["params"]]
        if ids != want:
            ctx.violate("args|" + key, at, "hands the Python override %s where %s is expected" % (
                show_args(f, args), "(" + ", ".join(p["n"] or "?" for p in f["params"]) + ")"))
            bad = True
        else:
            byref = any(str(x) in ("5", "reference", "6") for x in n.get("ita", [])) or any("reference" in str(x) for x in n.get("ita", []))
            for (a, r), p in zip(args, f["params"]):
                if p["t"].endswith("&") and not p["t"].endswith("&&") and not p["t"].startswith("const ") and not (r or byref):
                    ctx.violate("copy|%s|%s" % (key, p["n"]), at, "hands the Python override a copy of '%s': what it writes there is lost" % p["n"])
                    bad = True
        if f["ret"] != "void":
            res = {v["id"] for x, _ in nodes if x.get("k") == "decl" for v in x.get("vars", []) if any(y is n for y in walk(v.get("init")))}
            rets = [x for x, _ in nodes if x.get("k") == "return" and x.get("v") and any(y is n or (y.get("k") == "ref" and y.get("id") in res and y.get("dk") == "v") for y in walk(x["v"]))]
            if not rets:
                ctx.violate("result|" + key, at, "the result of the Python override is not returned")
                bad = True
    # what happens without an override
    q, near = lookup(F, cls, s)
    fb = []
    for n, ch in nodes:
        if n.get("k") == "mcall" and n.get("usr") in {m2["usr"] for b in F.bases(cls) if b in F.classes for m2 in F.classes[b]["methods"] if m2.get("virt")}:
            o = n.get("obj")
            while o is not None and o.get("k") in ("cast", "un") and o.get("e") is not None:
                o = o["e"]
            if o is not None and o.get("k") == "this":
                fb.append(n)
    stub = False
    if near is not None and near["usr"] in F.functions:
        sts = [x for x in (F.functions[near["usr"]].get("body") or {}).get("c", []) if x.get("k") not in ("null", "empty")]
        stub = bool(sts) and any(x.get("k") == "throw" or (x.get("k") == "expr" and (x.get("e") or {}).get("k") == "throw") for x in sts[:1])
    if stub and not fb:
        pass                      # the implementation only reports that Python has to provide it
    elif near is not None and not near.get("pure"):
        same = [n for n in fb if n["usr"] == near["usr"]]
        if not same:
            if fb:
                ctx.violate("fallback|" + key, "%s:%s %s" % (F.rel(f["file"]), fb[0]["l"], f["qn"]), "without a Python override it calls %s instead of %s::%s" % (fb[0]["qn"], q, f["n"]))
            else:
                ctx.violate("fallback|" + key, where, "without a Python override the implementation %s::%s is not used" % (q, f["n"]))
            bad = True
        for n in same:
            ids = [a.get("id") if a and a.get("k") == "ref" and a.get("dk") == "p" else None for a, _ in [strip(x) for x in n["a"] if x.get("k") != "defarg"]]
            if ids != [p["id"] for p in f["params"]]:
                ctx.violate("fbargs|" + key, "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"]), "without a Python override the C++ implementation gets its arguments in a different order")
                bad = True
    elif near is not None:
        for n in fb:
            if n["usr"] == near["usr"]:
                ctx.violate("purefallback|" + key, "%s:%s %s" % (F.rel(f["file"]), n["l"], f["qn"]), "without a Python override it calls a function that has no implementation")
                bad = True
    if not bad:
        ctx.ok("%s: dispatch to '%s' with %d argument(s)" % (f["qn"], f["n"], nparams))


def show_args(f, args):
    nm = {p["id"]: p["n"] for p in f["params"]}
    return "(" + ", ".join(nm.get(a.get("id"), "?") if a and a.get("k") == "ref" and a.get("dk") == "p" else "..." for a, _ in args) + ")"


# ---------------------------------------------------------------------------------------------------------------- C15
DEFS = {"def", "def_static", "def_readwrite", "def_readonly", "def_property", "def_property_readonly", "def_readwrite_static", "def_property_static"}


def norm(s):
    s = re.sub(r"[^A-Za-z0-9]", "", s).lower()
    return s


def bare(s):
    n = norm(s)
    for p in ("get", "set"):
        if n.startswith(p) and len(n) > len(p):
            return n[len(p):]
    return n


def simple(t):
    return re.sub(r"\b(const|siren|std|dataclasses|math|detector|geometry|interactions|distributions|utilities|injection)\b|[\s&:]|__cxx11", "", t)


def members_of(F, cls):
    out = {}
    for q in [cls] + F.bases(cls):
        c = F.classes.get(q)
        if not c:
            continue
        for m in c["methods"]:
            if m.get("acc") != "private" and not m.get("ctor") and not m.get("dtor"):
                out.setdefault(m["n"], []).append((q, m))
        for m in c["fields"]:
            if m.get("acc") != "private":
                out.setdefault(m["n"], []).append((q, None))
    return out


def bound_class(n):
    """the C++ class of the pybind11 class_ a definition belongs to"""
    o = n.get("obj")
    while o is not None:
        t = o.get("t", "")
        if "pybind11::class_<" in t:
            return split_targs(t[t.index("pybind11::class_<"):].rstrip("&* ").replace("const ", ""))[0] if t.rstrip("&* ").endswith(">") else None
        o = o.get("obj") or o.get("b") or o.get("e")
    return None


def target(a):
    """the C++ function or data member a binding argument names"""
    lam = any(x.get("k") == "lambda" for x in walk(a))
    if lam:
        return None
    for x in walk(a):
        if x.get("k") == "ref" and x.get("dk") in ("f", "m", "s") and "::" in x.get("qn", "") and not x["qn"].startswith(("pybind11", "std::")):
            return x
    return None


def arg_names(n):
    """names given by py::arg in order; None if none"""
    out = []
    for a in n["a"]:
        for x in walk(a):
            if x.get("k") == "ctor" and x.get("cls") in ("pybind11::arg", "pybind11::arg_v") and x.get("a") and x["a"][0].get("k") == "str":
                out.append(x["a"][0]["v"])
                break
        else:
            if a.get("k") == "call" and "operator\"\"" in a.get("fn", "") and a["a"][0].get("k") == "str":
                out.append(a["a"][0]["v"])
    return out


def run_names(ctx):
    F = ctx.F
    files = set()
    for f in F.functions.values():
        if "/pybindings/" not in f["file"]:
            continue
        files.add(f["file"])
        seen = set()
        for n in walk(f.get("body")):
            if n.get("k") == "mcall" and n.get("fn") == "value" and n.get("qn", "").startswith("pybind11::enum_") and len(n.get("a", [])) > 1:
                enum_value(ctx, F, f, n)
                continue
            if n.get("k") != "mcall" or n.get("fn") not in DEFS or not n.get("a"):
                continue
            if not n.get("qn", "").startswith("pybind11::"):
                continue
            one_def(ctx, F, f, n)
    ctx.count("binding_files", len(files))


def one_def(ctx, F, f, n):
    a0 = n["a"][0]
    cls = bound_class(n)
    line = next((x.get("l") for x in n["a"] if x.get("l")), n["l"])
    where = "%s:%s" % (F.rel(f["file"]), line)
    if a0.get("k") == "str" and len(n["a"]) > 1:
        name = a0["v"]
        ctx.count("definitions")
        n_acc = 2 if n["fn"] == "def_property" else 1
        accs = n["a"][1:1 + n_acc]
        refs = [target(a) for a in accs]
        bad = False
        for a, r in zip(accs, refs):
            if r is not None:
                got = r["qn"].rsplit("::", 1)
                owner = got[0]
                if owner not in F.classes:
                    continue
                if name.startswith("__") or got[1].startswith("operator"):
                    continue
                if bare(got[1]) == bare(name):
                    continue
                mem = members_of(F, cls if cls in F.classes else owner)
                other = [m for m in mem if bare(m) == bare(name)]
                if other and r["n"] != other[0]:
                    ctx.violate("name|%s|%s" % (cls or owner, name), where, "the Python name '%s' of %s is bound to %s although the class has %s" % (name, cls or owner, r["qn"], other[0]))
                    bad = True
            else:
                lam = next((x for x in walk(a) if x.get("k") == "lambda"), None)
                if lam is None or name.startswith("__") or cls not in F.classes:
                    continue
                mem = members_of(F, cls)
                other = {m for m in mem if bare(m) == bare(name)}
                used = {x["n"] if x["k"] == "mem" else x.get("fn") for x in walk(lam) if (x.get("k") == "mem" or x.get("k") == "mcall")}
                used_own = {u for u in used if u in mem}
                if other and used_own and not (other & used):
                    ctx.violate("name|%s|%s" % (cls, name), where, "the Python name '%s' of %s uses %s but never %s" % (name, cls, "/".join(sorted(used_own)), "/".join(sorted(other))))
                    bad = True
        if len(refs) == 2 and all(refs) and refs[1]["qn"].rsplit("::", 1)[0] in F.classes:
            g, s = bare(refs[0]["n"]), bare(refs[1]["n"])
            if g != s and not (g.endswith(s) or s.endswith(g)) and bare(name) not in (g, s):
                pass
            elif g != s and bare(name) in (g, s):
                ctx.violate("pair|%s|%s" % (cls, name), where, "the property '%s' reads %s but writes %s" % (name, refs[0]["qn"], refs[1]["qn"]))
                bad = True
        if refs and refs[0] is not None and n["fn"] in ("def", "def_static"):
            bad = check_args(ctx, F, n, refs[0], cls, name, where) or bad
        if not bad:
            ctx.ok("%s.%s" % (cls or F.rel(f["file"]), name))
    elif n["fn"] == "def" and cls in F.classes:
        t = a0.get("t", "")
        i = t.find("initimpl::constructor<")
        if i < 0:
            return
        ctx.count("constructors")
        types = split_targs(t[i + len("initimpl::"):]) if not t[i:].startswith("initimpl::constructor<>") else []
        names = arg_names(n)
        if not names:
            ctx.ok("constructor of %s, positional" % cls)
            return
        key = [simple(x) for x in types]
        best = [m for m in F.classes[cls]["methods"] if m.get("ctor") and [simple(p["t"]) for p in m["params"]] == key]
        if not best:
            cand = [m for m in F.classes[cls]["methods"] if m.get("ctor") == "other" and len(m["params"]) >= len(types) and loosely(m["params"], types)]
            best = cand if len(cand) == 1 else []
        if not best:
            ctx.count("constructors_unmatched")
            return
        if not order_bad(ctx, F, best[0], names, "%s constructor" % cls, where, "ctor|%s|%s" % (cls, ",".join(names)[:60])):
            ctx.ok("constructor %s(%s)" % (cls, ", ".join(names)))


def loosely(params, types):
    return all(simple(p["t"])[:6] == simple(t)[:6] for p, t in zip(params, types))


def check_args(ctx, F, n, ref, cls, name, where):
    names = arg_names(n)
    if not names:
        return False
    m = None
    if ref.get("usr") in F.functions:
        m = F.functions[ref["usr"]]
    else:
        owner = ref["qn"].rsplit("::", 1)[0]
        for q in [owner]:
            for x in (F.classes.get(q) or {"methods": []})["methods"]:
                if x["usr"] == ref.get("usr"):
                    m = x
    if m is None:
        return False
    return order_bad(ctx, F, m, names, "%s.%s" % (cls or "", name), where, "args|%s|%s" % (cls, name))


def order_bad(ctx, F, m, names, what, where, key):
    ctx.count("argument_lists")
    ps = [norm(p["n"]) for p in m["params"]]
    ns = [norm(x) for x in names]
    for i, x in enumerate(ns):
        if x in ps and (i >= len(ps) or ps[i] != x) and ps.count(x) == 1:
            j = ps.index(x)
            ctx.violate(key, where, "%s: the Python argument '%s' (number %d) is the C++ parameter number %d; given by name, the value lands in '%s'" % (
                what, names[i], i + 1, j + 1, m["params"][i]["n"] if i < len(ps) else "?"))
            return True
    return False


def enum_value(ctx, F, f, n):
    lit = n["a"][0]
    ref = next((x for x in walk(n["a"][1]) if x.get("k") == "ref"), None)
    if lit.get("k") != "str" or ref is None:
        return
    ctx.count("enumerators")
    where = "%s:%s" % (F.rel(f["file"]), lit.get("l") or n["l"])
    t = (n["a"][1].get("t") or "").replace("const ", "").strip()
    e = F.enums.get(t)
    names = {c[0] for c in e["c"]} if e else set()
    if ref.get("n") == lit["v"] or lit["v"] not in names:
        ctx.ok("enumerator %s" % lit["v"])
    else:
        ctx.violate("enum|%s|%s" % (t, lit["v"]), where, "the Python name '%s' stands for the enumerator %s" % (lit["v"], ref.get("n")))
