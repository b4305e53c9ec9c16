"""Sums over channels: every channel counted once, each evaluated for itself."""
import re
from .. import loops
from ..flow import Flow, Client
from .found import Found
from ..interp import walk
from .serial import nm
from .roles import Defs, in_scope, strip, base_ref, target_of, per_target, where, EVAL, key_of

TERMS = {"TotalCrossSection", "TotalCrossSectionAllFinalStates", "TotalDecayWidth", "TotalDecayWidthAllFinalStates", "TotalDecayLength", "TotalDecayLengthAllFinalStates"}
QUERIES = {"GetPossibleSignatures", "GetPossibleSignaturesFromParent", "GetPossibleSignaturesFromParents"}
LOOPS = ("range", "for", "while", "do")


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict) and "k" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if "k" in x:
                        yield x
                    elif x.get("init") is not None:
                        yield x["init"]


def visit(n, encl, out):
    """out gets (call, enclosing loops from outside in)"""
    if n is None:
        return
    if n.get("k") == "lambda":
        encl = ()
    if n.get("k") == "mcall" and n.get("fn") in TERMS and len(n.get("a", [])) >= 1:
        out.append((n, encl))
    if n.get("k") == "call" and n.get("fn") in TERMS:
        out.append((n, encl))
    for c in kids(n):
        inner = encl
        if n.get("k") in LOOPS and c is n.get("body"):
            inner = encl + (n,)
        visit(c, inner, out)


def declared_in(body):
    out = set()
    for n in walk(body):
        if n["k"] == "decl":
            out |= {v["id"] for v in n.get("vars", [])}
        if n["k"] == "range" and n.get("var"):
            out.add(n["var"]["id"])
    return out


def leaves(n, depth=0):
    """break/return statements that leave this loop early"""
    if n is None:
        return
    k = n.get("k")
    if k == "return":
        yield n
        return
    if k == "break" and depth == 0:
        yield n
        return
    if k == "lambda":
        return
    for c in kids(n):
        yield from leaves(c, depth + (1 if k in LOOPS + ("switch",) else 0))


def refs(n):
    return {x.get("id") for x in walk(n) if x["k"] == "ref" and x.get("id") is not None}


def target_var(e):
    """the variable an accumulation goes to"""
    e = strip(e)
    while e is not None and (e["k"] == "idx" or e["k"] == "mem" or (e["k"] == "opcall" and e.get("op") == "[]") or (e["k"] == "mcall" and e.get("fn") in ("at", "back"))):
        e = strip(e.get("b") if e["k"] in ("idx", "mem") else (e["a"][0] if e["k"] == "opcall" else e.get("obj")))
    return e.get("id") if e is not None and e["k"] == "ref" else None


def run(ctx):
    F = ctx.F
    fns = [f for f in F.functions.values() if in_scope(f)]
    for f in sorted(fns, key=lambda f: f["usr"]):
        out = []
        visit(f["body"], (), out)
        looped = [(n, ls) for n, ls in out if ls]
        if not looped:
            continue
        D = Defs(f)
        per_target(ctx, F, f)
        for n, ls in looped:
            one(ctx, F, f, D, n, ls)
    for f in fns:
        overwritten(ctx, f)
        if f.get("ctor") == "other":
            sorted_in(ctx, f)
        if f.get("body") is not None and any(n["k"] in ("for", "range", "while") for n in walk(f["body"])):
            Flow(f, Absent(f, ctx)).run()
        if f["n"] in TERMS:
            cut_short(ctx, f)
    ctx.require(ctx.counts.get("terms", 0) >= 10, "no sums over channels found")


def channel_loop(L, D, n):
    """the loop goes over the channels: over signatures, models or targets"""
    if L["k"] == "range":
        t = (strip(L["range"]) or {}).get("t") or ""
        if any(s in t for s in ("InteractionSignature", "CrossSection", "Decay", "ParticleType")):
            return True
        return False
    if L["k"] == "for":
        t = " ".join((x.get("t") or "") for x in walk(L.get("cond")) if x["k"] in ("ref", "mem"))
        return any(s in t for s in ("InteractionSignature", "CrossSection", "Decay", "ParticleType"))
    return False


def one(ctx, F, f, D, n, ls):
    if not any(channel_loop(L, D, n) for L in ls):
        return
    short = nm(f["qn"])
    ctx.count("terms")
    # which variables carry this term
    body = ls[-1]["body"]
    seen_vars = set()
    changed = True

    def has(e):
        return any(x is n for x in walk(e)) or bool(refs(e) & seen_vars)
    local = declared_in(ls[-1]["body"])
    while changed:
        changed = False
        for x in walk(body):
            if x["k"] == "decl":
                for v in x.get("vars", []):
                    if v.get("init") is not None and v["id"] not in seen_vars and has(v["init"]):
                        seen_vars.add(v["id"])
                        changed = True
    assigns = []
    for x in walk(body):
        if x["k"] == "bin" and x["op"] in ("+=", "=", "-=", "*=", "/="):
            if has(x["rhs"]):
                assigns.append((x["op"], x["lhs"], x["rhs"], x))
    # a variable declared further out that only hands the term on to the sum
    for op, lhs, rhs, x in assigns:
        v = target_var(lhs)
        if op == "=" and v is not None and v not in local and strip(lhs)["k"] == "ref" and v not in refs(rhs):
            adds = [y for y in walk(body) if y["k"] == "bin" and (y["op"] == "+=" or (y["op"] == "=" and target_var(y["lhs"]) in refs(y["rhs"]))) and target_var(y["lhs"]) != v and v in refs(y["rhs"])]
            if adds:
                local.add(v)
                seen_vars.add(v)
    assigns = [(x["op"], x["lhs"], x["rhs"], x) for x in walk(body) if x["k"] == "bin" and x["op"] in ("+=", "=", "-=", "*=", "/=") and has(x["rhs"])]
    bad = None
    summed = False
    for op, lhs, rhs, x in assigns:
        v = target_var(lhs)
        if v is None or v in local:
            if v is not None and v in local:
                seen_vars.add(v)
            continue
        if op == "=" and v in refs(rhs):
            e = strip(rhs)
            if e is not None and e["k"] == "call" and (e.get("fn") or "").split("::")[-1] in ("max", "min", "fmax", "fmin"):
                bad = (x, "the term is not added to the sum of the earlier channels, the larger or smaller of both is kept")
                continue
        if op == "+=" or (op == "=" and v in refs(rhs)):
            summed = True
            inits(ctx, f, ls, v, x, short)
        elif op == "=" and not single_slot(lhs, ls[-1], D):
            bad = (x, "the term replaces the sum of the earlier channels instead of adding to it")
    if bad:
        ctx.violate("%s replaces the sum" % short, where(f, bad[0]), "%s: %s" % (f["qn"], bad[1]))
    if not summed:
        return
    ctx.count("sums")
    for L in ls:
        if not channel_loop(L, D, n):
            continue
        ex = list(leaves(L.get("body")))
        if ex:
            ctx.violate("%s leaves the sum early" % short, where(f, ex[0]), "%s leaves the loop over the channels before all of them were added" % f["qn"])
        else:
            ctx.ok("%s: the loop over channels runs to the end" % short)
        if L["k"] == "for":
            whole(ctx, f, L, short)
    signature_set(ctx, F, f, D, n, ls, short)
    for op, lhs, rhs, x in assigns:
        v = target_var(lhs)
        if v is not None and v not in local and strip(lhs)["k"] == "ref":
            carried(ctx, f, ls, v, short)
    skipped(ctx, f, D, n, ls, short)


def carried(ctx, f, ls, v, short):
    """a sum stored for each element of an outer loop starts anew for each of them"""
    for L in ls:
        if v in declared_in(L["body"]):
            continue
        lv = {L["var"]["id"]} if L["k"] == "range" and L.get("var") else set()
        if not lv:
            continue
        for x in walk(L["body"]):
            key = val = None
            if x["k"] == "mcall" and x.get("fn") in ("insert", "emplace", "insert_or_assign", "try_emplace") and "map<" in ((x.get("obj") or {}).get("t") or ""):
                if refs_of(x.get("a", [])) & lv and v in refs_of(x.get("a", [])):
                    key = x
            elif x["k"] == "bin" and x["op"] == "=":
                l = strip(x["lhs"])
                if l is not None and l["k"] == "opcall" and l.get("op") == "[]" and "map<" in ((strip(l["a"][0]) or {}).get("t") or "") and refs(l["a"][1]) & lv and v in refs(x["rhs"]):
                    key = x
            if key is None:
                continue
            ctx.count("stored_sums")
            if any(y["k"] == "bin" and y["op"] == "=" and target_var(y["lhs"]) == v and v not in refs(y["rhs"]) for y in walk(L["body"])):
                ctx.ok("%s: the stored sum starts anew" % short)
            else:
                ctx.violate("%s carries the sum over" % short, where(f, key), "%s stores a sum for each element but never starts it anew: it contains the earlier elements' terms" % f["qn"])
            return


def refs_of(xs):
    out = set()
    for x in xs:
        out |= refs(x)
    return out


def skipped(ctx, f, D, n, ls, short):
    """no channel is left out because of which channel it is"""
    for L in ls:
        if not channel_loop(L, D, n) or L["k"] != "range" or not L.get("var"):
            continue
        lv = L["var"]["id"]
        for x in walk(L["body"]):
            if x is n:
                break
            if x["k"] != "if" or not any(y["k"] == "continue" for y in walk(x.get("then"))) or any(y is n for y in walk(x)):
                continue
            for c in walk(x["cond"]):
                if c["k"] in ("bin", "opcall") and c.get("op") in ("==", "!=", "<", ">"):
                    sides = [strip(y) for y in ([c["lhs"], c["rhs"]] if c["k"] == "bin" else c["a"])]
                    if any(y is not None and y["k"] == "ref" and y.get("id") == lv for y in sides):
                        ctx.violate("%s leaves out a channel" % short, where(f, x), "%s leaves a channel out of the sum depending on which one it is" % f["qn"])
                        return


def overwritten(ctx, f):
    """a number computed in a loop over a list is not simply overwritten by every pass"""
    if "/interactions/" not in f["file"]:
        return
    for L in walk(f["body"]):
        if L["k"] != "range" or not L.get("var"):
            continue
        lv = L["var"]["id"]
        b = L["body"]
        local = declared_in(b)
        stmts = b.get("c", []) if b["k"] == "block" else [b]
        if list(leaves(b)):
            continue
        ctx.count("list_loops")
        for x in stmts:
            if x["k"] != "bin" or x["op"] != "=" or not (x["lhs"].get("t") or "").replace("const ", "") in ("double", "float", "int"):
                continue
            l = strip(x["lhs"])
            if l is None or l["k"] != "ref" or l.get("id") in local or l.get("id") is None or l["id"] in refs(x["rhs"]) or lv not in refs(x["rhs"]):
                continue
            reads = [y for y in walk(b) if y["k"] == "ref" and y.get("id") == l["id"] and y is not l]
            if reads:
                continue
            ctx.violate("%s keeps the last only" % nm(f["qn"]), where(f, x), "%s goes through a whole list, but %s holds what the last element gave" % (f["qn"], l["n"]))


LISTS = re.compile(r"map<.*,\s*std::vector<[^<]*(?:shared_ptr<)?[^<>]*(?:CrossSection|Decay|Interaction|InteractionSignature)\b")


class Absent(Found):
    """a list kept per key is only started where the key is known to be absent: starting it again, or starting it when
    it is there (an insert that does nothing), loses elements"""

    def __init__(self, fn, ctx):
        super().__init__(fn, ctx, None, None)
        self.unused, self.at = set(), {}
        for n in walk(fn["body"]):
            for c in (n.get("c", []) if n["k"] == "block" else [n.get("then"), n.get("else"), n.get("body")]):
                if isinstance(c, dict):
                    self.unused.add(id(strip(c)))

    def visit(self, e, s):
        m = v = None
        if e["k"] == "opcall" and e.get("op") == "[]":
            self.at[id(e)] = s      # asking for the entry makes one
        if e["k"] == "mcall" and e.get("fn") in ("insert", "emplace", "try_emplace") and id(e) in self.unused and e.get("a"):
            m, v = e.get("obj"), e["a"][-1]
        elif e["k"] == "opcall" and e.get("op") == "=" and len(e.get("a", [])) == 2:
            l = strip(e["a"][0])
            if l is not None and l["k"] == "opcall" and l.get("op") == "[]":
                m, v, s = l["a"][0], e["a"][1], self.at.get(id(l), s)
        if m is None or not LISTS.search((strip(m) or {}).get("t") or "") or not started(v):
            return
        self.ctx.count("lists")
        if any(x[0] == "absent" for x in s):
            self.ctx.ok("%s: list started once per key" % nm(self.fn["qn"]))
        else:
            self.ctx.violate("%s restarts a list" % nm(self.fn["qn"]), where(self.fn, e), "%s starts the list of a key on a path where the key may already have one, so that an element is lost" % self.fn["qn"])


def started(v):
    """a list written out with an element that a loop goes through"""
    for x in walk(v):
        if x["k"] in ("ilist", "ctor") and re.search(r"vector<|initializer_list<|\[\d+\]$", x.get("t") or x.get("cls") or "") and any(y["k"] in ("idx", "ref", "opcall") for a in x.get("a", []) for y in walk(a)):
            return True
    return False


class Kept(Client):
    def after(self, e, s):
        s = super().after(e, s)
        if s is not None and e["k"] == "mcall" and e.get("fn") in ("push_back", "emplace_back", "insert", "emplace", "push_front"):
            return s | {("kept",)}
        return s


def sorted_in(ctx, f):
    """a constructor that sorts a list of channels into its members leaves none out"""
    given = {p["id"]: p for p in f.get("params", []) if re.search(r"vector<std::shared_ptr<[^<>]*(?:CrossSection|Decay|Interaction)>", p["t"])}
    for L in walk(f["body"]):
        if L["k"] != "range" or (strip(L.get("range")) or {}).get("id") not in given:
            continue
        if not any(x["k"] == "mcall" and x.get("fn") in ("push_back", "emplace_back") for x in walk(L["body"])):
            continue
        fl = Flow(f, Kept(f))
        fl.breaks, fl.conts = [[]], [[]]
        ends = [fl.stmt(L["body"], frozenset())] + fl.conts[-1] + fl.breaks[-1]
        ctx.count("sorted_lists")
        if all(x is None or ("kept",) in x for x in ends):
            ctx.ok("%s keeps every element" % nm(f["qn"]))
        else:
            ctx.violate("%s leaves elements out" % nm(f["qn"]), where(f, L), "%s can pass over an element of %s without keeping it" % (f["qn"], given[strip(L["range"])["id"]]["n"]))


def cut_short(ctx, f):
    """an index loop of a total that adds up the elements of a list goes to its end"""
    for L in walk(f["body"]):
        if L["k"] != "for":
            continue
        vs = {v["id"] for x in walk(L.get("init")) if x["k"] == "decl" for v in x.get("vars", [])}
        adds = [x for x in walk(L["body"]) if x["k"] == "bin" and (x["op"] == "+=" or x["op"] == "=" and target_var(x["lhs"]) in refs(x["rhs"])) and refs(x["rhs"]) & vs]
        if not adds:
            continue
        ctx.count("index_sums")
        # neighbours: pairs of elements, one pass less than there are elements
        ix = [strip(x.get("i") if x["k"] == "idx" else x["a"][1]) for x in walk(L["body"]) if x["k"] == "idx" or x["k"] == "opcall" and x.get("op") == "[]"]
        if any(i is not None and i["k"] in ("bin", "un") and refs(i) & vs for i in ix):
            continue
        p = loops.partial(L, f)
        if p:
            ctx.violate("%s: loop %s" % (nm(f["qn"]), p), where(f, L), "%s: the sum over a list %s" % (f["qn"], p))
        else:
            ctx.ok("%s: the sum over a list goes to its end" % nm(f["qn"]))


def single_slot(lhs, L, D):
    """the target is indexed by the loop's own variable, so each pass has its own slot"""
    loopvars = {L["var"]["id"]} if L["k"] == "range" and L.get("var") else set()
    if L["k"] == "for":
        loopvars |= {v["id"] for x in walk(L.get("init")) if x["k"] == "decl" for v in x.get("vars", [])}
    ix = set()
    e = strip(lhs)
    while e is not None and (e["k"] == "idx" or (e["k"] == "opcall" and e.get("op") == "[]") or (e["k"] == "mcall" and e.get("fn") == "at")):
        ix |= refs(e.get("i") if e["k"] == "idx" else (e["a"][1] if e["k"] == "opcall" else e["a"][0]))
        e = strip(e.get("b") if e["k"] == "idx" else (e["a"][0] if e["k"] == "opcall" else e.get("obj")))
    return bool(ix & loopvars)


def inits(ctx, f, ls, v, x, short):
    """the accumulator is not reset inside the loop it accumulates over"""
    inner = ls[-1]
    for y in walk(inner["body"]):
        if y["k"] == "bin" and y["op"] == "=" and target_var(y["lhs"]) == v and v not in refs(y["rhs"]) and y is not x and strip(y["lhs"])["k"] == "ref":
            ctx.violate("%s resets the sum" % short, where(f, y), "%s sets the sum anew for each channel" % f["qn"])
            return
    ctx.ok("%s: the sum is not reset between channels" % short)


def whole(ctx, f, L, short):
    """an index loop starts at 0 and goes up by one"""
    p = loops.partial(L, f)
    if p:
        ctx.violate("%s: loop %s" % (short, p), where(f, L), "%s: the loop over the channels %s" % (f["qn"], p))
        return
    init = [v for x in walk(L.get("init")) if x["k"] == "decl" for v in x.get("vars", [])]
    for v in init:
        e = strip(v.get("init"))
        if e is not None and e["k"] == "int" and str(e["v"]) != "0":
            ctx.violate("%s starts at %s" % (short, e["v"]), where(f, L), "%s: the loop over the channels does not start at the first one" % f["qn"])
            return
    c = strip(L.get("cond"))
    if c is not None and c["k"] == "bin" and c["op"] in ("<", "!=", "<="):
        r = strip(c["rhs"])
        if c["op"] == "<=" or (r is not None and r["k"] == "bin" and r["op"] == "-"):
            ctx.violate("%s stops short" % short, where(f, L), "%s: the loop over the channels does not end with the last one" % f["qn"])
            return
    ctx.ok("%s: all channels from the first to the last" % short)


def signature_set(ctx, F, f, D, n, ls, short):
    """in a loop over final states the record evaluated is about the loop's final state"""
    if not n.get("a"):
        return
    r = base_ref(n["a"][0])
    if r is None or r["k"] != "ref":
        return
    # innermost enclosing loop over signatures
    for L in reversed(ls):
        if L["k"] == "range" and "InteractionSignature" in ((strip(L["range"]) or {}).get("t") or ""):
            var = L["var"]["id"]
            got = None
            for x in walk(L["body"]):
                if x is n:
                    break
                if (x["k"] == "bin" and x["op"] == "=") or (x["k"] == "opcall" and x.get("op") == "=" and len(x["a"]) == 2):
                    lhs, rhs = (x["lhs"], x["rhs"]) if x["k"] == "bin" else x["a"]
                    l = strip(lhs)
                    if l is not None and l["k"] == "mem" and l["n"] == "signature" and (base_ref(l) or {}).get("id") == r.get("id"):
                        got = refs(rhs)
                    elif l is not None and l["k"] == "ref" and l.get("id") == r.get("id"):
                        got = refs(rhs) | {None}
            direct = var in refs(n["a"][0])
            ctx.count("final_states")
            if got is not None and not direct and not before(L["body"], n, lambda x: sets_record(x, r.get("id"))):
                ctx.violate("%s evaluates another final state" % short, where(f, n), "%s sets the signature of the record only under a condition: %s is evaluated with the signature of an earlier final state" % (f["qn"], n["fn"]))
                return
            if direct or (got is not None and var in closure(got, D)):
                ctx.ok("%s: each final state is evaluated with its own signature" % short)
            elif any(var in refs(a) for a in n["a"][1:]):
                ctx.ok("%s: the final state is passed along" % short)
            else:
                ctx.violate("%s evaluates another final state" % short, where(f, n), "%s loops over the final states but evaluates %s with a record whose signature is not the loop's" % (f["qn"], n["fn"]))
            return


def sets_record(x, rid):
    """x assigns the record's signature, or the record"""
    if not ((x["k"] == "bin" and x["op"] == "=") or (x["k"] == "opcall" and x.get("op") == "=" and len(x["a"]) == 2)):
        return False
    l = strip(x["lhs"] if x["k"] == "bin" else x["a"][0])
    return l is not None and (l["k"] == "mem" and l["n"] == "signature" and (base_ref(l) or {}).get("id") == rid or l["k"] == "ref" and l.get("id") == rid)


def always(s, pred):
    """every way through s does it"""
    if s is None:
        return False
    k = s["k"]
    if k == "block":
        return any(always(c, pred) for c in s["c"])
    if k == "if":
        return any(pred(x) for x in walk(s["cond"])) or always(s.get("then"), pred) and always(s.get("else"), pred)
    if k in LOOPS + ("switch", "lambda"):
        return False
    if k == "try":
        return always(s.get("body"), pred)
    return any(pred(x) for x in walk(s))


def before(s, n, pred):
    """every way through s to n does it first"""
    if s is None:
        return False
    k = s["k"]
    if k == "block":
        for c in s["c"]:
            if any(x is n for x in walk(c)):
                return before(c, n, pred)
            if always(c, pred):
                return True
        return False
    if k == "if":
        for b in ("then", "else"):
            if s.get(b) is not None and any(x is n for x in walk(s[b])):
                return before(s[b], n, pred)
        return False
    if k in LOOPS or k in ("switch", "try"):
        return before(s.get("body"), n, pred)
    for x in walk(s):
        if x is n:
            return False
        if pred(x):
            return True
    return False


def closure(ids, D):
    out, todo = set(), [i for i in ids if i is not None]
    while todo:
        i = todo.pop()
        if i in out:
            continue
        out.add(i)
        for e in D.d.get(i, []):
            if e["k"] == "elem":
                todo += list(refs(e["b"]))
            else:
                todo += list(refs(e))
    return out
