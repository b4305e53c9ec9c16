"""Does a counting loop visit every element?  partial(loop, fn) names the part left out, or None when the loop covers
its range or is of a form this does not judge."""
from .interp import strip, walk


def const_int(e):
    e = strip(e)
    if e is None:
        return None
    if e["k"] == "int":
        return int(e["v"])
    if e["k"] == "zero":
        return 0
    if e["k"] == "ilist" and not e.get("a"):
        return 0
    if e["k"] == "un" and e["op"] == "-":
        c = const_int(e["e"])
        return None if c is None else -c
    return None


def local_init(fn, vid):
    inits = []
    for n in walk(fn.get("body")):
        if n["k"] == "decl":
            for v in n["vars"]:
                if v["id"] == vid and v.get("init") is not None:
                    inits.append(v["init"])
        elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["lhs"]["k"] == "ref" and n["lhs"].get("id") == vid:
            inits.append(None)
    return inits[0] if len(inits) == 1 else None


def size_like(e, fn, depth=0):
    """'size' when e is some container's element count, 'less' when something is taken off it, None otherwise"""
    e = strip(e)
    if e is None or depth > 3:
        return None
    if e["k"] == "mcall" and e.get("fn") in ("size", "length") and not e.get("a"):
        return "size"
    if e["k"] == "call" and (e.get("f") or {}).get("k") == "mem" and e["f"].get("n") in ("size", "length"):
        return "size"
    if e["k"] == "bin" and e["op"] in ("-", "/") and size_like(e["lhs"], fn, depth + 1) == "size" and (const_int(e["rhs"]) or 0) > 0:
        return "less"
    if e["k"] == "ref" and e.get("dk") == "v":
        i = local_init(fn, e.get("id"))
        return size_like(i, fn, depth + 1) if i is not None else None
    return None


def is_var(e, vid):
    e = strip(e)
    return e is not None and e["k"] == "ref" and e.get("id") == vid


def partial(n, fn):
    if n["k"] != "for" or not n.get("cond"):
        return None
    init = n.get("init")
    if init is None or init["k"] != "decl":
        return None
    for v in init["vars"]:
        vid = v["id"]
        c = strip(n["cond"])
        if c["k"] not in ("bin", "opcall"):
            return None
        l, r = (c["lhs"], c["rhs"]) if c["k"] == "bin" else (c["a"][0], c["a"][1]) if len(c.get("a", [])) == 2 else (None, None)
        if l is None:
            return None
        op = c["op"]
        if is_var(r, vid):
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not is_var(l, vid):
            a = strip(l)
            if a is not None and a["k"] == "bin" and a["op"] == "+" and op in ("<", "!=") and size_like(r, fn) == "size" and \
                    (is_var(a["lhs"], vid) and (const_int(a["rhs"]) or 0) > 0 or is_var(a["rhs"], vid) and (const_int(a["lhs"]) or 0) > 0):
                return "stops before the last element"
            continue
        sl = size_like(r, fn)
        if sl is None:
            # begin() + k
            i = strip(v.get("init")) if v.get("init") else None
            if i is not None and i["k"] in ("opcall", "bin") and i["op"] == "+":
                a = i["a"] if i["k"] == "opcall" else [i["lhs"], i["rhs"]]
                b = strip(a[0])
                if b is not None and (b.get("fn") or (b.get("f") or {}).get("n")) in ("begin", "cbegin") and (const_int(a[1]) or 0) > 0:
                    return "starts after the first element"
            return None
        c0 = const_int(v.get("init")) if v.get("init") is not None else None
        if op in ("<", "!="):
            if sl == "less":
                return "stops before the last element"
            if c0 is not None and c0 > 0:
                return "starts at element %d" % c0
        if op == "<=" and sl == "size":
            return "runs past the last element"
        inc = n.get("inc")
        if inc is not None and inc["k"] == "bin" and inc["op"] == "+=" and is_var(inc["lhs"], vid) and (const_int(inc["rhs"]) or 1) > 1:
            return "skips elements"
    return None
