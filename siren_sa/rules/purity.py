"""C10: results depend on nothing but the arguments, the object and the supplied generator."""
import ast
import glob
import os

from ..interp import walk
from ..effects import Effects, root_of, aliases

RANDOM = "siren::utilities::SIREN_random"

# library calls whose result differs between otherwise identical runs
SOURCES = {"rand", "rand_r", "random", "srand", "srandom", "drand48", "erand48", "lrand48", "mrand48", "arc4random", "getrandom",
           "time", "clock", "clock_gettime", "gettimeofday", "getpid", "getppid", "gettid", "gethostid", "gethostname", "getuid",
           "random_shuffle", "shuffle", "get_id", "getrusage", "tmpnam", "mkstemp", "rdtsc", "__rdtsc", "__builtin_ia32_rdtsc"}
SOURCE_QN = ("std::chrono", "std::random_device", "gsl_rng_", "gsl_ran_", "std::this_thread::get_id")
ENGINES = ("mersenne_twister_engine", "linear_congruential_engine", "subtract_with_carry_engine", "random_device", "discard_block_engine",
           "independent_bits_engine", "shuffle_order_engine", "mt19937", "minstd_rand", "ranlux", "knuth_b", "default_random_engine")
# the two places that are meant to differ between runs: a seed nobody chose, and process-wide particle ids
MEANT = {RANDOM + "::generate_seed", "siren::dataclasses::ParticleID::GenerateID"}

# namespace-scope state that may change while the program runs, with the reason
GLOBALS = {
    "global_seed_lock": "lock", "global_id_lock": "lock",
    "global_last_pid_": "particle ids", "global_minor_id_": "particle ids", "global_major_id_": "particle ids",
}

# mutable members and what they are; 'lazy' record quantities are decided by C07, 'cache' by C11
MUTABLE = {
    "siren::dataclasses::PrimaryDistributionRecord": "lazy",
    "siren::dataclasses::SecondaryDistributionRecord": "lazy",
    "siren::dataclasses::SecondaryParticleRecord": "lazy",
    "siren::detector::DetectorModel": "cache",
    "siren::geometry::Geometry": "cache",
    "siren::interactions::CharmMesonDecay": "cache",
    "siren::interactions::CharmMesonDecay3Body": "cache",
}
CHAIN = {"siren::distributions::Tabulated2DFluxDistribution": {"MH_density", "MH_sampled_points"}}   # position of the Markov chain: sampling only


def in_lib(f):
    return "/pybindings/" not in f["file"] and "/test/" not in f["file"] and not f.get("internal_py")


def callers_index(F):
    ix = {}
    for f in F.functions.values():
        for n in list(walk(f.get("body"))) + [x for i in f.get("inits", []) for x in walk(i.get("e"))]:
            u = n.get("usr")
            if u and n["k"] in ("call", "mcall", "opcall", "ctor", "ref"):
                ix.setdefault(u, set()).add(f["usr"])
    return ix


def takes_generator(f):
    return any("SIREN_random" in p["t"] for p in f.get("params", []))


def where(f, l=None):
    return "%s:%s %s" % (f["file"], l or f["l"], f["qn"])


def per_call(f, e):
    """the expression uses the object, an argument or a local variable that is not a constant itself"""
    if e is None:
        return False
    own, decl, static = set(), {}, set()
    for n in walk(e):
        if n["k"] == "lambda":
            own |= {p["n"] for p in n.get("params", [])}
        elif n["k"] == "decl":
            own |= {v["n"] for v in n["vars"]}
        elif n["k"] == "range":
            own.add((n.get("var") or {}).get("n"))
    for n in walk(f.get("body")):
        if n["k"] == "decl":
            for v in n["vars"]:
                decl[v["n"]] = v
                if v.get("static"):
                    static.add(v["n"])
    params = {p["n"] for p in f["params"]}

    def varies(e, seen):
        for n in walk(e):
            if n["k"] == "this":
                return True
            if n["k"] != "ref" or n["n"] in own or n["n"] in static or n["n"] in seen:
                continue
            if n["n"] in decl:
                v = decl[n["n"]]
                if not is_const(v.get("t", "")) or varies(v.get("init"), seen | {n["n"]}):
                    return True
            elif n["n"] in params and n.get("dk") not in ("s", "g", "f", "e"):
                return True
        return False
    return varies(e, frozenset())


def run(ctx):
    F = ctx.F
    ix = callers_index(F)
    by_qn = {}
    for f in F.functions.values():
        by_qn.setdefault(f["qn"], []).append(f)
    ctx.require(any(q.startswith(RANDOM + "::") for q in by_qn), "the random generator class is gone")

    def only_for_meant(usr, seen=None):
        """the function is used by nothing but the two places that are meant to differ between runs"""
        seen = seen or set()
        if usr in seen:
            return True
        seen.add(usr)
        f = F.functions.get(usr)
        if f is None:
            return False
        if f["qn"] in MEANT:
            return True
        cs = ix.get(usr, set()) - {usr}
        return bool(cs) and all(only_for_meant(c, seen) for c in cs)

    # 1. no function asks the machine for something that differs between runs
    for f in F.functions.values():
        if not in_lib(f):
            continue
        ctx.count("functions")
        bad = None
        for n in list(walk(f.get("body"))) + [x for i in f.get("inits", []) for x in walk(i.get("e"))]:
            k = n["k"]
            q = n.get("qn") or ""
            name = n.get("fn") or ""
            if k == "call" and (name in SOURCES and (q in (name, "std::" + name) or q.startswith("std::")) or q.startswith(SOURCE_QN)):
                bad = (n, "calls %s" % (q or name))
            elif k in ("ctor", "new") and any(e in (n.get("cls") or n.get("of") or n.get("t") or "") for e in ENGINES) and not (f.get("cls") or "").startswith(RANDOM):
                bad = (n, "makes its own random engine")
            elif k in ("ctor", "new") and (n.get("cls") or n.get("of") or "").replace("const ", "") == RANDOM and not (f.get("cls") or "") == RANDOM:
                bad = (n, "makes its own random generator (a copy repeats the same numbers)")
            elif k == "call" and name in ("make_shared", "make_unique", "allocate_shared") and "SIREN_random" in (n.get("t") or ""):
                bad = (n, "makes its own random generator")
            elif k == "decl":
                for v in n["vars"]:
                    t = v.get("t", "")
                    if any(e in t for e in ENGINES) and not t.endswith("&") and (f.get("cls") or "") != RANDOM:
                        bad = (n, "holds its own random engine")
                    if v.get("static") and "override_unused" not in t and not is_const(t):
                        bad = (n, "keeps state between calls in the static variable %s" % v["n"])
                    elif v.get("static") and "override_unused" not in t and per_call(f, v.get("init")):
                        bad = (n, "fixes the static variable %s at its first call from values that differ from call to call" % v["n"])
            if bad:
                if bad[1].startswith("calls") and only_for_meant(f["usr"]):
                    bad = None
                    continue
                ctx.violate("%s %s" % (f["qn"], bad[1]), where(f, bad[0].get("l")), "%s: the result no longer depends only on the arguments and the supplied generator" % bad[1])
                bad = None
        ctx.ok("%s asks nothing of its surroundings" % f["qn"])

    # 2. no class but the injector keeps a generator
    for c in F.classes.values():
        for fl in c.get("fields", []):
            if "/pybindings/" in c.get("file", ""):
                continue
            if "SIREN_random" in fl["t"] or any(e in fl["t"] for e in ENGINES):
                ctx.count("generator_members")
                if c["qn"] == RANDOM or (c["qn"].startswith("siren::injection::") and fl["t"].count("shared_ptr")):
                    ctx.ok("%s::%s" % (c["qn"], fl["n"]))
                else:
                    ctx.violate("%s keeps generator %s" % (c["qn"], fl["n"]), "%s:%s %s" % (c.get("file"), fl.get("l"), c["qn"]), "a generator of its own: what is sampled no longer depends on the supplied generator")

    # 3. no process-wide state that changes
    for v in F.vars:
        q = v.get("qn", "")
        if "siren_sa_marks" in q or "pybind11" in q or "/pybindings/" in v.get("file", "") or is_const(v.get("t", "")) or v.get("const"):
            continue
        ctx.count("globals")
        if q.split("::")[-1] in GLOBALS:
            ctx.ok("global %s (%s)" % (q, GLOBALS[q.split("::")[-1]]))
        else:
            ctx.violate("global %s" % q, "%s:%s" % (v.get("file"), v.get("l")), "%s can change while the program runs, so results depend on what happened before" % q)
    for c in F.classes.values():
        for fl in c.get("fields", []):
            if fl.get("static") and not is_const(fl["t"]) and not fl.get("const") and "/pybindings/" not in c.get("file", ""):
                ctx.violate("static member %s::%s" % (c["qn"], fl["n"]), "%s:%s" % (c.get("file"), fl.get("l")), "class-wide state that can change")

    # 4. the engine's state follows from the seed alone
    seedrule(ctx, F)

    # 5. members that const functions may change
    eff = Effects(F)
    for c in F.classes.values():
        if "/pybindings/" in c.get("file", ""):
            continue
        muts = {fl["n"]: fl for fl in c.get("fields", []) if fl.get("mut")}
        if not muts:
            continue
        kind = MUTABLE.get(c["qn"])
        for m, fl in muts.items():
            ctx.count("mutable_members")
            if m == "self" and "pybind11" in fl["t"] or kind == "lazy" or "mutex" in fl["t"]:
                ctx.ok("%s::%s" % (c["qn"], m))
                continue
            if kind == "cache":
                if m in KNOWN_CACHES.get(c["qn"], ()) or renamed_cache(c, muts):
                    ctx.ok("%s::%s is a cache (its freshness is decided by C11)" % (c["qn"], m))
                    continue
            bad = False
            for f in F.functions.values():
                if f.get("cls") != c["qn"] or not f.get("const"):
                    continue
                w = eff.of(f).get(("this", m))
                if w is None:
                    continue
                if c["qn"] in CHAIN and (takes_generator(f) or all_sampling(F, ix, f)):
                    continue
                bad = True
                ctx.violate("%s changes %s" % (f["qn"], m), where(w[0], w[1]), "a query (const, no generator) changes the member %s: asking twice can give different answers" % m)
            if not bad:
                ctx.ok("%s::%s only changes while sampling" % (c["qn"], m))

    # 5b. const functions do not reach through pointers to change what the object refers to
    for f in F.functions.values():
        if not (f.get("const") and f.get("cls")) or takes_generator(f) or not in_lib(f):
            continue
        muts = {fl["n"] for fl in F.fields(f["cls"], True) if fl.get("mut")}
        al = aliases(f)
        ctx.count("const_functions")
        for n in walk(f.get("body")):
            r = None
            if n["k"] in ("bin",) and n["op"] in ASSIGN:
                r = root_of(n["lhs"], al)
            elif n["k"] == "un" and n["op"] in ("++", "--"):
                r = root_of(n["e"], al)
            elif n["k"] == "opcall" and n["op"] in ASSIGN and n.get("a"):
                r = root_of(n["a"][0], al)
            elif n["k"] == "mcall" and not n.get("cm") and n.get("obj") is not None:
                g = F.functions.get(n.get("usr"))
                if g is not None and not g.get("const") and any(root == "this" for (root, _), w in eff.of(g).items()) and direct_writer(g):
                    r = root_of(n["obj"], al)
            if r is not None and r[0] == "this" and r[1] not in muts and r[1] != "*":
                # an iterator or pointer local that is itself moved is not a write to the object
                if n["k"] in ("un", "bin", "opcall") and is_local_ref(n):
                    continue
                ctx.violate("%s changes what %s refers to" % (f["qn"], r[1]), where(f, n.get("l")), "a query (const, no generator) changes the object behind the member %s" % r[1])
        ctx.ok("%s leaves what it refers to alone" % f["qn"])

    # 6. const is not cast away
    for f in F.functions.values():
        if not in_lib(f):
            continue
        for n in walk(f.get("body")):
            if n["k"] == "cast" and n.get("ck") == "const" and not (f.get("n") == "operator[]"):
                ctx.violate("%s const_cast" % f["qn"], where(f, n.get("l")), "casts const away: a query may change the object")

    # 7. Python side
    python_rule(ctx)


ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "|=", "&=", "^="}


def is_local_ref(n):
    e = n.get("lhs") or n.get("e") or (n.get("a") or [None])[0]
    return e is not None and e.get("k") == "ref"


def direct_writer(g):
    al = aliases(g)
    for n in walk(g.get("body")):
        if n["k"] == "bin" and n["op"] in ASSIGN or n["k"] == "opcall" and n["op"] in ASSIGN:
            r = root_of(n.get("lhs") or n["a"][0], al)
            if r is not None and r[0] == "this":
                return True
        if n["k"] == "mcall" and n.get("fn") in ("push_back", "insert", "clear", "resize", "erase", "emplace_back", "emplace", "pop_back", "assign"):
            r = root_of(n.get("obj"), al)
            if r is not None and r[0] == "this":
                return True
    return False


KNOWN_CACHES = {
    "siren::detector::DetectorModel": {"bvh_dirty_", "bvh_infinite_sectors_", "bvh_invalid_aabb_sectors_", "bvh_mutex_", "bvh_nodes_"},
    "siren::geometry::Geometry": {"cached_world_aabb_", "world_aabb_cached_"},
    "siren::interactions::CharmMesonDecay": {"norm_cache"},
    "siren::interactions::CharmMesonDecay3Body": {"norm_cache"},
}


def renamed_cache(c, muts):
    """same number of mutable members as before: they were renamed, not added"""
    known = KNOWN_CACHES.get(c["qn"], ())
    return len(muts) <= len(known)


def all_sampling(F, ix, f, seen=None):
    seen = seen or set()
    if f["usr"] in seen:
        return True
    seen.add(f["usr"])
    cs = ix.get(f["usr"], set()) - {f["usr"]}
    if not cs or f.get("acc") == "public":
        return False
    return all(takes_generator(F.functions[c]) or all_sampling(F, ix, F.functions[c], seen) for c in cs if c in F.functions)


def is_const(t):
    t = t.strip()
    return t.startswith("const ") and not t.endswith("*") or t.endswith("*const") or t.endswith("* const") or "const char" in t and "[" in t or t.endswith(" const")


def python_rule(ctx):
    repo = ctx.repo
    files = sorted(glob.glob(os.path.join(repo, "python", "**", "*.py"), recursive=True) + glob.glob(os.path.join(repo, "resources", "**", "*.py"), recursive=True))
    for p in files:
        rel = os.path.relpath(p, repo)
        if "visualization" in rel:
            continue
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            continue
        ctx.count("python_files")
        for n in ast.walk(tree):
            bad = None
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in ("random", "secrets", "numpy.random"):
                        bad = "imports %s" % a.name
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                if n.module in ("random", "secrets", "numpy.random") or (n.module in ("numpy", "os", "uuid") and any(a.name in ("random", "urandom", "uuid4", "uuid1") for a in n.names)):
                    bad = "imports from %s" % n.module
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                if (n.value.id, n.attr) in {("np", "random"), ("numpy", "random"), ("os", "urandom"), ("uuid", "uuid4"), ("uuid", "uuid1")}:
                    bad = "uses %s.%s" % (n.value.id, n.attr)
            if bad:
                ctx.violate("%s %s" % (rel, bad), "%s:%s" % (rel, n.lineno), "%s instead of the supplied generator" % bad)
        ctx.ok("%s draws from no generator of its own" % rel)


def seedrule(ctx, F):
    from ..interp import Interp, V, Thrown
    fns = [f for f in F.functions.values() if f.get("cls") == RANDOM]
    engine = [fl["n"] for fl in F.fields(RANDOM, False) if any(e in fl["t"] for e in ENGINES)]
    ctx.require(len(engine) == 1, "the generator's engine member was not recognised")
    eng = engine[0]
    todo = [f for f in fns if (f["n"] == "set_seed") or (f.get("ctor") and len(f["params"]) == 1 and f["params"][0]["t"].startswith("unsigned"))]
    ctx.require(len(todo) >= 2, "seeding functions were not found")
    for f in todo:
        def go(it):
            try:
                it.call_function(f, V(("this",), cls=RANDOM), [V(("p0",))])
            except Thrown:
                return None
            return it
        class Seeding(Interp):
            def h_call(self, n, qn, obj, args):
                if (n.get("fn") or (n.get("f") or {}).get("n")) == "seed" and obj is not None and obj.path == ("this", eng):
                    self.write_to(obj, (), V(None, deps=set().union(*[a.deps for a in args]) if args else set()), n)
                return None
        for it in Interp.explore(lambda: Seeding(F, dyn_class=RANDOM), go):
            if it is None:
                continue
            for m in (eng, "seed"):
                v = it.st.store.get(("this", m))
                ctx.count("seeded_members")
                if v is None or not v.deps or any(d[0] != "p0" for d in v.deps):
                    ctx.violate("%s leaves %s" % (f["qn"], m), where(f), "after seeding, %s is not determined by the given seed alone" % m)
                else:
                    ctx.ok("%s sets %s from the seed" % (f["qn"], m))
