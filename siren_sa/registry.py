"""The claimed properties: statement, anchors, and the rule that decides each."""
RULES = {}


def rule(pid, **kw):
    RULES[pid] = kw


rule(
    "C01", run="serial:run_c01",
    title="Archived objects read back with the state they were written with",
    statement="For every class that can be archived, the reader consumes exactly the entries the writer produced: same names, same order, same types, and each entry goes back into the member it came from. "
              "Every member that carries state, including the base part, is either stored or recomputed while reading, and nothing is recomputed before the members it depends on have been read.",
    over=["inputs", "histories"], quant="every archivable class, every supported archive version, every control path of its reader and writer",
    why="tests round-trip a few objects, mostly default-like ones, through one archive kind; a dropped, swapped or stale member only shows for the values that were not tried",
    files=["projects/*/public/SIREN/**/*.h"],
    mech=[("save/load/serialize/load_and_construct of every class", "projects/{dataclasses,detector,distributions,geometry,injection,interactions,math,utilities}/public"),
          ("rebuild steps run by readers", "e.g. TabulatedFluxDistribution::ComputeCDF, DISFromSpline::InitializeSignatures, Polyhedra::precompute_trig")],
    technique="abstract interpretation of archive functions over access paths (clang AST facts), save/load sequence and data-flow comparison, may-write summaries",
    explanation="Each archive function is evaluated abstractly on every control path; the sequence of entries (name, order, type, member) of writer and reader is compared, the value of every entry is followed into the members it ends up in, members neither stored nor written while reading are reported, and rebuild steps must follow the reads they use.",
    floors={"classes": 100, "members_round_tripped": 250, "fields": 200, "obligations": 500},
    assumptions=["cereal transfers an entry to the lvalue it is given", "members listed in NOT_STATE (serial.py) carry no state, each with a reason"],
)

rule(
    "C02", run="serial:run_c02",
    title="Unsupported archive versions are rejected before anything is read",
    statement="Every reader and writer accepts the version its class declares, and readers accept all older versions. "
              "A version newer than the declared one is rejected with an exception before a single entry is transferred.",
    over=["inputs", "configurations"], quant="every version number, for every versioned archive function",
    why="tests only ever see the current version; the failing inputs are archives written by other releases",
    files=["projects/*/public/SIREN/**/*.h"],
    mech=[("version dispatch in save/load/serialize/load_and_construct", "all archivable classes"), ("class version declarations", "CEREAL_CLASS_VERSION markers")],
    technique="abstract interpretation of archive functions with the version number as the only concrete input; declared versions read from the registration facts",
    explanation="Each versioned archive function is evaluated abstractly for the declared version, every older one, the next two and the largest; outcomes (returns/throws) and the number of transferred entries are checked.",
    floors={"functions": 180, "old_versions": 5, "obligations": 400},
    assumptions=["the archive library calls the function with the version stored in the archive"],
)

rule(
    "C03", run="serial:run_c03",
    title="Every archivable subclass can be archived through its base classes",
    statement="Every concrete class that can be archived and derives from a polymorphic base used in archives is registered as an archive type, and registered relations lead from it to each such base. "
              "No registered relation contradicts the class hierarchy.",
    over=["programs", "configurations"], quant="every concrete archivable class and each of its archivable bases",
    why="a missing registration only fails at run time for the one class that lacks it, when an archive holding it through a base pointer is written or read",
    files=["projects/*/public/SIREN/**/*.h"],
    mech=[("type and relation registrations", "CEREAL_REGISTER_TYPE / CEREAL_REGISTER_POLYMORPHIC_RELATION at the end of the class headers")],
    technique="query over class hierarchy facts and registration markers",
    explanation="All registration markers of the type-checked program are collected and compared with the class hierarchy: reachability from each archivable class to each archivable base.",
    floors={"classes": 80, "relations": 150, "registered_relations": 90},
    assumptions=["the stand-in registration macros used for analysis expand at the same places as cereal's"],
)

rule(
    "C04", run="compare:run_eq",
    title="Equality looks at all state, is symmetric and by value",
    statement="Two objects that agree in every member compare equal, two that differ in any member that is part of their identity compare unequal, and swapping the operands never changes the answer. "
              "No comparison mixes different members, compares a member with itself, or compares addresses where contents are meant.",
    over=["inputs"], quant="every pair of objects of every class with an equality operation, every null/non-null combination of its pointer members",
    why="tests compare a handful of objects; a member left out or mixed up matters only for pairs that differ in exactly that member",
    files=["projects/*/public/SIREN/**/*.h", "projects/*/private/**/*.cxx"],
    mech=[("operator== / equal of every value class", "projects/*/private"), ("type-dispatching operators of the roots", "Distributions.cxx, Geometry.cxx, CrossSection.cxx, Decay.cxx")],
    technique="abstract interpretation of comparison functions over per-member relations (<,=,>), all control paths, both operand orders",
    explanation="Each equality is evaluated abstractly in the world where all members agree and in every world where one compared member differs, in both operand orders; members never looked at, crossed members, self-comparisons and address comparisons are reported.",
    floors={"classes": 100, "members": 330, "worlds": 600},
    assumptions=["members listed in EXEMPT/EXEMPT_ANY (compare.py) are not part of an object's identity, each with a reason",
                 "tolerance comparisons treat 'equal' as within and 'different' as outside the tolerance"],
)

rule(
    "C05", run="compare:run_lt",
    title="Ordering is strict, antisymmetric and separates unequal objects",
    statement="No object is ordered before an equal one, of two objects at most one is ordered before the other, and exactly one is when the two differ in a member equality looks at. "
              "This keeps ordered containers of records, signatures, distributions, tables and geometries from losing or duplicating entries.",
    over=["inputs"], quant="every pair of objects of every class with an ordering, differing in any one or two members, every null/non-null combination",
    why="broken orderings only show as lost map entries for particular pairs of keys",
    files=["projects/*/public/SIREN/**/*.h", "projects/*/private/**/*.cxx"],
    mech=[("operator< / less of every ordered class", "projects/*/private")],
    technique="abstract interpretation of ordering functions over per-member relations (<,=,>), one- and two-member differences, both operand orders",
    explanation="Each ordering is evaluated abstractly when all members agree, when one member differs and when two differ (same and opposite direction), in both operand orders; only strict, antisymmetric outcomes that separate what equality separates are accepted.",
    floors={"classes": 60, "worlds": 1500},
    assumptions=["orderings of member types are themselves strict (checked for the classes of this repository)"],
)

rule(
    "C06", run="copying:run",
    title="Copies, assignments, swaps and clones carry over every member",
    statement="After a copy or move construction or an assignment, every member of the target, the base part included, holds what the source's same member held or is rebuilt from such members. "
              "Swap exchanges every member both ways, and clone/create return a copy of the object's own class, never of a base.",
    over=["inputs", "histories"], quant="every class with its own copy/move constructor, assignment, swap, clone or create; every control path of them",
    why="tests copy a few objects and compare the members they happen to look at; a forgotten member or base part shows only when its value differs from the default",
    files=["projects/*/public/SIREN/**/*.h", "projects/*/private/**/*.cxx"],
    mech=[("copy/move constructors and assignments", "math, geometry, detector, injection/Process, distributions"), ("swap", "SIREN_GEOMETRY_SWAP, math, Placement"), ("clone/create", "distributions, geometry, detector")],
    technique="abstract interpretation of copying functions over access paths, per-member provenance of the final state on every control path",
    explanation="Each copying function is evaluated abstractly with two objects; at the end every member's value is traced to the member it came from and compared with the expected one; clone/create must copy *this as its own class, and each concrete class of a cloneable hierarchy must override them.",
    floors={"copy_functions": 75, "swaps": 20, "clones": 50, "members": 500},
    assumptions=["steps of a class that recompute members from the object's own members (e.g. bounding boxes) do so correctly", "mutable members are caches"],
)

rule(
    "C07", run="records:run_typestate",
    title="Record quantities are only used when given or derivable",
    statement="Whenever a particle record is asked for a quantity it returns the value that was given, unchanged, or one derived exclusively from quantities that were given; if neither is possible it throws. "
              "It never returns or uses a value nobody provided, never replaces a given value by a derived one, and every setter marks exactly what it stores.",
    over=["inputs", "histories"], quant="every subset and order of quantities given to a record, every public member function",
    why="14 independent quantities make thousands of combinations; a test tries a few, and reading an unset member often yields a plausible number",
    files=["projects/dataclasses/private/InteractionRecord.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h", "projects/distributions/private/Distributions.cxx"],
    mech=[("value/flag pairs of the records", "PrimaryDistributionRecord, SecondaryParticleRecord, SecondaryDistributionRecord, PhysicallyNormalizedDistribution"), ("derivation rules", "Update*/Get* functions")],
    technique="typestate analysis: path-wise abstract interpretation with the q_set flags as typestate, definite-assignment of every quantity read",
    explanation="Every public member function is evaluated on each combination of flag outcomes; a read of a quantity on a path where its flag is not established and no value was derived, a write on a path where its flag may be set, and setters that store without marking (or mark without storing) are reported.",
    floors={"classes": 4, "quantities": 20, "functions": 80, "paths": 1000},
    assumptions=["helicity, initial_time and normalization have documented default values (HAS_DEFAULT)"],
)

rule(
    "C08", run="records:run_handover",
    title="Particle data pass between records without being mixed up",
    statement="Finalizing a record writes each given quantity into the matching field of the interaction record, at its own secondary index, and leaves the fields of other particles alone. "
              "A daughter record starts from exactly the parent's corresponding secondary: id, type, mass, momentum, helicity, time, and the parent's vertex as position; views expose the record's own fields. "
              "Whoever samples into a distribution record of its own finalizes it before returning, into the record it was made from.",
    over=["inputs", "histories"], quant="every record, every number of secondaries and secondary index, every field",
    why="tests finalize few records, often with equal or zero values in the fields that could be confused",
    files=["projects/dataclasses/private/InteractionRecord.cxx"],
    mech=[("Finalize/FinalizeAvailable", "InteractionRecord.cxx"), ("record constructors, CreateSecondaryRecord, SetParticle/GetParticle", "InteractionRecord.cxx")],
    technique="abstract interpretation over access paths: field-by-field provenance compared with a field table",
    explanation="Each hand-over function is evaluated abstractly with all quantities given; the provenance (member path and index) of each field of the resulting record is compared with the table in records.py, and fields that must stay untouched are checked for writes.",
    floors={"functions": 14, "fields": 150},
    assumptions=["ids are valid (the fresh-id fallback is not followed)"],
)

rule(
    "C09", run="accessors:run",
    title="Getters return what setters and constructors were given",
    statement="After a setter accepted a value, the matching getter returns that value (or one computed from it alone), whatever the object's previous state. "
              "A constructor argument that has a getter of the same name reaches that getter, unmixed with other arguments, and an argument named like a member is not ignored.",
    over=["inputs", "histories"], quant="every Set/Get pair and every named constructor argument of every class, every control path",
    why="a value stored in the wrong member or lost on one branch only shows for the combination of values that was not tested",
    files=["projects/*/public/SIREN/**/*.h", "projects/*/private/**/*.cxx"],
    mech=[("Set*/Get* pairs", "math, geometry, dataclasses, detector, distributions, injection, interactions"), ("constructors", "geometry, detector, distributions")],
    technique="abstract interpretation of setter (or constructor) followed by getter over access paths, provenance of the result",
    explanation="For each pair the setter and then the getter are evaluated abstractly on one object; on every path the result must come from the setter's argument alone. For constructors, on at least one path (arguments may be normalised or defaulted on others).",
    floors={"pairs": 75, "constructor_pairs": 300},
    assumptions=["pairs are matched by name: SetX/GetX, constructor parameter x/GetX"],
)

rule(
    "C10", run="purity:run",
    title="Results depend only on arguments, object and the supplied generator",
    statement="Everything random comes from the generator object handed in: no function consults the clock, the process, the environment's entropy, a private engine or hidden static state, and seeding a generator fixes its whole state from the seed alone. "
              "Queries declared const leave the object's state and the objects it points to unchanged (caches of pure results aside), so equal seeds and inputs give equal events and weights.",
    over=["inputs", "histories", "configurations"], quant="every function of the library and the Python layer",
    why="irreproducibility appears only across runs, call orders or threads; a test in one process with one order cannot see it",
    files=["projects/*/public/SIREN/**/*.h", "projects/*/private/**/*.cxx", "python/*.py", "resources/**/*.py"],
    mech=[("the generator", "projects/utilities/private/Random.cxx"), ("sampling functions", "projects/distributions, projects/interactions, projects/injection"), ("mutable members and globals", "all projects")],
    technique="effect analysis over the type-checked program: banned sources by call graph, inventory of mutable globals/statics/members, may-write summaries of const functions, data flow of seeds; ast scan of the Python files",
    explanation="Every function is searched for nondeterministic sources, private engines, copies of the generator and hidden statics; each mutable global and mutable member must be a listed cache or id source; seeding functions are followed from the argument to the engine and the remembered seed.",
    floors={"functions": 2000, "const_functions": 900, "generator_members": 1, "python_files": 30},
    assumptions=["listed caches (purity.py) hold values computed from the object alone", "particle ids and the automatic seed are the only intended non-reproducible quantities"],
)

rule(
    "C11", run="stale:run",
    title="Derived members follow the members they are computed from",
    statement="Whenever a member that others are computed from changes (table, range, placement, model, components, distribution list), the derived values, indexes and validity flags are recomputed or invalidated before the call returns, on every path and in every constructor. "
              "Remembered results are looked up by everything they depend on.",
    over=["histories", "inputs"], quant="every public function and constructor that writes a source member, every control path; every store into a memo",
    why="stale values need the sequence compute, change, use again; tests build an object once and use it",
    files=["projects/distributions/private/**/*.cxx", "projects/detector/private/*.cxx", "projects/geometry/private/*.cxx", "projects/interactions/**", "projects/utilities/public/SIREN/utilities/Interpolator.h"],
    mech=[("integral/CDF of tabulated fluxes", "TabulatedFluxDistribution, Tabulated2DFluxDistribution"), ("index tables", "InteractionCollection, MaterialModel, Indexer1D, Interpolator1D/2D"), ("validity flags", "Path, DetectorModel (BVH), Geometry (AABB), Placement"), ("memo", "DMesonELoss-like sampled normalizations")],
    technique="path-wise order analysis of member writes (abstract interpretation) against a table of derived-from relations; dependency analysis of memo keys",
    explanation="For each relation (class, derived, sources) every public mutator and constructor is evaluated on all paths; after the last write of a source the derived member or its validity flag must be written. For each map used as a memo, the inputs the stored value depends on must be contained in those the key depends on.",
    floors={"relations": 20, "paths": 500, "obligations": 100},
    assumptions=["the relations are those of the table in stale.py", "recomputation steps compute the right value (not decided here)"],
)

rule(
    "C12", run="tree:run_tree",
    title="Interaction trees stay structurally valid",
    statement="Every node of a tree knows its own position, its parent and its daughters consistently: a node added with a parent gets its position as id, the parent's id as parent, no daughters of its own, and appears exactly once in the parent's daughter list; one added without a parent is a root. "
              "A tree read from an archive with a missing node, a wrong position or an out-of-range link is rejected, legacy archives included, depth counts the ancestors and ends even on cyclic links, and nothing outside the tree changes its links.",
    over=["inputs", "histories"], quant="every sequence of insertions through any overload, every archive content and version, every chain length",
    why="tests build a few small trees in one order; wrong links show only for other shapes, re-added nodes or damaged archives",
    files=["projects/dataclasses/private/InteractionTree.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h"],
    mech=[("add_entry overloads", "InteractionTree.cxx"), ("validate_indices, rebuild_indices_from_legacy, load", "InteractionTree"), ("depth", "InteractionTreeDatum")],
    technique="abstract interpretation of insertion, validation, reading and depth over symbolic positions and link relations; whole-program scan for writers of the links",
    explanation="Insertion is evaluated with the tree's size as a symbol; validation in each world with one broken link relation (must throw on all paths) and in the valid world (must return); readers must validate after the last read on every accepted version; depth is evaluated for 0-5 ancestors and over-long chains; all other functions are searched for writes to the links.",
    floors={"functions": 3, "paths": 4, "readers": 3, "functions_scanned": 1000},
    assumptions=["a parent passed to add_entry belongs to the same tree", "one generic node stands for all nodes of a loop"],
)

rule(
    "C13", run="ids:run",
    title="Generated particle ids are unique under every interleaving",
    statement="No two ids generated by a process coincide, whichever way threads interleave: the counter is advanced and read in one atomic step, shared id state changes only under the lock after looking again, and an id is never built from a major id read before initialisation. "
              "After a fork the child drops its parent's ids before it publishes its own process, and the major id depends on host, process and time.",
    over=["schedules", "histories"], quant="every interleaving of threads calling GenerateID, every fork point, every control path",
    why="duplicate ids need a particular interleaving or a fork between two calls; tests generate ids in one thread",
    files=["projects/dataclasses/private/ParticleID.cxx"],
    mech=[("GenerateID and its shared atomics", "ParticleID.cxx"), ("SetID, constructors", "ParticleID.cxx")],
    technique="lock and atomicity analysis: event traces (loads, stores, read-modify-writes, locks, comparisons) of all control paths, checked against publication and recheck rules",
    explanation="Every control path of GenerateID is turned into a trace of accesses to shared atomics with the lock state; stores need the lock and a recheck after it, the minor id one read-modify-write, the major id a load after the last store, the process id must be stored last; the stored major id is sliced back to its sources.",
    floors={"shared_atomics": 2, "paths": 4, "major_stores": 1},
    assumptions=["std::atomic and std::mutex behave as specified", "hash collisions of major ids are ignored"],
)

rule(
    "C14", run="bindings:run_trampolines",
    title="Overrides written in Python are what C++ callers reach",
    statement="Every virtual function of a class that can be extended in Python is forwarded to an override of the same name: it gets all arguments in order, objects it may modify are handed over themselves rather than as copies, its result is what the C++ caller receives, and it runs with the interpreter lock held. "
              "Without an override the nearest C++ implementation runs with the same arguments, or the call fails if there is none.",
    over=["inputs", "configurations"], quant="every virtual function of every extensible class, whichever subset of them a Python subclass overrides",
    why="tests define one Python subclass per base and override a few functions; a function forwarded under a wrong name or with a copied record fails only when exactly it is overridden",
    files=["projects/*/private/py*.cxx", "projects/*/public/SIREN/**/py*.h", "projects/*/private/pybindings/*.h", "projects/utilities/public/SIREN/utilities/Pybind11Trampoline.h"],
    mech=[("SELF_OVERRIDE macros", "projects/utilities/public/SIREN/utilities/Pybind11Trampoline.h"), ("forwarding classes", "py*.cxx of interactions and distributions, pybindings of detector"), ("alias registration", "pybindings")],
    technique="exhaustiveness check of virtual functions per forwarding class over the type-checked program, with a structural check of each expanded forwarder (name, argument list, reference passing, lock, result, fallback)",
    explanation="For each class registered with pybind11 as the alias of its base: every virtual of all bases must be overridden there; each forwarder's expanded body is checked for the looked-up name, the arguments of the call, references for modifiable parameters, the lock held at the lookup, the returned value and the fallback call.",
    floors={"trampolines": 10, "virtuals": 120, "forwarders": 120},
    assumptions=["pybind11 finds the override under the looked-up name", "a function that only hands over to a forwarded overload of the same name needs no forwarder of its own"],
)

rule(
    "C15", run="bindings:run_names",
    title="Python names reach the C++ members of those names",
    statement="A Python method, property, enumerator or keyword argument stands for the C++ member, enumerator or parameter of the same name: no name is bound to a different member while the class has one of that name, a property reads and writes the same member, "
              "and arguments given by keyword land in the parameter of that name.",
    over=["inputs", "configurations"], quant="every definition in every binding file, every keyword argument list",
    why="tests touch a small part of the bound interface and mostly pass arguments by position",
    files=["projects/*/private/pybindings/*"],
    mech=[("class, function and enumeration bindings", "projects/*/private/pybindings")],
    technique="name resolution of every pybind11 definition in the type-checked binding sources, compared with the members and parameters it resolves to",
    explanation="Each definition is resolved to the C++ function, member, constructor or enumerator it names; a contradiction between the Python name and the resolved one (the class has a member of the Python name, the parameter list has the keyword elsewhere) is reported.",
    floors={"definitions": 800, "constructors": 200, "enumerators": 150, "argument_lists": 30},
    assumptions=["names are compared without case, underscores and get/set prefixes", "a Python name without a C++ counterpart of that name is free"],
)

rule(
    "C16", run="density:run",
    title="Densities speak about what is sampled and vanish outside the configured range",
    statement="The density of an injection distribution depends only on the quantities its sampler sets (and the particle type), and every parameter that shapes the sampled values also enters the density. "
              "It is zero for events outside the distribution's configured energy range, angle or fixed value; a distribution of positions has a density only for positions it has tested. "
              "A constructor that normalises an argument works with the normalised value throughout.",
    over=["inputs"], quant="every event record, every parameter choice, every control path of each distribution's sampler and density",
    why="tests compare densities with histograms of sampled events, so events the sampler never produces are not tried; weights of events from another generator are",
    files=["projects/distributions/private/**/*.cxx"],
    mech=[("Sample and GenerationProbability of every distribution", "projects/distributions/private/primary, secondary"), ("pdf helpers", "PowerLaw::pdf, TabulatedFluxDistribution::pdf, ...")],
    technique="dependence and path-condition analysis of sampler and density over access paths (abstract interpretation of the clang AST)",
    explanation="Sampler and density of each distribution are evaluated abstractly on every control path. Conditions without influence on the result are dropped; the event quantities and members the density depends on are compared with those of the sampler; each path with a non-zero result must carry the comparisons with the configured bounds, on the right side.",
    floors={"distributions": 15, "bounds": 15, "obligations": 45},
    assumptions=["bounds are the <name>Min/<name>Max members, fixed values, and the ones listed in BOUNDS (density.py)", "distributions listed in UNRESTRICTED have no bounded range, each with a reason", "numerical correctness of the density is not decided"],
)

rule(
    "C17", run="roles:run",
    title="Primary, target and secondary quantities are never mixed up",
    statement="Wherever a particle type, mass, energy or helicity of an interaction record is passed on as the primary's or the target's, it is that particle's own quantity, the two are never compared with each other, a decay reads no target quantity, and (primary, target) keys are always built in that order. "
              "A cross section or decay asked for the signatures of given parents offers one only after looking at each of the parents.",
    over=["inputs"], quant="every call, field write and key that carries a role, every control path of every signature query",
    why="tests use records where the masses or types coincide (massless primaries, one target), so a swapped role changes nothing they look at",
    files=["projects/interactions/**", "projects/injection/**", "projects/distributions/**", "projects/detector/**", "projects/dataclasses/**"],
    mech=[("record overloads of Total/DifferentialCrossSection", "projects/interactions/private/*.cxx"), ("GetPossibleSignaturesFromParent(s)", "all cross sections and decays"), ("signatures_by_parent_types_", "DIS cross sections")],
    technique="provenance (copy propagation) analysis from record fields to role-carrying parameters, fields and keys; path-condition analysis of signature queries",
    explanation="Copies of role-carrying record fields and parameters are followed through locals to call arguments, field assignments and pair keys; the role and kind at the source must match the one at the sink. Signature queries are evaluated on every control path: a path that returns signatures must have tested, or looked up by, each parent.",
    floors={"flows": 90, "keys": 3, "filters": 12},
    assumptions=["parameter and field names (primary_*, target_*, secondary_*) state the role", "computed values are not judged"],
)

rule(
    "C18", run="sums:run",
    title="Sums over channels count every channel once, each for itself",
    statement="Wherever cross sections or decay widths are summed over targets, models or final states, every element of the list contributes, none is lost when the models given are sorted into lists per target, no term replaces or resets the sum of the others, and each term is evaluated with a record about exactly that target and final state.",
    over=["inputs", "configurations"], quant="every sum over channels, for any number and order of targets, models and final states",
    why="tests use one target, one model and one final state, where a skipped, overwritten or misattributed channel cannot be seen",
    files=["projects/interactions/private/*.cxx", "projects/distributions/private/**/*.cxx", "projects/injection/**"],
    mech=[("TotalCrossSectionAllFinalStates, TotalDecayWidthAllFinalStates", "CrossSection.cxx, Decay.cxx and overrides"), ("InteractionCollection totals", "InteractionCollection.cxx"), ("interaction depths", "vertex distributions, Weighter.tcc, WeightingUtils.cxx, Injector.cxx")],
    technique="loop analysis of accumulations on the AST: term provenance, reset/overwrite/early-exit detection, and matching of the record's target and signature with the loop's element",
    explanation="A list of channels kept per key may only be started (inserted with an element, or assigned) where a must-analysis knows the key to be absent, and a constructor that sorts given channels into members keeps one on every path through its loop. Every total cross section, width or length evaluated inside a loop over channels is followed to the sum it is added to; the sum must accumulate, the loop must run to its end, and the record passed must have been given the target the cross sections were looked up for, or the signature the loop is at.",
    floors={"terms": 15, "sums": 15, "final_states": 4},
    assumptions=["a loop over signatures, models, targets is recognised by the type of what it iterates over"],
)

rule(
    "C19", run="components:run",
    title="Vector components keep their order and their owner",
    statement="Whenever a position, direction or four-momentum is assembled from components of one object or taken apart into an array, each component goes to its own place (E, px, py, pz; x, y, z), all components of a four-momentum come from one particle, "
              "and a four-momentum built from a record's momentum uses the mass of the same particle.",
    over=["inputs"], quant="every construction of a vector, array or four-momentum from components, in all C++ sources including the Python bindings",
    why="tests mostly use vectors along an axis and equal masses, for which exchanged components or owners give the same result",
    files=["projects/**"],
    mech=[("rk::P4(Vector3(p[1], p[2], p[3]), m)", "projects/interactions/private/*.cxx"), ("SetFourMomentum({E, px, py, pz})", "interactions, dataclasses"), ("Vector3D from arrays", "distributions, geometry, detector")],
    technique="provenance query over constructor arguments, initialiser lists, element stores and calls in the type-checked program",
    explanation="Each group of three or four expressions that forms a vector is resolved through single-definition locals to (owner, component) pairs; order and owner must agree with the convention of the source kind.",
    floors={"tuples": 80, "four_momenta": 25, "obligations": 130},
    assumptions=["arrays of four doubles are (E, px, py, pz)", "components that went through arithmetic are not judged"],
)

rule(
    "C20", run="finalstate:run",
    title="Final-state densities are the differential over the total of the same event",
    statement="The final-state probability of a cross section or decay is its differential divided by its total for the same record and the same final state, and never divides by a total of zero. "
              "Totals and thresholds do not depend on the sampled final-state momenta; differentials do, except where the model is flat by design.",
    over=["inputs"], quant="every record, every control path of FinalStateProbability, totals and differentials of each model",
    why="tests evaluate densities at a few kinematic points with non-zero totals and a single final state",
    files=["projects/interactions/private/*.cxx"],
    mech=[("FinalStateProbability", "all cross sections and decays"), ("TotalCrossSection, TotalDecayWidth, DifferentialCrossSection, DifferentialDecayWidth", "record overloads")],
    technique="abstract interpretation over access paths: structural form of the returned ratio, path conditions on its divisor, dependence sets of totals and differentials",
    explanation="FinalStateProbability is evaluated with differential and total as opaque values: every non-constant result must be one differential over the matching total of the same record, behind a test of the total. The record fields totals and differentials depend on are collected over all paths.",
    floors={"densities": 7, "totals": 14, "differentials": 3},
    assumptions=["classes with a density of their own (OWN_DENSITY) and flat differentials (FLAT) are listed with a reason", "TOTAL_NEVER_ZERO lists models whose total cannot vanish where the differential does not"],
)

rule(
    "C21", run="init:run",
    title="Constructors leave no member undefined",
    statement="An object constructed from arguments has a value in every number, flag, enumeration and pointer member on every path through its constructor, except members whose validity is recorded in a flag of their own.",
    over=["inputs"], quant="every constructor with parameters of every class, every control path through it and the member functions it calls",
    why="an undefined member often holds a plausible value in a test run; it changes with the build, the allocator and what ran before",
    files=["projects/**"],
    mech=[("constructors and their initialiser lists", "all classes"), ("helpers run by constructors", "LoadFluxTable, ComputeIntegral, SetUnits, ...")],
    technique="definite-assignment analysis: path enumeration of constructors with inlined member functions over access paths",
    explanation="For every scalar member without a default initialiser and every constructor with parameters, each control path through initialiser list, body and the member functions it calls must write the member.",
    floors={"constructors": 70, "members": 260},
    assumptions=["default constructors used by the archive library are followed by a read of all members (C01)", "a library call that receives a member by reference sets it"],
)

rule(
    "C22", run="found:run",
    title="Search results and casts are used only where they are known to have succeeded",
    statement="The result of a dynamic cast or of locking a weak pointer is dereferenced, and the iterator returned by a find is dereferenced, only on paths where it was tested to be valid; "
              "a key that was just found to be absent from a map is not then read from it. Comparing two objects of different classes through their common base is therefore always defined.",
    over=["inputs", "histories"], quant="every dereference of a cast or search result, on every control path of every function",
    why="tests compare objects of the same class and look up keys that exist; the failing case is a crash or a silent read past the end",
    files=["projects/**"],
    mech=[("equal, less of every polymorphic class", "distributions, interactions, geometry, detector"), ("find() results", "MaterialModel.cxx, InteractionCollection.cxx, InteractionTree, Process"), ("typeid dispatch", "operator< of Transform, Indexer1D, RangeFunction, DepthFunction")],
    technique="forward must-dataflow analysis (validity facts per value, joined over all paths, killed by writes) on the AST, with an interprocedural dispatch argument for overrides of less",
    explanation="Facts 'this result is valid' are generated by tests against nullptr, end(), 0 and count(), propagate through && || ! and early returns, are intersected where paths join and killed when the value or the container changes. "
                "An override of a comparison may cast without a test only if every call of the method in the program is dominated by equality of the dynamic types.",
    floors={"functions": 1500, "casts": 80, "searches": 2, "lookups": 4},
    assumptions=["a helper that is handed the value and returns bool tests it", "a cast of a member this function itself created as that class succeeds"],
)

rule(
    "C23", run="refusal:run",
    title="A call that is refused leaves the object as it was",
    statement="When a public non-const member function refuses a call with an exception of its own (setters, adders and queries of Process, the record classes, DetectorModel, Path, the flux tables and cross sections), no member of the object has changed: "
              "duplicates, wrong particles, bad bounds and unknown units are found before the first change. Reading in a file and filling in cached values are not covered.",
    over=["inputs", "histories"], quant="every throw statement reachable in a public non-const member function of every class, on every control path to it",
    why="tests check that the exception is thrown and stop there; the half-changed object does its damage in a caller that catches it (a Python session) and goes on",
    files=["projects/**"],
    mech=[("AddPhysicalDistribution, SetPrimaryInjectionDistributions, AddSecondaryInjectionDistribution, ...", "projects/injection/private/Process.cxx"), ("SetParticle", "projects/dataclasses/private/InteractionRecord.cxx"), ("SetSectors, AddSector", "projects/detector/private/DetectorModel.cxx"), ("SetPoints, Shrink*, Extend*", "projects/detector/private/Path.cxx"), ("SetUnits, AddTotalCrossSectionFile", "projects/interactions/private/*.cxx")],
    technique="path enumeration with inlined member functions; write effects on members collected before each reachable throw",
    explanation="Every path through the function that ends in a throw statement is followed with the member functions it calls; the members written on it (assignments, mutating calls, writes through references) must be none, or hold their original value again.",
    floors={"functions": 50, "refusals": 300, "obligations": 50},
    assumptions=["exceptions out of the standard library (out of memory, at()) are not refusals", "helpers named Update/Ensure/Compute/Initialize fill in values derived from the object's own state", "Injector::GenerateEvent counts attempts that fail"],
)

rule(
    "C24", run="channels:run",
    title="The final states a model offers are possible ones, offered once, and accepted by the model itself",
    statement="Every final state that a decay or cross section lists (GetPossibleSignatures, where the list is written out in the C++ source rather than handed in or read from a file) names its parent, has the decay marker as target if it is a decay, has every secondary set, and conserves electric charge, "
              "baryon number and the lepton family numbers (total lepton number where heavy or flavour-summed neutral leptons take part; states that lump hadrons together are not held to charge or baryon number). No final state is listed twice. What is listed for given parents (GetPossibleSignaturesFromParent(s)) "
              "is exactly what the whole list holds for them, and nothing for parents the model does not handle. The total width of a decay accepts each listed final state: it does not throw on it, is not zero whatever the masses, and computes from nothing that is left unset for it; a particle and its antiparticle handled by the same decay have charge-conjugate final states, of equal total width where the width is a constant.",
    over=["inputs"], quant="every listed final state of every concrete decay and cross section, for every parent type it handles",
    why="tests look at one or two channels; a wrong sign, a missing or a doubled channel shifts branching ratios and rates of the others without any failure",
    files=["projects/interactions/**"],
    mech=[("GetPossibleSignatures, GetPossibleSignaturesFromParent(s), InitializeSignatures", "projects/interactions/private/*.cxx"), ("TotalDecayWidth", "CharmMesonDecay.cxx, HNLDecay.cxx, ElectroweakDecay.cxx, ...")],
    technique="constant propagation over the AST (abstract values: enumerators, vectors, sets and maps of them, unknown; unknown conditions followed both ways), compared with particle-numbering tables",
    explanation="The listed final states are computed from the source by constant propagation with every runtime quantity unknown; each is compared with charge, baryon and lepton numbers derived from the Monte Carlo numbering scheme, with the list for its parents, and with the outcome of the total width (throw, zero, or a value) on all abstract paths.",
    floors={"models": 5, "channels": 80},
    assumptions=["cross sections that take their primaries and targets from the caller are looked at for the six neutrinos on protons and neutrons", "a final state of nothing but hadronic showers (interaction type 3) tags the lepton's energy as hadronic", "lists that depend on more than constants are noted and not decided"],
)

rule(
    "C25", run="frames:run",
    title="Coordinates change frame only through the conversion made for them",
    statement="Into the outer frame a placement rotates and then shifts a position by the placement's position, and only rotates a direction; the way back undoes exactly that, in reverse order, rotating by the conjugate. The detector's conversions between detector and geometry coordinates (ToGeo, ToDet) do the same with its origin and rotation. "
              "Elsewhere, coordinates of different frames (detector, geometry, a solid's own) are never combined, relabelled or handed on as those of another frame; positions and directions go through their own conversion, once, and are never exchanged; what distributions hand out as event positions is in detector coordinates. A query of DetectorModel offered in both coordinate systems does the same in both.",
    over=["inputs"], quant="every conversion, every construction of a labelled coordinate, every sum or product of vectors of known frame, every overload pair",
    why="tests use detectors at the origin without rotation, where all frames coincide and a missing or doubled conversion changes nothing",
    files=["projects/geometry/**", "projects/detector/**", "projects/distributions/**", "projects/injection/**"],
    mech=[("Placement::{LocalToGlobal,GlobalToLocal}{Position,Direction}", "Placement.cxx"), ("Geometry::Intersections, IsInside, ToLocal", "Geometry.cxx"), ("DetectorModel::ToGeo, ToDet and the overloads in detector coordinates", "DetectorModel.cxx"), ("Path", "Path.cxx"), ("vertex distributions", "projects/distributions/private/*/vertex/*.cxx")],
    technique="dataflow over the AST: conversions reduced to words over rotations and shifts and compared with the inverse word; frame and kind (position, direction, displacement) inferred for every vector expression; structural comparison of overload pairs",
    explanation="Every conversion function is reduced to the sequence of rotations and shifts it applies to its argument; every vector expression gets the frame and kind that follow from the labelled types, the record fields and the conversions; combining, relabelling or passing on values of another frame is reported.",
    floors={"conversions": 6, "labelled": 30, "overload_pairs": 10},
    assumptions=["event records are in detector coordinates", "vectors built from plain numbers have no frame", "the rotation formula itself is arithmetic and not decided (N07)"],
)
