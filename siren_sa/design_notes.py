"""Text of DESIGN.md that is not in the registry (tools_gen.py puts both together)."""

HEADER = """# SIREN static verification: design

Generated by `tools_gen.py` from `siren_sa/registry.py`, `siren_sa/not_applicable.py`, `siren_sa/design_notes.py`,
`known_findings.jsonl` and `seeded/*/meta.json`; edit those.

## What decides

Nothing of SIREN is ever run, neither concretely nor with a solver. Every check

1. runs `extractor/extract.cc` (a libTooling program, built by `setup_cmd`, rebuilt on demand) over all C++ sources of
   /repo's working tree. The sources are parsed and type-checked by clang 18 together with analysis-only declarations of
   the libraries that are not installed or too heavy (`stubs/`: cereal, photospline, delabella, NamedType, ...). The
   result is a file of facts: functions with their bodies as resolved expression trees, classes, members, overrides,
   archive registrations, pybind11 definitions. It is cached by content hash in `_work/` (about 15 s without a cache).
2. evaluates one rule module of `siren_sa/rules/` on those facts, which reports each violation as file, line,
   function and construct, and writes `evidence/<id>.json` with what was analysed.

Exit 0: held on everything analysed. Exit 1: a violation `known_findings.jsonl` does not list. Exit 2
(`ANALYSIS-BROKEN`): the sources do not parse or the anchors of a rule are gone (counts below the floors of the
registry), so that a check can never pass because it silently analyses nothing. Floors are set far below the present
counts so that refactorings do not trip them.

Shared engines:

* `siren_sa/interp.py`: path-wise abstract interpreter. A value is an access path (`this.energyMin`, `p0.target_mass`,
  `rec.secondary_momenta[i]`), a constant, or an unknown with the set of paths it depends on and a structural key.
  Branches on unknown conditions are explored both ways with a record of the decisions, equal conditions are decided
  equally, member functions and helpers are inlined up to a depth, loops run 0, 1 or 2 symbolic rounds. Library calls are
  modelled (containers, smart pointers, optionals, tuples, swap, algorithms with lambdas) or depend on all arguments.
* `siren_sa/flow.py`: provenance of expressions through single-definition locals.
* `siren_sa/effects.py`: may-write summaries of functions, transitive over the call graph.
* `siren_sa/loops.py`: classification of loops and accumulations.

The rules judge what a function does to access paths, not how it is written: helper functions, lambdas, reordered
statements, early returns, range-for versus index loops, `std::tie` versus chained comparisons give the same facts. The
corpus `devtests/mutants_*.json` holds both kinds of edits (breaking ones, and behaviour-keeping ones that must stay
quiet) and is replayed with `devtests/mutants.py` whenever an engine changes.

Cost: about 15 s for the extraction plus 0.1-25 s per rule; 8 cores are used for the extraction only. quick and thorough
commands are the same: the analyses are exhaustive over the source within their abstraction, there is no deeper setting.

Common limits: the abstraction forgets arithmetic (N01-N07 lists what this leaves undecided); aliasing between two
distinct parameters of the same class is assumed absent unless they are the same access path; templates are analysed in
their written form with the instantiations clang resolves; code under `vendor/` is trusted. Tests are not analysed.
Whether the stubs declare the same interface as the real libraries is the one thing that has to be believed; they are
used for parsing only, and the real build of the same sources (`/opt/vp/build.sh`) compiles against the real ones.

## Properties and how each is decided
"""

NOTES = {
    "C01": ["Members that carry no state are listed with a reason in `NOT_STATE`; everything else that is neither archived nor rebuilt is reported.",
            "Findings recorded, not repaired: Path (its archive stores only part of the state; a repair needs a new archive version), Intersection::matID, and the four DarkNewsCrossSection attributes (`h_ups` ...), whose addition would change the archive layout."],
    "C04": ["False alarms removed: comparing a pointer with nullptr is not an address comparison; floating-point tolerance comparisons are relations too."],
    "C06": ["Members that are themselves objects of the same hierarchy may be shared or cloned; both count as carried over."],
    "C09": ["Exempt: Path (two coordinate systems for one point), CharmMesonDecay(primary), whose argument narrows a fixed set by design."],
    "C10": ["Python files (`python/`, `resources/`) are scanned with `ast` for entropy and clock sources."],
    "C11": ["Relations are a table (class, derived member, sources); a new derived member needs a row. Rows exist for all cached values found in the present tree."],
    "C16": ["False alarms removed: a clamp in Cone keeps its argument in range and is not a bound; normalisation flags of helicity do not shape the sampled value; `a == b` of two booleans is not a range comparison.",
            "OrientedCylinderPositionDistribution is a stub in the tree (density 1) and is listed in UNRESTRICTED with that reason."],
    "C17": ["A quantity that went through arithmetic (e.g. an invariant mass) has no role any more and is not judged."],
    "C19": ["Not judged: bounding-box corners (each component is a min or max over several points) and linear maps (rotation matrices), which combine components by intent."],
    "C22": ["A dispatcher that compares `typeid` first establishes the cast in the override it calls; a factory that created the object as that class does so too. String-keyed lookups with `operator[]` insert and are not searches."],
    "C23": ["Exempt by name: readers of files (`Load*`, `Read*`, `Parse*`, `AddModelFile`), helpers that fill in derived values (`Update*`, `Ensure*`, `Compute*`, `Initialize*`), GDMLData::ThrowIfErrors (empties the error list it reports), Injector::GenerateEvent (counts failed attempts by design), and a helper that complains about the object whatever the call was (its conditions depend neither on the arguments nor on what was changed)."],
    "C24": ["Every runtime quantity (masses, mixings, constructor arguments) is unknown; a condition on one is followed both ways, up to a limit per question (the widths beyond it are counted as `width_undecided` in the evidence). Models whose list comes from a file, a table or Python are noted and not decided; targets that come out of a table are represented by a proton and a neutron.",
            "Known finding: the three-neutrino state of N4Bar is that of N4 (lepton number -1 -> +1)."],
    "C25": ["A conversion that is more than rotations and shifts of its argument (a loop, a matrix) is noted as undecided, as is an overload that neither hands over nor matches its partner statement by statement (`overload_undecided`).",
            "The frame of a vector is only known where it follows from a labelled type, a record field, a conversion or the arguments of the query that produced it; unknown frames (`frame_unknown`) are never reported."],
}

FOOTER = """
## Defects of SIREN seen while reading, not covered by a claimed property

Recorded here for the maintainers; no check is loosened or tightened for them.

* `Injector::SetPrimaryProcess`/`AddSecondaryProcess` call `exit(0)` when a process has no distributions of the needed kind.
* `LoadInjector` overwrites `events_to_inject`; `ResetInjectedEvents` leaves `injection_attempts`.
* `Weighter::Initialize` can return half-initialised; `ProcessWeighter::Initialize` erases while iterating in reverse.
* `serialization/array.h` reads an uninitialised size for int arrays.
* `python` downloader accepts a truncated transfer when no checksum is given.
* HNLDecay leaks a GSL workspace when an integrand throws.
* `pyCrossSection::SampleFinalState` casts `self` before it holds the interpreter lock.
* `SIREN_random::PowerLaw` does not test its range.
"""
