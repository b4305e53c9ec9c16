"""Properties of SIREN that a sound static argument in reach cannot decide."""
NA = [
    dict(id="N01", title="Sampled values follow the density that weights them",
         statement="For every distribution and interaction, the frequency with which a value is sampled equals the generation density reported for it, so that weighted events are unbiased.",
         over=["inputs"], quant="all parameter values and all random draws",
         why="a test can only draw finitely many samples for a few parameter sets",
         files=["projects/distributions/private/**/*.cxx", "projects/interactions/private/*.cxx"],
         mech=[("Sample* versus GenerationProbability/FinalStateProbability", "distributions, interactions")],
         reason="equality of a sampling procedure's push-forward measure with a closed-form or tabulated density quantifies over real arithmetic, rejection loops and tables read at run time; no static abstraction in reach relates the two (the structural part, same range guards and no foreign randomness, is claimed separately)"),
    dict(id="N02", title="Final states conserve energy and momentum",
         statement="The four-momenta of all secondaries of a sampled interaction add up to those of the primary and the target, and every secondary is on its mass shell.",
         over=["inputs"], quant="all energies, directions and random draws", why="tests sample a few kinematic points",
         files=["projects/interactions/private/*.cxx"], mech=[("SampleFinalState of every model", "interactions")],
         reason="needs exact algebra over square roots, boosts and rotations on runtime values; data-flow facts do not determine numeric sums"),
    dict(id="N03", title="Column depth and its inverse agree along every ray",
         statement="The distance returned for a requested column or interaction depth accumulates exactly that depth, in either direction along a path, for every detector description.",
         over=["inputs", "configurations"], quant="all rays, depths and detector models", why="tests integrate along a few rays",
         files=["projects/detector/private/*.cxx"], mech=[("Path, DetectorModel integration and inversion", "detector")],
         reason="a numerical fixed point of density integrals over runtime geometry; outside static reach"),
    dict(id="N04", title="Ray intersections agree with containment",
         statement="A point lies inside a solid exactly when the ray through it has entered and not yet left the solid there, for every solid, placement and Boolean combination.",
         over=["inputs", "configurations"], quant="all solids, placements and rays", why="tests throw random rays at a few solids",
         files=["projects/geometry/private/*.cxx"], mech=[("ComputeIntersections / IsInside", "geometry")],
         reason="real-algebraic geometry with floating-point tolerances; no static abstraction in reach bounds it"),
    dict(id="N05", title="Total rates are the integrals of the differential rates",
         statement="The total cross section or width of every interaction equals the integral of its differential form over the allowed final states.",
         over=["inputs"], quant="all energies and models", why="tests integrate at a few energies",
         files=["projects/interactions/private/*.cxx"], mech=[("TotalCrossSection/TotalDecayWidth versus Differential*", "interactions")],
         reason="a statement about numerical integrals of runtime tables and formulas"),
    dict(id="N06", title="Interpolated tables reproduce their nodes and stay between neighbours",
         statement="Interpolating a table at one of its nodes returns the tabulated value, and between two nodes a value between the two, in linear and logarithmic mode.",
         over=["inputs"], quant="all tables and arguments", why="tests use a few tables",
         files=["projects/utilities/public/SIREN/utilities/Interpolator.h", "projects/math/public/SIREN/math/Interpolation.h"],
         mech=[("Interpolator1D/2D evaluation", "utilities, math")],
         reason="floating-point evaluation of logs and exponentials over runtime tables"),
    dict(id="N07", title="Rotations preserve lengths and compose correctly",
         statement="A rotation keeps lengths and angles, composing rotations equals applying them one after the other, and the different representations (quaternion, matrix, Euler angles) of a rotation agree.",
         over=["inputs"], quant="all rotations and vectors", why="tests use random rotations",
         files=["projects/math/private/*.cxx", "projects/math/public/**"], mech=[("Quaternion, Matrix3D, EulerAngles", "math")],
         reason="algebraic identities over runtime reals; would need a solver or a proof of polynomial identities, which is a different family"),
]
