"""What each check runs: monitor group, cases per build, events the monitors must have observed, and how cases are counted."""
PROPS = {}

SHAPES = ("Case n of seed s is generated deterministically: degree walks through its range with n, knot vectors come from ten styles (single span, uniform, random, "
          "random multiplicities, piecewise Bezier, dyadic, clustered, near the ends, graded, two-digit decimals), control nets from ten styles and weights from six; one net in ten has coinciding lines, points or weights (closed, doubled, symmetric, collapsed). ")


def P(pid, group, quick, thorough, rule, require, min_distinct=100, **kw):
    PROPS[pid] = dict(group=group, quick=quick, thorough=thorough, rule=rule, require=require, min_distinct=min_distinct, **kw)


P("C01", "eval", dict(san=80000, rel=600000), dict(san=400000, rel=4000000, vg=300),
  SHAPES + "Distinct: different degree, knot multiplicity pattern and kind of weights; non-trivial: at least one evaluation was compared with the reference.",
  dict(curve_evaluations=100000))
P("C02", "eval", dict(san=25000, rel=150000), dict(san=200000, rel=1500000, vg=200),
  SHAPES + "Distinct: different degrees, multiplicity patterns in u and v and kind of weights; non-trivial: at least one evaluation was compared.",
  dict(surface_evaluations=100000))
P("C03", "eval", dict(san=16000, rel=128000), dict(san=200000, rel=2500000, vg=200),
  "Knot vectors of ten styles, degrees 1..12, parameters at, next to and between knots. Distinct: different degree and multiplicity pattern; non-trivial: all basis values and derivatives compared.",
  dict(basis_evaluations=100000, orders_above_degree=10000))
P("C04", "knots", dict(san=120000, rel=900000), dict(san=400000, rel=4000000, vg=500),
  "A legal vector plus one mutated in one of twelve ways, shortened at both ends, and a uniform one. Distinct: different degree and multiplicity pattern of the base vector; non-trivial: verdict compared with the specification.",
  dict(illegal_vectors=10000, legal_vectors=5000, unclamped_vectors=5000))
P("C05", "eval", dict(san=48000, rel=400000), dict(san=250000, rel=3000000, vg=200),
  SHAPES + "Distinct: different degree, multiplicity pattern and kind of weights; non-trivial: all derivatives up to the requested order compared.",
  dict(derivative_vectors=200000, orders_above_degree=10000))
P("C06", "eval", dict(san=15000, rel=100000), dict(san=120000, rel=1000000, vg=100),
  SHAPES + "Distinct: different degrees, multiplicity patterns and kind of weights; non-trivial: the whole grid of partial derivatives compared.",
  dict(derivative_vectors=100000, mixed_partials=50000))
P("C07", "refine", dict(san=48000, rel=400000), dict(san=200000, rel=2500000, vg=300),
  SHAPES + "One of three overloads, lists sorted or not. Distinct: different shape signature, overload and number of inserted knots; non-trivial: at least one knot inserted or an empty insertion judged.",
  dict(knots_inserted=50000, reached_multiplicity_p=5000, reached_multiplicity_p_plus_1=1000))
P("C08", "refine", dict(san=16000, rel=80000), dict(san=120000, rel=800000, vg=150),
  SHAPES + "Direction and overload random. Distinct: different shape signature, direction, overload and number of knots.",
  dict(knots_inserted_u=10000, knots_inserted_v=10000))
P("C09", "refine", dict(san=80000, rel=800000), dict(san=300000, rel=4000000, vg=300),
  SHAPES + "Insert-then-remove, perturbed control point near the tolerance, arbitrary or absent knot. Distinct: different shape signature and counts; non-trivial: the removal was judged for count, knots and deviation.",
  dict(removals_done=10000, removals_refused=5000, partial_removals=1000, insert_remove_round_trips=5000, absent_knots=1000, perturbed_removals=1000))
P("C10", "refine", dict(san=20000, rel=120000), dict(san=150000, rel=1200000, vg=150),
  SHAPES + "As C09, in u or v. Distinct: different shape signature, direction, mode and count.",
  dict(removals_done_u=5000, removals_done_v=5000, removals_refused=2000, insert_remove_round_trips=5000))
P("C11", "refine", dict(san=64000, rel=640000), dict(san=300000, rel=4000000, vg=300),
  SHAPES + "Elevated by 1..14 steps, now and then with thousands of spans. Distinct: different shape signature and number of steps.", dict(elevations=20000))
P("C12", "refine", dict(san=15000, rel=60000), dict(san=100000, rel=600000, vg=100),
  SHAPES + "Elevated by 1..3 in u or v. Distinct: different shape signature, direction and number of steps.", dict(elevations_u=5000, elevations_v=5000))
P("C13", "refine", dict(san=32000, rel=240000), dict(san=300000, rel=3000000, vg=300),
  SHAPES + "Distinct: different shape signature; non-trivial: every piece compared with the curve.", dict(bezier_pieces=20000, discontinuous_joins=500))
P("C14", "shape", dict(san=60000, rel=400000), dict(san=200000, rel=2000000, vg=200),
  SHAPES + "Accuracy from 1e-8 to the size of the curve. Distinct: different shape signature.", dict(boxes=10000, interior_extrema=10000))
P("C15", "search", dict(san=800, rel=12000), dict(san=12000, rel=200000),
  "One case in 16 is a population of 120 ordinary curves, five hostile curves, three steadily advancing ones, seven near-uniform or straight ones. Distinct: different curve and random stream; non-trivial: at least one search judged.",
  dict(searches=10000, population_searches=10000, projections=200, searches_from_solution=500))
P("C16", "search", dict(san=1200, rel=16000), dict(san=16000, rel=250000),
  "One case in 16 is a population of 60 ordinary surfaces, five hostile surfaces, ten near-uniform or flat ones. Distinct: different surface and random stream.",
  dict(searches=10000, population_searches=10000, projections=200, searches_from_solution=500))
P("C17", "io", dict(san=8000, rel=48000), dict(san=80000, rel=500000, vg=60),
  SHAPES + "Plus arbitrary bit patterns (binary), empty objects, several objects per stream; stream, file, one-byte chunks, formatted streams, foreign global locale, used targets. Distinct: different contents and transport.",
  dict(round_trips=5000, file_round_trips=500, chunked_round_trips=500, formatted_stream_round_trips=500, foreign_locale_round_trips=500, loads_into_used_objects=1000, sequence_loads=500))
P("C18", "io", dict(san=16000, rel=100000), dict(san=400000, rel=3000000, vg=1500),
  "Valid files of both formats truncated at a byte, with mutated headers, counts and fields, byte and token mutations, noise; each input goes to both loaders. Distinct: different bytes.",
  dict(hostile_inputs=10000, inputs_accepted=1000, inputs_rejected=5000))
P("C19", "io", dict(san=60, rel=300), dict(san=1200, rel=8000),
  "For every generated object the fault is injected at every byte position of the saved file (failing sink, file size limit), plus unopenable targets and sources failing while being read. Distinct: different object; non-trivial: at least one fault position was exercised.",
  dict(sink_faults=20000, file_limit_faults=2000, source_faults=20000, short_sources=10000, bad_targets=50, bad_sources=50), min_distinct=50, level="fault_enumeration")
P("C20", "shape", dict(san=128000, rel=1600000), dict(san=300000, rel=4000000, vg=300),
  "Random corners (parallelograms, axis-aligned, skew), degrees and counts. Distinct: different degrees and counts.", dict(segments=10000, rectangles=10000, non_parallelograms=5000))
P("C21", "shape", dict(san=48000, rel=400000), dict(san=200000, rel=2000000, vg=200),
  SHAPES + "Twelve kinds of matrices. Distinct: different shape signature.", dict(curve_transforms=10000, surface_transforms=10000))
P("C22", "shape", dict(san=72000, rel=600000), dict(san=200000, rel=2000000, vg=200),
  SHAPES + "Corners placed along two axes in all orientations, one edge collapsed, or arbitrary nets with arbitrary requests. Distinct: different mode, orientation, request and outcome.",
  dict(aligned_patches=5000, aligned_triangles=1000, reparametrised=5000, left_unchanged=2000))
P("C23", "knots", dict(san=144000, rel=1200000), dict(san=500000, rel=5000000, vg=1000),
  "Sequences of 2..14 operations on grids of six element types. Distinct: different element type, initial size and operation sequence.",
  dict(grid_operations=100000, insert_u=20000, insert_v=20000, aliased_inserts=5000))
P("C24", "state", dict(tsan=500, rel=4000), dict(tsan=6000, rel=60000),
  "Two to six threads run random plans of public operations on shared constant objects, with and without injected yields and delays. Distinct: different observed order in which the operations started.",
  dict(concurrent_operations=20000, operations_overlapping_another=2000), workers=2, budget=dict(quick=200, thorough=1200))
P("C25", "state", dict(san=30000, rel=300000), dict(san=100000, rel=1200000, vg=100),
  "Histories of 3..12 (thorough 24) operations from a generated shape. Distinct: different start and operation sequence; non-trivial: at least two operations applied.",
  dict(history_steps=30000, history_knots_removed=3000, history_reparametrisations=300))
P("C26", "state", dict(san=2500, rel=16000), dict(san=40000, rel=300000, vg=100),
  "8..24 calls on 2..4 objects (some equal in layout only), each repeated in other orders, on copies, moved and overwritten storage. Distinct: different results.",
  dict(calls=20000, repeated_calls=40000, calls_after_edit_in_place=20000))
P("C27", "shape", dict(san=96000, rel=960000), dict(san=300000, rel=3000000, vg=300),
  SHAPES + "All weights equal, or one differing by one ulp, 1e-9 or a factor 2. Distinct: different shape signature and verdict.", dict(rational_shapes=5000, non_rational_shapes=5000))
P("C28", "knots", dict(san=45000, rel=300000), dict(san=40000, rel=400000, vg=200),
  "Every factorial, random binomials out of the complete table n<=50, k<=54, tolerance-edge comparisons, homogeneous round trips. Distinct: different (n,k).",
  dict(approx_queries=10000, homogeneous_round_trips=10000), min_distinct=1000)
P("C29", "io", dict(san=20000, rel=120000), dict(san=200000, rel=1500000, vg=200),
  SHAPES + "Written with random blanks, line ends, section order, breaks, separators and number formats. Distinct: different text.",
  dict(layouts_loaded=10000, foreign_locale_loads=1000))
P("C30", "knots", dict(san=64000, rel=640000), dict(san=300000, rel=4000000, vg=400),
  "Knot vectors of ten styles with gaps down to 1e-9. Distinct: different degree and multiplicity pattern.", dict(span_queries=200000, multiplicity_queries=20000, knot_insertions=40000))
P("C31", "shape", dict(san=192000, rel=1920000), dict(san=500000, rel=5000000, vg=500),
  "Sequences of eight expansions and queries with points inside, outside and exactly on faces. Distinct: different operation sequence and extents.",
  dict(inside_points=5000, outside_points=5000))
