"""Text of the properties: source of properties.jsonl and MANIFEST.json (see gen.py)."""

SPEC = {}


def S(pid, title, statement, over, quant, why, files, mech, observe, note):
    SPEC[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note)


CURVE = "src/Curve/Curve.cpp"
SURF = "src/Surface/Surface.cpp"
KV = "src/Core/KnotVector.cpp"
KVH = "include/libnurbs/Core/KnotVector.hpp"
GRID = "include/libnurbs/Core/Grid.hpp"
BBH = "include/libnurbs/Core/BoundingBox.hpp"
BASIS = "src/Basis/BSplineBasis.cpp"
DEG = "src/Algorithm/DegreeAlgo.cpp"
REM = "src/Algorithm/KnotRemoval.cpp"
MATH = "include/libnurbs/Algorithm/MathUtils.hpp"
SER = "src/Utils/Serialization.cpp"
TYP = "include/libnurbs/Core/Typedefs.hpp"
SEG = "src/Geometry/GeomSegment.cpp"
RECT = "src/Geometry/GeomRect.cpp"

S("C01", "Curve evaluation equals the NURBS definition",
  "For every clamped NURBS curve on [0,1] with positive weights and every parameter in [0,1] (knots and both ends included), Evaluate returns the "
  "point the NURBS definition assigns to it, up to rounding, with the span of a knot being the one to its right (the last one at 1). "
  "In particular the curve starts at its first and ends at its last control point, and EvaluateAll with order 0 returns that same point.",
  ["inputs"], "all degrees, knot vectors (any interior multiplicity up to degree+1, gaps down to 1e-14), weights over many magnitudes, control points, parameters",
  "No existing test evaluates a curve at all; the surface tests sample a handful of points of a few fixed shapes.",
  [CURVE, BASIS, KV], [("Curve::Evaluate", CURVE), ("BSplineBasis::Evaluate", BASIS), ("KnotVector::FindSpanIndex", KV)],
  ["return values of Curve::Evaluate, Curve::EvaluateAll"],
  "long double de Boor reference, relative error 1e-11")
S("C02", "Surface evaluation equals the NURBS definition",
  "For every clamped NURBS surface on [0,1]x[0,1] with positive weights, including different degrees and point counts in u and v, Evaluate(u,v) returns "
  "the point the tensor product definition assigns to it, up to rounding, for every parameter pair (knots, edges and corners included). "
  "The four corners are interpolated, and EvaluateAll with orders 0,0 returns that same point.",
  ["inputs"], "all degree pairs, knot vectors, grids that are not square, weights, parameter pairs",
  "The tests check a few points of fixed surfaces; swapped or shifted indices in one direction or at one multiplicity are not reached.",
  [SURF, BASIS, KV, GRID], [("Surface::Evaluate", SURF), ("BSplineBasis::Evaluate", BASIS), ("Grid::Get", GRID)],
  ["return values of Surface::Evaluate, Surface::EvaluateAll"], "long double reference, relative error 1e-11")
S("C03", "B-spline basis functions and derivatives are exact",
  "For every clamped knot vector, degree and parameter in [0,1], the degree+1 basis values are non-negative, sum to one and equal the Cox-de Boor definition, and "
  "every derivative of any requested order equals the derivative of that definition (zero above the degree). "
  "Evaluate, EvaluateDerivative and EvaluateAll, called with a knot vector or with a precomputed span, agree with each other.",
  ["inputs"], "all degrees, knot multiplicities, parameters, and derivative orders including those above the degree",
  "The tests check degree 2 with one knot vector.",
  [BASIS, KV], [("BSplineBasis::Evaluate/EvaluateDerivative/EvaluateAll", BASIS), ("KnotVector::FindSpanIndex", KV)],
  ["returned vectors and matrices"], "long double reference with running magnitude for the error bound")
S("C04", "Knot vector construction rejects exactly the illegal sequences",
  "Constructing a knot vector from values or from (value, multiplicity) pairs succeeds, keeping the values bit for bit, exactly when the sequence is non-empty, non-negative, "
  "non-decreasing and ends at 1, and throws otherwise (NaN, infinity and negative values included). "
  "IsValid (at least four knots, first 0, last 1, non-decreasing), IsClamped (the end knots repeated equally often), IsUniform (equal non-zero intervals) and DetectDegree classify every vector accordingly, and Uniform builds the uniform clamped vector of the requested size.",
  ["inputs"], "all finite sequences of doubles, including special values; all degrees and counts for the uniform builder",
  "The tests construct a few valid vectors and one or two invalid ones.",
  [KV, KVH], [("KnotVector constructors", KV), ("KnotVector::IsValid/IsClamped/IsUniform/DetectDegree/Uniform", KV)],
  ["exceptions, Values(), classification results"], "specification of legality written out in the monitor")
S("C05", "Curve derivatives of every order equal the NURBS definition",
  "For every clamped NURBS curve with positive weights, every parameter in [0,1] and every order k up to 40, including orders above the degree, EvaluateDerivative and every entry of EvaluateAll "
  "equal the k-th derivative of the rational curve, up to rounding. EvaluateAll returns exactly order+1 vectors, the first being the point.",
  ["inputs"], "all degrees, weights, parameters and orders",
  "No existing test executes curve derivatives.",
  [CURVE, BASIS, MATH], [("Curve::HomogeneousDerivative, quotient rule with binomials", CURVE), ("BSplineBasis::EvaluateAll", BASIS), ("Binomial", MATH)],
  ["returned vectors"], "long double quotient rule with running magnitude for the error bound")
S("C06", "Surface partial derivatives of every order equal the definition",
  "For every clamped NURBS surface with positive weights, every parameter pair and every pair of orders up to 34, including mixed ones and those above the degrees, EvaluateDerivative and every entry of "
  "EvaluateAll equal the mixed partial derivative of the rational surface, up to rounding. EvaluateAll returns a grid of (order_u+1) x (order_v+1) vectors indexed by (k_u, k_v).",
  ["inputs"], "all degree pairs, weights, parameters and order pairs",
  "The tests check low orders of a few fixed surfaces.",
  [SURF, BASIS, MATH], [("Surface::HomogeneousDerivative and bivariate quotient rule", SURF), ("BSplineBasis::EvaluateAll", BASIS)],
  ["returned grid and vectors"], "long double bivariate quotient rule with running magnitude")
S("C07", "Curve knot insertion never changes the curve",
  "Inserting any interior knot into a curve, once, several times or as a list in any order, with new or existing values up to multiplicity degree+1, leaves the degree and every point of the curve unchanged up to rounding. "
  "The new knot vector is exactly the old one merged with the inserted values, there is one new control point per inserted knot, weights stay within the original range, and neither the operand nor the list of knots is modified.",
  ["inputs"], "all curves, insertion values, multiplicities, and lists (sorted or not, with repetitions)",
  "No existing test inserts a knot into a curve.",
  [CURVE, KV], [("Curve::InsertKnot (three overloads)", CURVE), ("KnotVector::InsertKnot/GetMultiplicity", KV)],
  ["resulting Degree, Knots, ControlPoints; deviation of shape"], "bit comparison of knots, long double comparison of both shapes")
S("C08", "Surface knot insertion never changes the surface",
  "Inserting any interior knot in u or in v, once, several times or as a list, up to multiplicity degree+1, leaves the degrees, the knots of the other direction and every point of the surface unchanged up to rounding. "
  "The knot vector of the chosen direction is exactly the old one merged with the inserted values, the grid grows by exactly that many lines, and the operand is not modified.",
  ["inputs"], "all surfaces (non-square grids, different degrees), directions, insertion values and lists",
  "The tests insert into a few fixed surfaces, mostly once.",
  [SURF, KV, GRID], [("Surface::InsertKnotU/InsertKnotV (three overloads each)", SURF), ("Grid::InsertU/InsertV", GRID)],
  ["resulting degrees, knots, control grid; deviation of shape"], "bit comparison of knots, long double comparison of both shapes")
S("C09", "Curve knot removal stays within tolerance and reports truthfully",
  "RemoveKnot reports how many copies t of the interior knot it removed (0 <= t <= requested times and multiplicity), the result has exactly t fewer copies of that knot and t fewer control points, and no point of the curve moved by more than about t times the tolerance; with t = 0 the control points are unchanged. "
  "Knots that were inserted without changing the shape are removable, which gives the original curve back.",
  ["inputs", "histories"], "all curves with interior knots at least 0.03 apart, knots present or absent, requested counts, tolerances; insert-then-remove histories",
  "No existing test removes a knot from a curve.",
  [REM, CURVE], [("KnotRemoval", REM), ("Curve::RemoveKnot", CURVE)],
  ["returned count, Knots, ControlPoints; deviation of shape"], "bit comparison of knots and count, long double deviation against the tolerance")
S("C10", "Surface knot removal stays within tolerance and reports truthfully",
  "RemoveKnotU/V report how many copies t of the interior knot they removed, the result is a well-formed surface with exactly t fewer copies of that knot and t fewer control point lines in that direction only, and it deviates from the original by no more than about t times the tolerance (times the ratio of weights); with t = 0 the surface is unchanged. "
  "A knot that was inserted without changing the shape is removed the requested number of times.",
  ["inputs", "histories"], "all surfaces with knots at least 0.03 apart, directions, knots, counts, tolerances, one row resisting the removal",
  "The tests remove one knot from one fixed surface.",
  [REM, SURF], [("Surface::RemoveKnotU/V: all rows must agree on the number removed", SURF), ("KnotRemoval", REM)],
  ["returned count, knots, control grid; deviation of shape"], "bit comparison of knots and count, long double deviation against the tolerance")
S("C11", "Curve degree elevation never changes the curve",
  "For knots that are distinct by more than the library-wide tolerance of 1e-6, elevating the degree by any number of steps leaves every point of the curve unchanged up to rounding, raises the degree by exactly that number and the multiplicity of every distinct knot by the same number. "
  "The number of control points matches the new knots, and the operand is not modified.",
  ["inputs"], "all curves (any number of spans, multiplicities up to degree+1, rational or not) and step counts",
  "No existing test elevates a curve; the surface test elevates single-span surfaces.",
  [DEG, CURVE], [("DegreeElevate", DEG), ("Curve::ElevateDegree", CURVE)],
  ["resulting Degree, Knots, ControlPoints; deviation of shape; memory accesses under AddressSanitizer"], "long double comparison of both shapes, relative error 1e-11 to 1e-7 by degree, because the blossoming divides by knot gaps")
S("C12", "Surface degree elevation never changes the surface",
  "For knots that are distinct by more than the library-wide tolerance of 1e-6, elevating the degree in u or in v by any number of steps leaves every point of the surface unchanged up to rounding, raises exactly that degree and the multiplicity of every distinct knot of that direction by that number, and leaves the other direction alone. "
  "The control grid matches the new knots, and the operand is not modified.",
  ["inputs"], "all surfaces (several spans, non-square grids, different degrees), directions and step counts",
  "The tests elevate fixed surfaces with a single span.",
  [DEG, SURF], [("DegreeElevate", DEG), ("Surface::ElevateDegreeU/V", SURF)],
  ["resulting degrees, knots, control grid; deviation of shape"], "long double comparison of both shapes")
S("C13", "Bezier extraction yields exactly the pieces of the curve",
  "ExtractBezier returns one Bezier curve of the same degree (knots 0 and 1 only) per non-empty knot span, in order, and each piece traces exactly the curve over its span under the affine map of the parameter. "
  "Consecutive pieces meet wherever the curve is continuous, and the operand is not modified.",
  ["inputs"], "all curves, any interior multiplicities including degree+1 (where the curve may jump)",
  "No existing test extracts Bezier pieces.",
  [CURVE], [("Curve::ExtractBezier", CURVE)], ["returned curves"], "long double comparison of each piece with the curve over its span")
S("C14", "Curve bounding box contains the curve and is no larger than it",
  "For every curve with positive weights, rational ones included, and every accuracy epsilon > 0, GetBoundingBox returns a box that contains every point of the curve up to max(epsilon, 1e-6) and that never exceeds the true extent of the curve on any axis. The operand is not modified.",
  ["inputs"], "all curves (extrema inside spans, several spans, weights) and accuracies from 1e-8 to the size of the curve",
  "No existing test calls GetBoundingBox.",
  [CURVE, BBH], [("Curve::GetBoundingBox: recursive subdivision of the Bezier pieces", CURVE), ("BoundingBox::ExpandToInclude", BBH)],
  ["returned box"], "extent computed by long double branch and bound over the Bezier pieces")
S("C15", "Curve parameter search returns a parameter that reproduces the point",
  "SearchParameter and BinarySearchParameter always return a value in [0,1] and terminate within their iteration budget (with no iterations, the start itself, for bisection 1/2); a search started at a solution stays at a solution. "
  "For a point on a regular, near-uniformly parametrised curve the returned parameter reproduces the point within the requested accuracy, for any interior start, and for straight uniform curves the nearest parameter is returned also for points off the curve. "
  "On ordinary curves of any size at least four searches in five succeed, and bisection succeeds whenever the curve advances steadily.",
  ["inputs"], "all curves, targets on and off the curve (ends included), starts, accuracies and iteration budgets",
  "No existing test searches on a curve.",
  [CURVE], [("Curve::SearchParameter (quasi-Newton with clamping)", CURVE), ("Curve::BinarySearchParameter", CURVE)],
  ["returned parameter, its residual"], "residual re-evaluated with the library's own Evaluate (decided by C01)")
S("C16", "Surface parameter search returns parameters reproducing the point",
  "SearchParameter, SearchParameterOn and BinarySearchParameterOn always return a pair in [0,1]x[0,1] within their iteration budget (with no iterations, the start itself, for bisection 1/2); the variants with a fixed parameter (direction 0: u fixed, 1: v fixed) return that value bit for bit in its slot; a search started at a solution stays at a solution. "
  "For a point on a regular, near-uniformly parametrised surface (edges and corners included) the returned pair reproduces the point within the requested accuracy, for any interior start, and for flat uniform surfaces the nearest parameters are returned also for points off the surface. "
  "On ordinary surfaces at least three searches in four succeed.",
  ["inputs"], "all surfaces, targets, directions, fixed values, starts, accuracies and budgets",
  "The tests search a few points on fixed surfaces.",
  [SURF], [("Surface::SearchParameter (BFGS)", SURF), ("Surface::SearchParameterOn", SURF), ("Surface::BinarySearchParameterOn", SURF)],
  ["returned pair, its residual"], "residual re-evaluated with the library's own Evaluate (decided by C02)")
S("C17", "Saving and loading gives back the same curve or surface",
  "A curve or surface saved in binary mode loads back bit for bit (any floating point contents), one saved as text loads back with every value of magnitude >= 0.1 exact and smaller ones within 1e-17, through files and streams, whatever the global locale or the format flags of the stream and however the stream delivers its bytes. "
  "Loading replaces everything an object held before, saving does not modify the object, and binary objects written one after the other to a stream load back in order.",
  ["inputs", "histories", "configurations"], "all objects (empty ones, non-square grids, special bit patterns in binary mode), both formats, locales, stream states, buffer sizes, previous contents of the target",
  "The tests save and load one or two surfaces into fresh objects; curve serialization is never executed.",
  [CURVE, SURF, SER], [("Curve/Surface::SaveToFile and LoadFromFile", CURVE + ", " + SURF), ("Serialization helpers", SER)],
  ["bytes written, fields of the loaded object"], "bitwise comparison of all fields")
S("C18", "Loading arbitrary bytes is safe: reject with an exception or load sanely",
  "Feeding any byte sequence to LoadFromFile either throws a standard exception or leaves a self-consistent object; it never reads or writes out of bounds, never allocates memory out of proportion to the input (64 times its size plus 1 MB), never hangs, and the object can be loaded again and used afterwards. "
  "Every truncation of a binary file, wrong magic, mode or type, grid dimension that is not positive and count that exceeds the data is rejected, and so is a text file with a field that does not begin with a number, a missing coordinate, or a number of control points other than announced.",
  ["inputs"], "all byte sequences; truncations at every byte, mutated headers and counts, mutated text, noise, both loaders",
  "The tests load only well-formed files.",
  [CURVE, SURF, SER], [("LoadFromFile header and count validation", CURVE + ", " + SURF), ("Serialization readers", SER)],
  ["exceptions, fields, memory accesses, allocation volume"], "AddressSanitizer, UBSan, hardened libc++, an allocation meter, and a consistency walk of accepted objects")
S("C19", "I/O failures are reported, never silently lost",
  "If any byte of a save cannot be written (the sink fails at any position, the disk is full, the target cannot be opened), SaveToFile throws (bytes that the caller's own stream accepted into its buffer are the caller's to flush); if a file cannot be opened, or reading fails at any position before the object is complete, or a binary source ends there, LoadFromFile throws. "
  "Whenever SaveToFile returns normally, the complete file is there and loads back.",
  ["fault_sequences", "crash_points"], "every byte position at which a stream or file can fail, both formats, both classes, path and stream overloads",
  "No existing test injects a failure.",
  [CURVE, SURF, SER], [("stream state checks and flush in SaveToFile/LoadFromFile", CURVE + ", " + SURF)],
  ["exceptions, bytes that reached the sink"], "failing stream buffers at every byte, RLIMIT_FSIZE at every byte, /dev/full, missing directory, directory as file")
S("C20", "Segment and rectangle builders produce the requested geometry",
  "GeomSegment yields a curve of the requested degree and number of control points, with uniform clamped knots and unit weights, whose control points run equally spaced from the left to the right point, so that it is straight and monotone. "
  "GeomRect yields a surface of the requested degrees and grid size whose control points are the bilinear blend of its four corner points, whether or not these form a parallelogram, with u running left to right and v bottom to top.",
  ["inputs"], "all corner points, degrees and control point counts",
  "One test checks an axis-aligned unit rectangle; the segment builder is never executed.",
  [SEG, RECT], [("GeomSegment::GetCurve", SEG), ("GeomRect::GetSurface", RECT)], ["resulting curve and surface"], "closed form of every control point and knot")
S("C21", "Linear transforms commute with evaluation",
  "Transforming a curve or surface by any 3x3 matrix (singular ones included) maps every point of the shape by that matrix, keeps weights, knots, degrees and grid dimensions bit for bit, and does not modify the operand.",
  ["inputs"], "all shapes (rational ones included) and matrices",
  "The tests transform nothing or only a fixed surface.",
  [CURVE, SURF], [("Curve::Transform", CURVE), ("Surface::Transform", SURF)], ["resulting control points, evaluated points"], "matrix applied to the reference points")
S("C22", "Aligning the parameter domain only swaps or reverses u and v",
  "AlignParameterDomain returns the same surface up to swapping u and v and reversing either (degrees, knots and control points moving consistently), and does not modify the operand. "
  "When the edges of the patch run along the two requested axes, also if one edge is collapsed to a point, the result has u running along the positive first and v along the positive second axis, and aligning again changes nothing.",
  ["inputs"], "all surfaces, all axis pairs, all eight orientations, collapsed edges",
  "The tests align a few fixed orientations.",
  [SURF, KV], [("Surface::AlignParameterDomain", SURF), ("KnotVector::Reverse", KV)], ["resulting degrees, knots, control grid"], "the eight reparametrisations built independently and compared bit for bit")
S("C23", "The grid container behaves like a table of u columns and v rows",
  "After any sequence of construction, element access, row and column reads and writes and insertions of rows or columns at any position, a Grid of any copyable element type has exactly the dimensions and elements of a plain two-dimensional table on which the same operations were performed, also when the inserted value is an element of the grid itself.",
  ["histories", "inputs"], "all operation sequences, grid sizes and element types",
  "The test performs a few operations on one grid of integers.",
  [GRID], [("Grid::Get/GetU/GetV/SetU/SetV/InsertU/InsertV", GRID)], ["UCount, VCount, Values, returned rows"], "plain vector-of-vectors model in lock step")
S("C24", "Const operations may run concurrently on shared objects",
  "Any number of threads may call const operations on the same curves, surfaces and knot vectors, and any operations on distinct objects, at the same time: there is no data race and every call returns exactly what it returns alone.",
  ["schedules"], "all interleavings of public operations by several threads",
  "All existing tests are single-threaded.",
  [CURVE, SURF, KV, BASIS, DEG, REM, SER], [("absence of shared mutable state in the library", "src/")], ["memory accesses under ThreadSanitizer, result digests"],
  "ThreadSanitizer plus comparison of every result with the single-threaded one")
S("C25", "Shape-preserving operations compose over any history",
  "After any sequence of knot insertions, removals that the library accepts, degree elevations, transforms, alignments and save/load cycles, a curve or surface is still well formed and still traces the original shape under the accumulated transform, up to rounding and the granted tolerances.",
  ["histories"], "all sequences of operations on curves and surfaces",
  "The tests apply single operations to fixed inputs.",
  [CURVE, SURF, DEG, REM], [("every operation that returns a new Curve/Surface", CURVE + ", " + SURF)], ["structure and evaluated points after every step"], "the original evaluated by the long double reference after every step")
S("C26", "Results depend only on the arguments",
  "Every operation returns bit-identical results when repeated with equal arguments, whatever was called in between, however its operands were produced (copied, moved, reloaded, padded memory) and whatever garbage the memory held before, and const operations leave their operands bit for bit unchanged. "
  "Copies are independent: changing one never changes the other.",
  ["histories", "inputs"], "all operations, all histories of earlier calls",
  "The tests call each function once per fresh object.",
  [CURVE, SURF, KV, BASIS, DEG, REM, SER], [("value semantics of all classes, no caches or statics", "src/")], ["result digests, operand bytes"], "digest comparison of repeated calls around interfering work")
S("C27", "IsRational tells exactly whether the weights differ",
  "IsRational of a curve or surface is true exactly when not all weights are equal, whichever control point carries the different weight and however small the difference, false for empty shapes, and unaffected by linear transforms.",
  ["inputs"], "all weight patterns", "The tests never call it on curves and only on fixed surfaces.",
  [CURVE, SURF], [("Curve::IsRational", CURVE), ("Surface::IsRational", SURF)], ["returned flag"], "weights set by the monitor")
S("C28", "Numeric helpers are exact on their domain",
  "Factorial is exact for 0..9, Binomial(n,k) for n up to 50 (zero when k exceeds n), Approx compares scalars and every component of vectors against its tolerance in both directions, and conversion to and from homogeneous coordinates is inverse and keeps the weight.",
  ["inputs"], "the whole stated domain of the integers; reals sampled around the tolerance", "No existing test calls them.",
  [MATH, TYP], [("Factorial/Binomial/Approx", MATH), ("ToHomo/FromHomo", TYP)], ["returned values"], "exact integer tables and interval arithmetic")
S("C29", "Text files load independently of layout",
  "A text file with the documented keys loads to the same object whatever the blank lines, leading or trailing whitespace, line endings (LF or CRLF), order of the sections, values on the key's line or the next, number of knots or control points per line, missing final newline, global locale, or previous contents of the target object.",
  ["inputs", "configurations"], "all layouts of equivalent text, for curves and surfaces", "The tests load a few files in one layout.",
  [CURVE, SURF, SER], [("LoadFromFile text parser", CURVE + ", " + SURF)], ["fields of the loaded object"], "layout generator with known contents")
S("C30", "Knot vector queries and edits agree with the definition",
  "For every clamped knot vector: FindSpanIndex returns the last index whose half-open span contains the parameter (the last non-empty span at 1), FindSpan and GetKnotPairs list the distinct knots with first index and multiplicity, and GetMultiplicity counts occurrences (within its 1e-6 tolerance). "
  "InsertKnot adds exactly the requested copies, keeps the order and returns the span index in the original vector, and Reverse mirrors the knots about 1/2.",
  ["inputs", "histories"], "all clamped knot vectors (gaps down to 1e-15), parameters (knots, neighbours of knots, ends), insertion sequences", "The tests query one or two fixed vectors.",
  [KV, KVH], [("KnotVector::FindSpanIndex/FindSpan/GetKnotPairs/GetMultiplicity/InsertKnot/Reverse", KV)], ["returned indices, Values()"], "linear scans over the values")
S("C31", "Bounding box algebra is exact",
  "A bounding box spans exactly the component-wise minimum and maximum of everything it was built from or expanded by (points and boxes, in any order), Contains answers exactly with closed boundaries, and Length, Center and Volume follow from the extent.",
  ["histories", "inputs"], "all sequences of points and boxes", "No existing test uses BoundingBox.",
  [BBH], [("BoundingBox constructors, ExpandToInclude, Contains", BBH)], ["Min, Max, returned flags"], "component-wise reference in lock step")
