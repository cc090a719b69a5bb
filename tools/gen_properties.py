#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that ids, anchors and texts stay in step)."""
import json, os
B, D, N, I, S, G, U, DI, CU, P, R = ('skcurve/_base.py', 'skcurve/_diffgeom.py', 'skcurve/_intersect.py', 'skcurve/_interpolate.py',
    'skcurve/_smooth.py', 'skcurve/_geomalg.py', 'skcurve/_utils.py', 'skcurve/_distance.py', 'skcurve/curves.py', 'skcurve/plot.py', 'skcurve/_numeric.py')
out = []


def p(id, title, statement, qtext, why, files, mech, over=('inputs',), state=()):
    assert len(title) <= 80, (id, len(title))
    out.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': list(files),
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'hook_needed': None}})


p('C01', 'Points, segments and curves stay read-only for their whole life',
  'The coordinate array of every point and curve, the parameter vector of a parametric curve, and every array a curve computes once and keeps '
  '(arc parametrization, chord lengths, segment list, derivatives, speed, normals, Frenet vectors, curvature, torsion) is read-only to everybody who obtains it. '
  'No public operation changes what an existing point, segment or curve reports.',
  'every way of constructing an object, every public operation and every order of property accesses on it',
  'Tests compare values right after one call; none writes to a returned array or re-reads an object after later operations, and none tries all input kinds.',
  [B, D, U], [('data frozen on construction', B + ' Point.__init__, Curve.__init__'), ('memoised arrays frozen', D + ' _maybe_curve_point; ' + B + ' chordlen, segments')],
  ('inputs', 'histories'), [('stored coordinates and parameters', 'the object state', B + ' Point, Curve'), ('memoised quantities', 'cached on first access', D + ' CurvePointFunctionMixin')])
p('C02', "Objects are isolated from the caller's data and operations leave operands alone",
  "A point or curve keeps its own copy of the data and the parameter vector it is built from, so later changes to the caller's arrays never reach it. "
  'No public function or method modifies an array, list, point, segment or curve passed to it.',
  'every constructor input kind (array, sequence, point, curve) and every public operation taking arrays or objects',
  'Tests build objects from literals and never modify or re-inspect the inputs afterwards.',
  [B, G, D, I, S, N], [('copies on construction', B + ' Point.__init__, Curve.__init__'), ('work on copies', G + ' coplanar_points; ' + S + ' window_filter')])
p('C03', 'Malformed points, segments and curves cannot be constructed',
  'A point from data with more than one axis, a point or curve with a non-numeric dtype, a curve with minimum dimension below 2 or with one-dimensional points, '
  'a curve whose parameter vector is not one-dimensional or differs in length from the number of points, and a segment between empty points or points of different dimensions all raise ValueError; '
  'a segment between objects that are not points raises TypeError. '
  'Well-formed input is accepted, and a curve padded to a minimum dimension gets zeros in the added dimensions.',
  'every combination of constructor arguments and input kinds',
  'Only valid constructions are tested, apart from deleting a dimension of a plane curve.',
  [B, U], [('validation in constructors', B + ' Point.__init__, Segment.__init__, Curve.__init__'), ('axis validation', U + ' as2d')])
p('C04', 'Every point keeps its own parameter value through curve operations',
  'When a parametric curve is sliced, index- or mask-selected, reversed, co-oriented, concatenated with another parametric curve, copied, or has points deleted, dropped, or duplicates removed, '
  'the result is parametric and each of its points carries exactly the parameter value it had before. '
  'Inserting points or dimensions, deleting dimensions, smoothing, and concatenating with a non-parametric curve give a non-parametric curve, and an operation on a non-parametric curve never makes it parametric.',
  'every curve, every index expression and every selection',
  'Only reverse, one slice step and one concatenation are tested with parameters; alignment must hold for every selection.',
  [B], [('row selection applied to data and parameters alike', B + ' Curve.__getitem__, reverse, delete, unique, drop, __add__, __init__')])
p('C05', 'Edits and selections change exactly the requested points or dimensions',
  'Selecting, reversing, concatenating, inserting, appending and deleting points yields precisely the requested rows of the original data in the documented order with all coordinates intact; '
  'dropping removes exactly the points flagged by the checker, and removing duplicates keeps the first occurrence of each point in the original order. '
  'Inserting, appending and deleting dimensions act on coordinates only, leave points and their order intact, and fill a new dimension with zeros when no values are given. Co-orienting a curve to a plane returns the curve itself when its first and last points turn positively in that plane and the reversed curve when they turn negatively.',
  'every curve size and dimension, index expression and inserted object',
  'Tests use a handful of 4-point plane curves; swapped axes, order and boundary rows for other shapes go unseen.',
  [B], [('row/column edits', B + ' Curve.insert, append, delete, insertdim, appenddim, deletedim, unique, drop, __add__, reverse, values')])
p('C06', 'Objects of different dimension are never combined',
  'Inserting, appending, concatenating, searching or counting with an object of another dimension, and intersecting objects of different dimensions (in any combination of curves and segments, with any method), raise ValueError. '
  'Equality and membership between objects of different dimensions are False.',
  'every pair of objects of different dimension and every operation taking two of them',
  'No test passes objects of different dimension to a mutating or intersecting operation; numpy broadcasting would silently accept some pairs.',
  [B, N], [('dimension check', B + ' Curve._check_ndim, __eq__, __contains__; ' + N + ' intersect, IntersectionMethodBase.__call__')])
p('C07', 'Point and segment indices are normalised or rejected',
  'A curve of N points accepts point indices -N..N-1 and segment indices -(N-1)..N-2; a negative index denotes the element counted from the end and the element reports the equivalent non-negative index and the coordinates found there. '
  'Any other index raises IndexError for points and ValueError for segments. A sub-curve between two points of one curve covers exactly the points between their indices, including the end point only on request, and points of another curve or plain points are refused.',
  'every curve size and every integer index',
  'Tests index one 4-point curve at four positions; out-of-range and wrap-around indices are not tried.',
  [B], [('index normalisation', B + ' CurvePoint.__init__, CurveSegment.__init__'), ('sub-curve bounds', B + ' CurvePoint.subcurve')])
p('C08', "A curve point or segment reports its curve's own quantities at its index",
  'For every curve and index, the arc length, parameter, derivatives, speed, normals, Frenet vectors, curvature and torsion reported by a curve point are the entries of the same-named curve quantities at that index, computed on the whole curve. '
  'A curve segment joins the curve points at its index and the next one, and its chord length is the entry of the curve chord lengths at its index.',
  'every curve, every index and every quantity',
  'No test reads any differential-geometry quantity through a curve point.',
  [D, B], [('delegation to the curve', D + ' _maybe_curve_point, CurvePointFunctionMixin'), ('curve segments', B + ' CurveSegment, Curve.segments')])
p('C09', 'Arc-length quantities follow from the chord lengths',
  'Chord length i is the Euclidean distance between points i and i+1, the arc length is their sum, and the cumulative arc length starts at 0, adds one chord per point and has one value per point. '
  'The parameter vector of a curve is the one it was built with, or the cumulative arc length if it was built without. An empty curve has zero length and empty vectors.',
  'every curve of any size and dimension',
  'Two straight lines and one 10-point circle are tested; single-point, empty and parametric curves are not.',
  [D, B], [('chord/arc computation', D + ' chordlen, arclen, cumarclen; ' + B + ' Curve.t')])
p('C10', 'Derivatives and Frenet vectors follow their defining formulas',
  'The first, second and third derivatives of a curve are successive numerical gradients along the points, the tangent is the first derivative and the speed its norm. '
  'The normal is the second derivative without its component along the unit tangent, the binormal is the third derivative without its components along the first two Frenet vectors, and each Frenet vector is the tangent, normal or binormal divided by its norm wherever that norm does not vanish.',
  'every curve with at least three points, in any dimension',
  'Tests check straight lines, one circle and orthogonality on one space curve within tolerances.',
  [D], [('formulas', D + ' _gradient, CurvePointFunctionMixin')])
p('C11', 'Curvature and torsion follow their defining formulas',
  "For a plane curve the curvature is the signed value (x'y'' - y'x'') / (x'^2 + y'^2)^(3/2); in higher dimension it is the norm of the gradient of the unit tangent divided by the speed. "
  'The torsion is the inner product of the gradient of the second Frenet vector with the third Frenet vector, divided by the speed, at every point.',
  'every curve with at least three points, in any dimension',
  'Only circles (constant positive curvature, zero torsion) and one non-zero torsion are tested, so sign, powers and most terms are unconstrained.',
  [D], [('formulas', D + ' CurvePointFunctionMixin.curvature, torsion')])
p('C12', 'Vanishing directions and too-short curves degrade gracefully',
  'Frenet vectors are never divided by a norm that is numerically zero: such points get a divisor of 1 and a DifferentialGeometryWarning is issued, and only then. '
  'Derivatives of curves with fewer than three points fall back to first-order edges or, for fewer than two points, to zeros of the same shape as the curve, with a warning; computing them never changes the quantities they are derived from.',
  'every curve, in particular with repeated points, straight pieces and one or two points',
  'One singular curve and a few straight lines check that a warning appears; values and short curves are hardly tested.',
  [D], [('norm guard', D + ' _frenet_vector_norm'), ('edge order fallback', D + ' _gradient')])
p('C13', 'Interpolation returns a curve sampled exactly on a validated grid',
  'An interpolated curve has the type and dtype of the source, one point per grid value, and for a parametric source exactly the grid as its parameter vector (none otherwise). '
  'A grid that is not one-dimensional or not strictly increasing, an unknown grid type and a single-point curve raise ValueError before any interpolation; a grid that does not cover the parameter range is used but an InterpolationWarning is issued, and a covering grid issues none.',
  'every curve, method (built-in or registered) and grid specification',
  'Tests interpolate straight lines on valid grids only.',
  [I], [('grid validation and result construction', I + ' InterpolatorBase.__call__, _get_interpolation_grid')])
p('C14', 'Interpolation grids span the curve parametrization as requested',
  'A uniform grid runs from the first to the last parameter value with the requested number of points, or with chords of approximately the requested length; an extrapolation grid is the unchanged inner grid preceded and followed by the requested number (or length) of equally spaced values continuing its mean step; '
  'the speed-preserving grid follows the cumulative arc length rescaled to the curve length, or is uniform for a parametric curve. '
  'An unknown kind, fewer than two points and fill values of the wrong type are rejected.',
  'every curve and every grid setting',
  'Tests use one 3-point line with symmetric extrapolation, so before/after mix-ups and parametric curves go unseen.',
  [I, R], [('grid builders', I + ' UniformInterpolationGrid, UniformExtrapolationGrid, PreservedSpeedInterpolationGrid'), ('rescaling', R + ' linrescale')])
p('C15', 'Interpolation methods use the parametrization, all dimensions and every option',
  "Each built-in interpolation method is built on the curve's parameter vector and all coordinates with points along the first axis, and is evaluated on the requested grid for every dimension. "
  'Every documented option of a method reaches the numerical backend under its documented meaning, and the Hermite method uses the unit tangents as derivatives.',
  'every method, curve dimension, parametrization and option value',
  'All methods are tested only on straight, non-parametric lines with default options.',
  [I], [('interpolators', I + ' LinearInterpolator ... CsapsInterpolator')])
p('C16', 'Smoothing filters along the points and keeps the shape of the curve',
  'A smoothed curve has the same type, number of points and dimension as the source, float64 coordinates and no parameter vector; built-in filters run along the points independently for each coordinate and pass every user option to the filter. '
  'The moving-average window is normalised to unit sum whatever window function is given, and integer coordinates are not truncated.',
  'every curve, smoothing method and option',
  'Smoothing has no tests at all.',
  [S], [('filters', S + ' savgol_filter, window_filter, smooth')])
p('C17', 'Method registries are complete, collision-free and resolve names faithfully',
  'Every documented interpolation, smoothing and intersection method name is registered and resolves to its own method; an unknown name raises NameError. '
  'Registering a taken name raises ValueError and an interpolator or intersection class of the wrong base raises TypeError, leaving the registry unchanged; a new registration becomes available under its name. '
  'The default intersection method is "exact", is always a registered name, and changes only by an explicit request for a registered name.',
  'every name, every class registered and every order of registrations',
  'Names are only used by the built-in parametrizations; registration, collisions and unknown names are untested.',
  [I, S, N], [('registries', I + ' register_interpolator, get_interpolator; ' + S + ' register_smooth_method; ' + N + ' register_intersect_method, set_default_intersect_method')],
  ('inputs', 'histories'))
p('C18', 'Failures inside pluggable methods surface as the domain error with their cause',
  'Any exception raised while an interpolator is created or evaluated surfaces as InterpolationError, any while intersecting as IntersectionError, and any while smoothing as SmoothingError except ValueError and TypeError, which pass unchanged; the original exception is kept as the cause. '
  'No failure is swallowed or replaced by a result.',
  'every registered method (built-in or custom) and every exception it raises',
  'No test makes a method fail.',
  [I, S, N], [('conversion', I + ' get_interpolator, InterpolatorBase.__call__; ' + S + ' smooth; ' + N + ' intersect')], ('inputs', 'fault_sequences'))
p('C19', 'Intersection results are self-consistent and keep the operand order',
  'Every reported intersection names the segment of the first operand first and of the second operand second, and a plain segment passed as operand is itself reported. '
  'A result is true exactly if its type is not NONE; NONE carries no data, EXACT a point, OVERLAP and ALMOST a segment, and building one with other data raises ValueError. '
  'The intersection point is the point itself or the midpoint of the segment, and the intersection segment is the segment itself or the degenerate segment at the point; both are None without intersection.',
  'every operand combination and every result of every method',
  'Tests read the intersection point only and never the segments of mixed curve/segment calls.',
  [N], [('result types', N + ' IntersectionType.__call__, SegmentsIntersection'), ('dispatch', N + ' IntersectionMethodBase.__call__')])
p('C20', 'The exact method reports only points common to both segments',
  'An EXACT intersection is reported only if the solved line parameters of both segments lie between 0 and 1 (within rounding) and the points at these parameters coincide within the tolerance; the reported point is the point at the solved parameter of the first segment. '
  'Collinear segments report their overlap or nothing; parallel non-collinear, non-coplanar and singular pairs report nothing.',
  'every pair of segments in any dimension',
  'About twenty hand-picked pairs are tested.',
  [N], [('corner cases, solve, acceptance', N + ' ExactIntersectionMethod._intersect_segments')])
p('C21', 'Curve intersection examines every relevant segment pair exactly once',
  'The exact method examines every pair of segments whose closed bounding boxes touch or overlap in all coordinates (touching within rounding counts) and reports exactly the intersecting ones, first-curve segment first. '
  'Self-intersection never reports a segment with itself or with a neighbour, and reports each other pair once. An empty curve intersects nothing.',
  'every pair of curves in any dimension, and every curve with itself',
  'Tests count intersections of a few smooth curves; touching boxes, degenerate boxes and orderings go unseen.',
  [N], [('bounding box filter', N + ' ExactIntersectionMethod._find_segments_bbox_intersection'), ('pair selection', N + ' IntersectionMethodBase._curves_intersect_indices')])
p('C22', 'The almost method honours its tolerances and options',
  'The almost method reports a pair of segments exactly if their shortest connecting segment is shorter than the distance tolerance, and reports that connecting segment, from the first operand to the second. '
  'Removing extra intersections keeps, of each group of intersections chained by distances below the extra tolerance, exactly one with the shortest connecting segment, and changes nothing else; overlap correction replaces only intersections of parallel overlapping segments by their overlap. Both are off unless requested.',
  'every pair of segments or curves and every option value',
  'Tests count results for four pairs of helices.',
  [N], [('almost method', N + ' AlmostIntersectionMethod')])
p('C23', 'Scalar and vectorised shortest-segment computations agree',
  'For every pair of segments the vectorised computation over whole curves yields the same line parameters as the computation for the single pair, for skew, parallel and singular segments alike, and its end points are the points of both segments at those parameters. '
  'The shortest segment runs from this segment to the other object.',
  'every pair of segments: every combination of parallel/non-parallel and of parameters before, inside and after each segment',
  'The vectorised routine is exercised only through counts of almost-intersections.',
  [G, B], [('siblings', G + ' segment_to_segment, segments_to_segments'), ('shortest segment', B + ' Segment.shortest_segment')])
p('C24', 'Segment geometry follows the line equation',
  'The point of a segment at parameter t is p1 + t (p2 - p1), for a single value and for a sequence of values alike, and more axes raise ValueError; direction, data, dimension, length, dot product, reversal, singularity and conversion to a curve are those of its two end points in order. '
  'The parameter of a point on the line of a segment is that t, and NaN with a warning off the line (a tolerance given decides what is on it). The nearest-point parameter to a point is clamped to the segment ends. The angle is the arccosine of the normalised dot product of the directions, limited to [-1, 1], or NaN with a warning for a singular segment, and angle and parallelism do not depend on the order of the segments.',
  'every segment or pair of segments in any dimension',
  'Tests use a few segments; sequences of parameters and most argument orders are untested.',
  [G, B], [('line equation', G + ' segment_point, segment_to_point'), ('angle, parallel', G + ' segments_angle, parallel_segments'), ('accessors', B + ' Segment')])
p('C25', 'Point arithmetic is coordinate-wise and refuses foreign operands',
  'For +, -, *, / and // with a point or a number on either side the result is a point holding the same operation on the coordinates with the operand order preserved; any other operand raises TypeError. '
  'The @ operator is the dot product (of points of one dimension) and the norm the Euclidean length. The distance applies the named metric, with the given options, to the coordinates of both points in order; every known metric name resolves to the metric of that name, an unknown name raises NameError and a non-callable metric TypeError.',
  'every operator, operand type and side, and every metric',
  'Ten operator cases and two metrics are tested.',
  [B, DI], [('operator dispatch', B + ' Point._op and operators'), ('metric table', DI + ' _METRICS, get_metric')])
p('C26', 'Equality, membership, search and counting share one notion of equal points',
  'Two points (curves, segments) are equal exactly if they have the same dimension and size and all coordinates are equal - exactly for integers, within rounding otherwise; comparison with an object of another kind is not an error and is unequal. '
  'A point is in a curve exactly if at least one row equals it, its count is the number of such rows and its index the first such row within the requested interval, counted from the start of the curve, or ValueError if there is none; a curve contains a sub-curve exactly if some run of consecutive points equals it.',
  'every pair of objects and every search interval',
  'Small integer-valued curves and non-negative intervals only.',
  [B, R], [('equality', B + ' Point.__eq__, Segment.__eq__, Curve.__eq__, __contains__, index, count; ' + R + ' isequal, allequal')])
p('C27', 'Results depend only on the arguments, not on hidden or global state',
  'Apart from the explicit registration functions and the setter of the default intersection method, no public operation changes module-level state, and none reads the clock, randomness, the environment or files. '
  'A method object or grid builder reused for several curves gives each the result a fresh one would give.',
  'every public operation and every history of calls',
  'Each test makes one call in a fresh process state; history dependence cannot show.',
  [B, D, N, I, S, G, U, DI, CU, R], [('module state', 'registries in ' + N + ', ' + I + ', ' + S), ('method objects', N + ' IntersectionMethodBase subclasses; ' + I + ' InterpolationGrid subclasses')], ('inputs', 'histories'))
p('C28', 'Predefined curves follow their parametric equations',
  'Each predefined curve (arc, lemniscate of Bernoulli, Archimedean spiral, Euler spiral, Lissajous, helix, irregular helix) has the requested number of points, is parametric with equally spaced parameter values over the requested range, and its coordinates are the documented or standard parametric equations at these values with every shape argument taken into account; an argument left out has its published default (for example an arc of 49 points of radius 1 about the origin over a full turn).',
  'every argument combination',
  'Factories only provide input for intersection tests with default shape arguments.',
  [CU], [('equations', CU)])
p('C29', 'Plotting uses the given axes and leaves the curve untouched',
  'Plotting a curve draws all its coordinates on the axes given (or on new axes of matching dimension), chained plots share the same axes and get their own settings, and plotting never changes the curve or the option mapping of the caller. '
  'A quantity shown as colour uses the colour map asked for, scaled from its smallest to its largest value, on the lines and on a labelled colour bar; normals are those of the curve (and are not dropped silently for space curves). '
  'Curves of more than three dimensions raise ValueError and a space curve on plane axes raises TypeError.',
  'every curve and every combination of plot options',
  'Plotting has no tests.',
  [P], [('plot class', P + ' CurvePlot')])
p('C30', 'Copies and conversions preserve what the object is',
  'Copying or deep-copying a point, curve point or curve gives an independent object of the same class with equal coordinates and the same dtype, dimension (also when empty), parameter vector, owning curve and index. '
  'Building a curve from another curve keeps its data, dtype unless overridden, and parametrization, ignoring with a warning a parameter vector or axis given in addition; sub-curves and edited curves keep the dtype and dimension of the source.',
  'every object, including empty, integer and parametric ones',
  'Copies are not tested; construction from a curve only for size and dtype.',
  [B], [('copy', B + ' __copy__, __deepcopy__, Curve.__init__')])
p('C37', 'Collinearity, coplanarity and overlap mean what they say',
  'A segment is collinear with its own ends, with itself and its reverse, and with every point or segment of its line, but with nothing that clearly leaves the line; it is coplanar with everything in two dimensions, with any single point, '
  'and with segments of a common plane, but not with those that clearly leave it. A tolerance given by the caller decides instead of the default. A curve is a plane curve exactly if all its points are coplanar; is2d, is3d and isspatial follow the dimension. '
  'The overlap of two segments of one line is their common part, whatever their order and orientation, and None if they are apart or, when asked to check, not collinear.',
  'every pair of segments, point and curve in any dimension', 'Tests use a few segments along the axes or diagonals of the plane.',
  [G, B], [('rank predicates and overlap', G + ' collinear_points, coplanar_points, overlap_segments; ' + B + ' Segment.collinear, coplanar, overlap, Curve.isplane, is2d, is3d, isspatial')])
p('C38', 'Points and curves behave as sequences of their data',
  'Length, truth, size and dimension of points and curves are those of their data. Indexing (positive and negative), iteration and reversed iteration of a point give its coordinates in order; those of a curve give curve points that belong to it, '
  'carry their index and coordinates in order; slices of a point are points. A curve of n points has n-1 segments (none for fewer than two points), segment i joining points i and i+1. Values by axis are the coordinate columns.',
  'every point and curve, including empty ones', 'Tests iterate over two or three small curves.',
  [B], [('sequence protocol', B + ' Point.__len__, __getitem__; Curve.__len__, __bool__, __getitem__, segments, values; Axis')])
p('C39', 'A nonsingular curve drops exactly the singular points',
  'The nonsingular version of a curve consists, in order, of exactly the points whose coordinates are all finite and that are not at numerically zero distance (numpy.isclose to zero) from the finite point before them; '
  'the first finite point always stays. Points that stay keep their coordinates, their type and, for a parametric curve, their parameter values; a curve without such points comes out unchanged, a curve without finite points comes out empty, and the source is left as it was.',
  'every curve of every size, dimension and type, with NaN and infinite coordinates and repeated points anywhere', 'One curve with one repeated point.',
  [D, B], [('nonsingular', D + ' nonsingular'), ('drop', B + ' Curve.drop')])
p('C40', 'A failed operation leaves everything as it was',
  'When a public operation raises an error, everything that existed before is as it was: the points, parameter values and reported quantities of the curves, points and segments involved, the arrays and lists handed in, the registries of methods and their default, '
  'and the options of method objects. A later valid operation gives what it would have given without the failed one. (What has been drawn on axes is not covered.)',
  'every operation that can fail, and every reason for failing', 'Tests look at the error only.',
  [B, N, I, S], [('editing', B + ' Curve.insert, append, delete, drop'), ('registries', I + ', ' + S + ', ' + N), ('grids', I)])
p('C41', 'An option that is left out has its documented default in every call',
  'Leaving out an optional argument gives what giving its documented default gives, whatever options earlier calls had, and giving one option leaves the others at their defaults. Defaults: euclidean metric (minkowski of order 2); float64 points and curves of lists, the type of the array for curves of arrays; '
  'sub-curves with their end point; unrounded angles; machine epsilon for parallelism; no check of collinearity in overlap; no interval in index; axes 0 and 1 of coorientplane; zeros for new dimensions; point-counting grids without extrapolation, linear speed grids; '
  'extrapolating linear, natural cubic, cubic (k=3) unsmoothed unweighted spline and smooth=1 unweighted csaps interpolation; savgol with deriv 0, delta 1, interp mode, window with hann and reflect, cval 0; the exact method; '
  'almost with dist_tol 1e-5, extra_tol 1e-3, parallel_tol machine epsilon, neither removal of extra intersections nor correction of overlaps; the published parameters of the predefined curves.',
  'every public operation with options, every input and every history of earlier calls', 'Tests give the options they need, and never compare with the call that leaves them out.',
  [B, I, S, N, CU], [('signatures', B + ', ' + I + ', ' + S + ', ' + N + ', ' + CU)], ('inputs', 'histories'))
# ---- not applicable for static analysis
p('C31', 'Discrete geometry converges to the continuous geometry',
  'As a smooth curve is sampled more densely, arc length, curvature, torsion and Frenet vectors converge to the continuous ones, and they do not depend on rotation, translation or (up to the proper power) scaling.',
  'every smooth curve and sampling', 'Only circles at one density.', [D], [('numerical gradients', D)])
p('C32', 'Interpolating methods reproduce the data points',
  'With default options every interpolation method returns the source points at the source parameter values, and the linear method stays on the polyline.',
  'every curve with distinct consecutive points', 'Straight lines only.', [I], [('interpolators', I)])
p('C33', 'Every true crossing of two curves is found',
  'Every transversal crossing of two polylines is reported by the exact method within rounding, and nothing else, independent of position, scale and orientation of the curves.',
  'every pair of polylines', 'A few counts.', [N], [('exact method', N)])
p('C34', 'The shortest segment is minimal',
  'No pair of points on two segments (or on a segment and a point) is closer than the end points of the shortest segment, within rounding.',
  'every pair of segments', 'Ten pairs.', [G], [('segment_to_segment', G)])
p('C35', 'Rank-based predicates are invariant under motions',
  'Collinearity and coplanarity of points do not depend on the order of the points or on translations and rotations, within rounding.',
  'every point set', 'A few sets near the origin.', [G], [('rank tests', G + ' collinear_points, coplanar_points')])
p('C36', 'A nonsingular curve has no vanishing segments',
  'The nonsingular version of a curve contains no NaN or infinite coordinates and no segment of numerically zero length, and all points that were unproblematic.',
  'every curve', 'One curve.', [D], [('nonsingular', D)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out), 'properties')
