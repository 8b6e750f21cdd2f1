import json
P=[]
def prop(id,title,st,qtext,why,files,mech,over=("inputs",),observe=(),state=()):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=list(observe)
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
FR=" (all equalities up to floating-point rounding)"
prop("C01","Generic Bezier curves evaluate to the Bernstein combination of their points",
 "Evaluating a generic Bezier curve with n+1 control points at parameter t yields, in every coordinate, the sum of binom(n,i)·(1-t)^(n-i)·t^i times the i-th control point"+FR+". This holds for every number of control points from one upwards, every dimension and every t, and evaluation through the Spline trait gives the same point.",
 "all control point counts N>=1, all control points, all t (inside and outside [0,1]), all dimensions",
 "The tests evaluate degree 2, 3 and 5 at a handful of fixed planar curves; neither the degree nor the points nor t are quantified.",
 ["src/bezier.rs","src/spline.rs","src/point_generic.rs"],
 [("de Casteljau loop over a copy of the control points","Bezier::eval"),("trait forwarding","impl Spline for Bezier")],observe=["Bezier::eval","Spline::eval"])
prop("C02","Line, quadratic and cubic evaluation agree with the Bernstein polynomial",
 "For line segments, quadratic and cubic Bezier curves, direct evaluation, de Casteljau evaluation and single-axis sampling all yield the Bernstein polynomial of the control points at t"+FR+". Hence they agree with each other and with the generic curve built from the same control points.",
 "all control points, all t, all axes below the dimension, all dimensions",
 "Tests compare two evaluation methods on one fixed curve at 1001 parameters with the loose bound of a squared error; single-axis sampling is not tested at all.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/point_generic.rs"],
 [("polynomial form","eval"),("unrolled de Casteljau","eval_casteljau"),("per-axis polynomial","axis")],observe=["eval","eval_casteljau","axis"])
prop("C03","Splitting a Bezier curve reparametrises it without changing it",
 "Splitting any line segment, quadratic, cubic, generic Bezier curve or Bezier segment at t gives two curves of the same kind with left(s) = curve(t·s) and right(s) = curve(t + (1-t)·s) for every s"+FR+". In particular left starts where the curve starts, right ends where it ends, and both meet in the curve's point at t.",
 "all control points, all t and s, all degrees of the generic curve, all dimensions",
 "Tests split one fixed curve per type at t=0.5 only, where several wrong formulas are indistinguishable; line and segment splits are untested.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs","src/bezier_segment.rs"],
 [("de Casteljau triangle edges","split"),("dispatch","BezierSegment::split")],observe=["split","eval"])
prop("C04","Bezier derivative curves are the exact derivative",
 "The derivative of a line segment, quadratic, cubic or generic Bezier curve (the returned vector or curve of one degree less) evaluates at every t to the derivative of the curve with respect to t"+FR+". The direct per-axis derivative of quadratic and cubic curves equals the corresponding coordinate of the derivative curve at the same t.",
 "all control points, all t, all axes, all degrees of the generic curve",
 "No test evaluates a derivative curve or the direct derivative.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs"],
 [("scaled differences of control points","derivative"),("direct derivative polynomial","dd")],observe=["derivative","dd"])
prop("C05","Bezier curves interpolate their end points and stay within their control points",
 "Every Bezier curve (line, quadratic, cubic, generic, segment) yields its first control point at t=0 and its last one at t=1. For every t in [0,1] each coordinate of the evaluated point lies between the smallest and the largest value of that coordinate among the control points"+FR+".",
 "all control points, all t in [0,1], all degrees",
 "End points are tested for one generic curve; the range property is not tested.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs","src/bezier_segment.rs"],
 [("convex combinations","eval / eval_casteljau")],observe=["eval","eval_casteljau"])
prop("C06","Bounding boxes contain the curve and are tight",
 "For line segments, quadratic and cubic Bezier curves the bounding box has, per axis, a lower bound not above and an upper bound not below every coordinate the curve takes for t in [0,1], up to rounding and an absolute slack of a few machine epsilons. Both bounds are attained by the curve at some parameter in [0,1], so the box is the smallest one"+FR+".",
 "all finite control points of moderate magnitude, all axes, every t in [0,1], including curves whose extrema lie at the ends, inside, twice inside, or whose derivative degenerates to a lower degree",
 "Containment is tested for one quadratic and one cubic with tolerance 1e-2 in two dimensions; tightness is never tested; no degenerate derivative is tested.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs"],
 [("candidates: ends and roots of the derivative in (0,1)","bounding_box"),("root formulas","LineSegment::root, QuadraticBezier::real_roots")],observe=["bounding_box"])
prop("C07","Distance from a point to a line segment is the true minimum distance",
 "The distance reported between a line segment and a point is the minimum of the Euclidean distance over all points of the segment, ends included"+FR+". A segment whose squared length is below machine epsilon counts as its start point.",
 "all segments, all points, all dimensions, projections before, on and beyond the segment",
 "One axis-aligned segment in three dimensions is tested, with an inequality that holds vacuously for too small results.",
 ["src/line.rs","src/point_generic.rs"],
 [("clamped projection","LineSegment::distance_to_point")],observe=["LineSegment::distance_to_point"])
prop("C08","Curve-to-point distance is a sampled minimum over the curve",
 "For quadratic, cubic and generic Bezier curves the reported distance to a point is the distance to a point of the curve at some parameter in [0,1], hence never below the true distance"+FR+". It never exceeds the distance to the curve's point at any of the 65 parameters i/64, i = 0..64, both ends included.",
 "all control points, all query points, all degrees",
 "Tests only compare the distances of two query points with each other on one curve.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs"],
 [("coarse and fine sampling passes","distance_to_point")],observe=["distance_to_point"])
prop("C09","Bezier arc length is the length of the inscribed polyline",
 "For quadratic, cubic and generic Bezier curves the arc length with n steps (n >= 1) is the sum of the n chord lengths between the curve's points at i/n and (i+1)/n for i = 0..n-1"+FR+". It therefore covers the whole parameter interval exactly once; no chord is missing, doubled or of another width.",
 "all control points, all step counts n >= 1, all degrees",
 "One circle approximation with 1000 steps and tolerance 1e-2 is tested, which cannot see a missing or doubled chord.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs"],
 [("chord summation loop","arclen")],observe=["arclen"])
prop("C10","Flatness predicates mean what they say",
 "A quadratic or cubic curve is reported linear at a tolerance (zero or more) exactly when the squared distance of its ends is not below machine epsilon and every inner control point is within the tolerance of the segment between its ends. It is reported to be a point at a tolerance exactly when, within the tolerance, end and (first) inner control point coincide with the start and, for cubics, the second inner control point coincides with the end. The baseline is the segment from start to end, and a linear segment is always linear"+FR+".",
 "all control points, all tolerances >= 0",
 "The predicates and the baseline are never tested.",
 ["src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs","src/line.rs"],
 [("distance of control points to the baseline","is_linear, are_points_colinear"),("squared distances","is_a_point"),("end points","baseline")],observe=["is_linear","is_a_point","baseline"])
prop("C11","B-spline construction accepts exactly valid input and classifies errors",
 "Construction succeeds exactly when there are more control points than the degree, the number of knots equals control points plus degree plus one, and the knots are non-decreasing with no NaN (for two or more knots); the resulting curve carries the given knots and control points unchanged. Otherwise it reports the first violated condition in the order: too few control points, too few knots, too many knots, decreasing knots.",
 "all const parameters K, C, D and all knot values including NaN, infinities, equal neighbours and a single out-of-order pair anywhere",
 "Tests construct about a dozen valid splines and a few invalid counts; a single decreasing pair at an arbitrary position or NaN is not covered.",
 ["src/bspline.rs"],
 [("validation chain","BSpline::new")],observe=["BSpline::new","BSpline::knots","BSpline::control_points"])
prop("C12","B-spline evaluation succeeds exactly on the knot domain",
 "For a constructed B-spline of degree D with C control points and finite knots with finite differences, the knot domain is from knot number D to knot number C (counting from zero), whatever the clamping. Evaluation at t returns a point for every t of the closed domain and the domain-violation error for every other t, NaN and infinities included; it never panics and always terminates.",
 "all degrees, control point counts, non-decreasing finite knot vectors (any multiplicities, any mix of clamped and unclamped ends), all t",
 "Tests sample a few uniform or clamped knot vectors; repeated interior knots, half-clamped vectors and NaN parameters are not covered.",
 ["src/bspline.rs"],
 [("domain of each clamping kind","knot_domain*"),("range test","BSpline::eval"),("span searches","knot_span_start_for_t_*")],observe=["BSpline::eval","BSpline::knot_domain"])
prop("C13","B-spline evaluation equals the Cox-de Boor definition",
 "For every t of a non-empty knot domain the evaluated point equals the sum of the control points weighted with the Cox-de Boor basis functions of the curve's degree over its knots (0/0 taken as 0), the right end of the domain being the limit from the left"+FR+". Distinct knots, and t and any smaller knot, are taken to differ by at least machine epsilon.",
 "all degrees, control point counts, non-decreasing knot vectors including repeated interior knots and every clamping combination, all t of the domain",
 "Tests only check that evaluation succeeds on a grid and that clamped curves hit their end points; no inner value is compared with anything.",
 ["src/bspline.rs"],
 [("de Boor triangle","de_boor_iterative"),("span search","knot_span_start_for_t_*")],observe=["BSpline::eval"])
prop("C14","B-spline points depend only on, and stay within, the local control points",
 "For t in the knot span between knots k and k+1 (k from the degree D up to the number of control points minus one) the evaluated point is a convex combination of the D+1 control points k-D to k: each coordinate lies within their range, and no other control point influences it"+FR+". In particular a B-spline never leaves the coordinate range of its control points.",
 "all degrees, knots (arbitrarily close or repeated), control points, all t in the domain",
 "Not tested: no test compares evaluated coordinates with a control point range or perturbs control points.",
 ["src/bspline.rs"],
 [("alpha between 0 and 1 in every de Boor step","de_boor_iterative"),("copy of D+1 control points of the span","de_boor_iterative")],observe=["BSpline::eval"])
prop("C15","The derivative of a B-spline is the exact derivative on the same domain",
 "For a B-spline of degree at least one whose inner knots have multiplicity at most the degree, the derivative is a B-spline of one degree less with the outermost knot dropped at both ends and the same knot domain. It evaluates at every t of the domain to the derivative of the curve at t (from the right where one-sided derivatives differ, from the left at the right end)"+FR+".",
 "all degrees >= 1, control point counts, knot vectors with inner multiplicity at most the degree and every clamping combination, all t in the domain",
 "The derivative of a B-spline is never evaluated in any test.",
 ["src/bspline.rs"],
 [("scaled control point differences and trimmed knots","BSpline::derivative")],observe=["BSpline::derivative","BSpline::eval"])
prop("C16","B-spline arc length is the inscribed polyline over the knot domain",
 "The arc length of a B-spline with n steps (n >= 1) is the sum of the n chord lengths between its points at equally spaced parameters from the start to the end of its knot domain"+FR+". No parameter outside the domain is evaluated and no chord is left out, doubled or taken to the origin.",
 "all degrees, knots (domains of any position and length), control points, n >= 1",
 "The arc length of a B-spline is never tested.",
 ["src/bspline.rs"],
 [("chord summation over the domain","BSpline::arclen")],observe=["BSpline::arclen"])
prop("C17","A Bezier segment behaves as the curve it wraps",
 "A Bezier segment built from a line segment, quadratic or cubic curve evaluates, splits, reports its start, end and baseline, and (for quadratic and cubic) its linearity exactly as the wrapped curve does. Splitting keeps the kind of the curve.",
 "all wrapped curves of each kind, all parameters and tolerances",
 "Bezier segments are not covered by any test.",
 ["src/bezier_segment.rs"],
 [("match dispatch","BezierSegment methods"),("conversions","From impls")],over=("inputs","programs"),observe=["BezierSegment"])
prop("C18","PointN is a componentwise real vector space",
 "For PointN of any dimension, addition and subtraction of points or of a scalar, multiplication by a scalar, the default (zero) point and equality act on every component independently, and equality holds exactly when all components are equal. Axis access returns the component of that index, the squared length is the sum of the squared components, the declared dimension is the number of components, and iteration yields the components in order exactly once.",
 "all dimensions N >= 0, all component values, all indices below N",
 "Tests use points of two or three dimensions through curves only and with tolerances; most operations have no test of their own.",
 ["src/point_generic.rs","src/point.rs"],
 [("component loops","operator impls of PointN"),("axis, squared_length","impl Point for PointN")],over=("inputs","configurations"),observe=["PointN"])
prop("C19","Curves store their control points faithfully",
 "Constructing a line segment, quadratic, cubic, generic Bezier curve or B-spline stores the given points (and knots) bit for bit: control-point and knot accessors, the ends of a segment and by-value iteration give them back in order, each exactly once. Mutable iteration over a generic curve or a point visits every control point or component in order once and writes through, and observing a curve never changes it.",
 "all control points and knots, all sizes",
 "Accessors and iterators are not tested except as loop drivers.",
 ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs","src/bspline.rs","src/point_generic.rs"],
 [("constructors and accessors","new, control_points, knots"),("iterators","IntoIterator impls")],over=("inputs","histories"),observe=["control_points","knots","into_iter"])
prop("C20","No operation panics or hangs on finite input",
 "Every public operation of lines, quadratic, cubic and generic Bezier curves, segments, B-splines and points terminates without panicking for all finite inputs of moderate magnitude, axis indices below the dimension and any number of arc length steps. This includes coincident and collinear points, repeated knots, generic curves with one control point (whose derivative, having no points, is excluded), and zero steps. Generic curves without any control point are excluded.",
 "all finite inputs small enough that no intermediate result overflows, all const parameters the types admit",
 "Panics hide at particular degrees, knot multiplicities and degenerate curves that no test uses.",
 ["src/bezier.rs","src/bspline.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/line.rs","src/point_generic.rs","src/bezier_segment.rs"],
 [("index arithmetic within const-generic bounds","all loops"),("search loop termination","knot_span_start_for_t_*"),("comparison of candidates","bounding_box")],observe=["every public method"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
