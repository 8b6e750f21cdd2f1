"""Trusted base and unchecked assumptions, reported in the evidence."""

COMMON = [
    "Verus and Z3 (soundness of the verifier and the solver)",
    "the extraction: vlib/rustparse.py, the fixed rewrites R1-R20 (listed at the top of vlib/vgen.py and in vlib/norm.py), inlining of functions without contract (R8)",
    "vlib/prelude.rs: NativeFloat is a ghost real; the laws of the traits Scalar (num_traits::Float and the operators the library asks for) and Point (operators act componentwise, squared_length is the sum of the squared components, DIM is the number of components)",
    "vlib/prelude.rs axioms: axiom_sqrt (non-negative reals have a non-negative root), axiom_reflexive_from (core's From<T> for T); external_body: comparison of ghost reals, vpanic (requires false)",
    "derived Clone/Copy are bitwise copies; EPSILON is 2^-52 for every scalar type",
]
FP = [COMMON[0], COMMON[1],
      "vlib/prelude_fp.rs: laws of floating-point numbers as far as they are used: comparisons (NaN unordered, everything else totally ordered), no overflow of sums, differences and products of finite numbers (C20: moderate magnitude), a quotient of finite numbers is not NaN for a divisor other than zero and finite for one of at least EPSILON, 0 and 1 exact; the traits Scalar and Point over them; axiom_big, axiom_arith, axiom_reflexive_from; external_body operators of NativeFloat, vpanic (requires false)",
      COMMON[4]]
FPS = ("C11", "C12", "C20")
GEOM = "NaN, infinities, rounding and overflow are outside the proof: scalars are exact reals (the replay harness runs the real f64 code)"
FLOATS = "scalars are floating-point numbers here: an operation may give any value, NaN included, except where vlib/prelude_fp.rs has a law; NaN and infinities are inside the proof, rounding too (no operation has an exact value)"
SIZES = "sizes: fewer than usize::MAX/8 control points of a B-spline, fewer than usize::MAX points of a generic curve"
SORT = "vlib/avec.rs: contract of slice::sort_unstable_by (sorted permutation under a total order); tinyvec's ArrayVec is the list of at most CAP values specified there (push/extend beyond CAP is a failing precondition)"
ITER = "vlib/contracts/pt.py: core's array iterators (iter, iter_mut, into_iter) visit the elements in order, each exactly once"
ARR = "vlib/contracts/pt.py axiom arr_any: for every N and every function there is an array of N values with these elements"

EXTRA = {
    "C01": dict(assume=[SIZES]), "C03": dict(assume=[SIZES]), "C04": dict(assume=[SIZES]), "C05": dict(assume=[SIZES]), "C08": dict(assume=[SIZES]), "C09": dict(assume=[SIZES]),
    "C06": dict(base=[SORT]),
    "C11": dict(assume=[SIZES]), "C12": dict(assume=[SIZES, "knots finite with finite differences, as the property says"]),
    "C13": dict(assume=[SIZES, "the Cox-de Boor comparison is stated where `sep` holds: t and every smaller knot, and distinct knots, differ by at least the machine epsilon, as the property says"]),
    "C14": dict(assume=[SIZES]),
    "C15": dict(assume=[SIZES, "stated where `sep` holds (see C13) and for a domain that is not a single point"]),
    "C16": dict(assume=[SIZES]),
    "C18": dict(base=[ITER, ARR]),
    "C19": dict(base=[ITER], assume=[SIZES]),
    "C20": dict(base=[SORT, ITER], assume=[SIZES, "contracts for safety only: bounds, overflow of usize, unwrap, panics and loop variants are obligations; values are not",
                                           "not under contract: the private, unused CubicBezier::real_roots, QuadraticBezier::solve_t_for_axis, CubicBezier::solve_t_for_axis and module roots; Display of BSplineError (run by the harness)"]),
}


def base(pid):
    return (FP if pid in FPS else COMMON) + EXTRA.get(pid, {}).get("base", [])


def assumptions(pid):
    return [FLOATS if pid in FPS else GEOM, "usize arithmetic is machine arithmetic: overflow of loop counters and indices is an obligation"] + EXTRA.get(pid, {}).get("assume", [])

NOTE = {}
