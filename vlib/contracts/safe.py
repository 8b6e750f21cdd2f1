"""Contracts over floating-point numbers (vlib/prelude_fp.rs): C11, C12, and for C20 contracts that say only what freedom
from panics and termination need.

A functional mistake that cannot cause a panic leaves these obligations provable."""
from basic import CT
import bsp
import pt

KEEP = ("params", "dim_param", "consts", "src", "inherent", "rename", "impl_head", "self_param", "ret_type", "generics", "iters", "own_generics", "attrs", "tys", "where", "paths", "kinds", "tail_ty")


def slim(key, **kw):
    c = CT[key]
    o = {k: c[k] for k in KEEP if k in c}
    o.pop("params", None)
    o["hints"] = False
    o["auto_loops"] = True
    o["loops"] = {i: dict(desugar=True, kind="for") for i, a in c.get("loops", {}).items() if isinstance(a, dict) and a.get("desugar")}
    o.update(kw)
    return o


SAFE = {k: slim(k) for k in CT}
AX = dict(requires="axis < P::dim()", params=["axis", "t"])
for k in ("LineSegment::axis", "QuadraticBezier::axis", "CubicBezier::axis", "QuadraticBezier::dd", "CubicBezier::dd"):
    SAFE[k].update(requires=CT[k]["requires"], **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
for k in CT:
    if k.endswith("::bounding_box"):
        SAFE[k].update(requires="DIM == P::dim()")
    if k.startswith("BezierSegment::") and CT[k].get("requires"):
        SAFE[k].update(requires=CT[k]["requires"])
    if " for " in k or k.startswith("PointN"):
        if CT[k].get("muts") == ["res"]:
            SAFE[k].update(muts=["res"], loops={0: dict(kind="for", inv="forall|k: int| $i <= k < N ==> #[trigger] res.0@[k] == self.0@[k]")},
                           alts=[dict(shape=["for 0 .."], mk={"res": "arr:T"}, loops={0: dict(pt.OWN)})])
        # operators of PointN: elementwise operations of T must be defined
        if CT[k].get("requires"):
            SAFE[k].update(requires=CT[k]["requires"], **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
SAFE["LineSegment::root"].update(ensures="ret@.len() <= 1")
SAFE["QuadraticBezier::real_roots"].update(ensures="ret@.len() <= 2")
for k, n in (("QuadraticBezier::bounding_box", 1), ("CubicBezier::bounding_box", 2)):
    SAFE[k].update(muts=["bounds", "extrema"], loops={
        1: dict(kind="while", dec="pre__1@.len() - k__1", inv=f"k__1 <= pre__1@.len(), extrema@ == pre__1@, kept__1@.len() <= k__1, pre__1@.len() <= {n}"),
        2: dict(kind="while", dec="pre__2@.len() - k__2", inv="extrema@.len() == pre__2@.len(), k__2 <= pre__2@.len()")},
        alts=[dict(shape=["for 0 .. [1]", "for 0 .. [1]"], loops={1: dict(kind="for", before="let ghost base__ = extrema@.len();", inv=f"av__1@.len() <= {n}, base__ <= extrema@.len() <= $i + base__")}),
              dict(shape=["for 0 .. [1]", "for 0 .. [2]"], loops={}, muts=[]),
              dict(shape=["for 0 .. [1]", "while [2]", "while [2]", "for 0 .. [2]"])])
for k in list(CT):
    if k.startswith("Bezier::") or k.startswith("Spline for Bezier"):
        if CT[k].get("requires"):
            SAFE[k].update(requires=CT[k]["requires"])
SAFE["Bezier::derivative"].update(alts=[dict(shape=["for 0 .."], loops={})], loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= M - 1")})
for k, f in (("QuadraticBezier", "self.start.finite(), self.ctrl.finite(), self.end.finite()"), ("CubicBezier", "self.start.finite(), self.ctrl1.finite(), self.ctrl2.finite(), self.end.finite()")):
    SAFE[k + "::bounding_box"]["requires"] += ", " + f
    SAFE[k + "::eval_casteljau"].update(params=["t"], ensures="(" + f.replace(", ", " && ") + " && fin(t)) ==> ret.finite()")
    L = SAFE[k + "::bounding_box"]["loops"]
    L[1]["inv"] += ", forall|i: int| 0 <= i < kept__1@.len() ==> fin(#[trigger] kept__1@[i])"
    L[2]["inv"] += ", forall|i: int| 0 <= i < extrema@.len() ==> fin(#[trigger] extrema@[i])"
    SAFE[k + "::bounding_box"]["alts"][0]["loops"][1]["inv"] += ", forall|i: int| 0 <= i < extrema@.len() ==> fin(#[trigger] extrema@[i])"

# B-splines
SPEC_FP = """
pub type Sq = spec_fn(int) -> real;
pub open spec fn sorted(u: Sq, m: int) -> bool { forall|i: int, j: int| 0 <= i <= j < m ==> #[trigger] u(i) <= #[trigger] u(j) }
pub proof fn sorted_adj(u: Sq, m: int, i: int, j: int)
    requires forall|k: int| 0 <= k < m - 1 ==> #[trigger] u(k) <= u(k + 1), 0 <= i <= j < m,
    ensures u(i) <= u(j),
    decreases j - i
{ if i < j { sorted_adj(u, m, i, j - 1); assert(u(j - 1) <= u(j - 1 + 1)); } }
/// the comparison x <= y
pub open spec fn sle<S: Scalar>(x: S, y: S) -> bool { num(x) && num(y) && x.val() <= y.val() }
pub open spec fn kn<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> Sq { |i: int| if 0 <= i < K { s.knots@[i].val() } else { 0real } }
/// what construction establishes
pub open spec fn wf<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> bool { K == C + D + 1 && D < C && C < usize::MAX / 8 && nondecreasing(s) }
#[verifier::opaque]
pub open spec fn nondecreasing<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> bool { sorted(kn(s), K as int) && forall|i: int| 0 <= i < K ==> num(#[trigger] s.knots@[i]) }
pub proof fn kn_le<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, i: int, j: int)
    requires nondecreasing(s), 0 <= i <= j < K,
    ensures s.knots@[i].val() <= s.knots@[j].val(), num(s.knots@[i]), num(s.knots@[j]),
{ reveal(nondecreasing); assert(kn(s)(i) <= kn(s)(j)); }
pub open spec fn indom<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, t: real) -> bool { kn(s)(D as int) <= t <= kn(s)(C as int) }
"""
SORTED = "proof { reveal(nondecreasing); }"
FINITE = "forall|i: int| 0 <= i < K ==> fin(#[trigger] self.knots@[i])"


VALS = ["self.knots@[low as int].val() <= t.val(), t.val() < self.knots@[high + 1].val()",
        "self.knots@[first as int].val() <= t.val(), first + count == C ==> t.val() <= self.knots@[C as int].val(), first + count < C ==> t.val() < self.knots@[first + count].val()",
        "t.val() >= self.knots@[$i as int].val()", "t.val() >= self.knots@[first as int].val()", "$i < C ==> t.val() < self.knots@[$i as int].val()",
        bsp.SPANPOST]


def fp(s):
    """what a contract over the reals says of t is said of a t that is not NaN"""
    for v in VALS:
        w = ", ".join(f"(num(t) ==> ({x}))" for x in v.split(", "))
        s = s.replace(v, w)
    s = s.replace(", $i != C", ", num(t) ==> $i != C")
    s = s.replace("indom(*self, t.val())", "num(t) ==> indom(*self, t.val())")
    s = s.replace("(#[trigger] knots@[k]).val() <= knots@[k + 1].val()", "sle(#[trigger] knots@[k], knots@[k + 1])")
    s = s.replace("knots@[k].val() <= knots@[k + 1].val()", "sle(knots@[k], knots@[k + 1])")
    return s.replace("reveal(nondecreasing); let s = r__->Ok_0;", "reveal(nondecreasing); let s = r__->Ok_0; assert forall|i: int| 0 <= i < K implies num(#[trigger] knots@[i]) by { if i < K - 1 { assert(sle(knots@[i], knots@[i + 1])); } else { assert(sle(knots@[i - 1], knots@[i])); } }")


def deep(x):
    if isinstance(x, str):
        return fp(x)
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) if isinstance(v, dict) else v for v in x]
    return x


for k in CT:
    if k.startswith("BSpline::"):
        r = fp(CT[k].get("requires", ""))
        SAFE[k].update(requires=r, **({"params": CT[k]["params"]} if "params" in CT[k] else {}))
SAFE["BSpline::new"] = deep(dict(CT["BSpline::new"], ensures="ret matches Ok(s) ==> wf(s)"))
NUMDOM = "num(ret.0), num(ret.1)"
for x in ("knot_domain", "knot_domain_clamped", "knot_domain_clamped_start", "knot_domain_clamped_end", "knot_domain_unclamped"):
    SAFE[f"BSpline::{x}"].update(ensures=CT[f"BSpline::{x}"]["ensures"] + ", " + NUMDOM, start=SORTED)
SPAN = ["BSpline::knot_span_start_for_t" + x for x in ("", "_clamped", "_clamped_start", "_clamped_end", "_unclamped")]
for k in SPAN:
    SAFE[k] = deep(dict(CT[k], ensures="ret is Some ==> D <= ret->0 < C", hints=False))
SAFE["BSpline::de_boor_iterative"].update(
    muts=["k", "d"], start=SORTED, loops={0: dict(kind="while", dec="k", inv="D <= k < C"), 2: dict(kind="for", inv="D <= k < C"), 3: dict(kind="for", inv="D <= k < C")})
SAFE["BSpline::derivative"].update(alts=[dict(shape=["for 0 .."] * 2, loops={})], start=SORTED, loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= C - 2")})
SAFE["BSpline::arclen"].update(start=SORTED)

# C11, C12: what construction and evaluation say, NaN and infinities included
FPC = dict(SAFE)
FPC["BSpline::new"] = deep(CT["BSpline::new"])
for k in SPAN:
    FPC[k] = dict(SAFE[k], ensures="ret is Some ==> num(t), " + fp(CT[k]["ensures"]))
FPC["BSpline::de_boor_iterative"] = dict(
    SAFE["BSpline::de_boor_iterative"], requires=fp(CT["BSpline::de_boor_iterative"]["requires"]) + ", " + FINITE, ensures="num(t) ==> ret is Ok, !num(t) ==> ret == Err::<P, BSplineError>(BSplineError::KnotDomainViolation)",
    loops={0: dict(kind="while", dec="k", inv=bsp.SPANK, start="proof { kn_le(*self, k - 1, k as int); }"),
           2: dict(kind="for", inv="D <= k < C"), 3: dict(kind="for", inv="D <= k < C")})
FPC["BSpline::eval"] = dict(
    SAFE["BSpline::eval"], tail_ty=True, requires=CT["BSpline::eval"]["requires"] + ", " + FINITE, start=SORTED,
    ensures="(ret is Ok) == (num(t) && indom(*self, t.val())), ret is Err ==> ret == Err::<P, BSplineError>(BSplineError::KnotDomainViolation)")
