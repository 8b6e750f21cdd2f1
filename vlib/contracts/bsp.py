"""B-splines (C11 to C16)."""
from basic import CT, LEMMAS

SPEC_BS = """
pub open spec fn kn<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> Sq { |i: int| if 0 <= i < K { s.knots@[i].val() } else { 0real } }
pub open spec fn cp<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, a: int) -> Sq { |i: int| if 0 <= i < C { s.control_points@[i].c(a) } else { 0real } }
/// what construction establishes
pub open spec fn wf<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> bool { K == C + D + 1 && D < C && C < usize::MAX / 8 && nondecreasing(s) }
#[verifier::opaque]
pub open spec fn nondecreasing<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> bool { sorted(kn(s), K as int) }
pub proof fn kn_le<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, i: int, j: int)
    requires nondecreasing(s), 0 <= i <= j < K,
    ensures s.knots@[i].val() <= s.knots@[j].val(),
{ reveal(nondecreasing); assert(kn(s)(i) <= kn(s)(j)); }
/// k, found by the search, is the span of t; a domain that is a single point counts as its first span
pub proof fn span_found<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, t: real, k: int)
    requires wf(s), indom(s, t), D <= k < C, kn(s)(k) <= t <= kn(s)(k + 1), t < kn(s)(k + 1) || t == kn(s)(C as int), k > D ==> kn(s)(k) != kn(s)(k + 1),
    ensures k == span_of(kn(s), D as int, C as int, t),
{
    reveal(nondecreasing);
    assert(kn(s)(D as int) <= kn(s)(k)); assert(kn(s)(k + 1) <= kn(s)(C as int));
    if kn(s)(D as int) == kn(s)(C as int) { span_empty(kn(s), D as int, C as int, K as int, t); if k > D { assert(false); } }
    else { if k == D && kn(s)(k) == kn(s)(k + 1) { assert(false); } span_is(kn(s), D as int, C as int, K as int, k, t); }
}
/// the curve
pub open spec fn bs_cv<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>) -> Cv { |a: int, t: real| bsval(kn(s), cp(s, a), D as nat, C as int, t) }
/// x is entry i of level r of the triangle
pub open spec fn entry<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, t: real, r: int, x: P, i: int) -> bool { forall|a: int| (#[trigger] x.c(a)) == db(kn(s), cp(s, a), t, D as nat, r as nat, i) }
pub proof fn entry_step<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, t: real, r: int, i: int, w: real, x: P, y: P, z: P)
    requires r >= 1, w == al(kn(s), t, i, i + D + 1 - r), entry(s, t, r - 1, x, i - 1), entry(s, t, r - 1, y, i), forall|a: int| (#[trigger] z.c(a)) == (0real - (w * x.c(a))) + (w * y.c(a)) + x.c(a),
    ensures entry(s, t, r, z, i),
{ assert forall|a: int| (#[trigger] z.c(a)) == db(kn(s), cp(s, a), t, D as nat, r as nat, i) by { db_step(kn(s), cp(s, a), t, D as nat, r as nat, i, w, x.c(a), y.c(a)); } }
pub open spec fn indom<P: Point, const K: usize, const C: usize, const D: usize>(s: BSpline<P, K, C, D>, t: real) -> bool { kn(s)(D as int) <= t <= kn(s)(C as int) }
"""
BS = "impl<P, const K: usize, const C: usize, const D: usize> BSpline<P, K, C, D> where P: Point"
CT["BSpline::new"] = dict(
    params=["knots", "control_points"], requires="C < usize::MAX / 8, D < usize::MAX / 8",
    ensures="C <= D ==> ret == Err::<BSpline<P, K, C, D>, BSplineError>(BSplineError::TooFewControlPoints), "
            "C > D && K < C + D + 1 ==> ret == Err::<BSpline<P, K, C, D>, BSplineError>(BSplineError::TooFewKnots), "
            "C > D && K > C + D + 1 ==> ret == Err::<BSpline<P, K, C, D>, BSplineError>(BSplineError::TooManyKnots), "
            "C > D && K == C + D + 1 ==> (ret is Ok) == (forall|k: int| 0 <= k < K - 1 ==> (#[trigger] knots@[k]).val() <= knots@[k + 1].val()), "
            "C > D && K == C + D + 1 && ret is Err ==> ret == Err::<BSpline<P, K, C, D>, BSplineError>(BSplineError::DecreasingKnots), "
            "ret matches Ok(s) ==> s.knots == knots && s.control_points == control_points && wf(s)",
    loops={0: dict(kind="while", dec="hi__1 - at__1", inv="0 <= at__1 <= hi__1, hi__1 == if K >= 2 { K - 1 } else { 0 }, all__1 ==> forall|k: int| 0 <= k < at__1 ==> (#[trigger] knots@[k]).val() <= knots@[k + 1].val(), "
                                                         "!all__1 ==> exists|k: int| 0 <= k < K - 1 && !((#[trigger] knots@[k]).val() <= knots@[k + 1].val())"),
           1: dict(kind="while", dec="hi__2 - at__2", inv="at__2 <= hi__2 <= K"),
           2: dict(kind="while", dec="hi__3 - at__3", inv="at__3 <= hi__3 <= K")},
    # the order of the knots looked at in a loop that leaves the constructor at the first descent
    alts=[dict(shape=[f"for {lo} .. exits", "while", "while"], loops={
        0: dict(kind="for", inv=f"forall|k: int| 0 <= k < $i - {lo} ==> (#[trigger] knots@[k]).val() <= knots@[k + 1].val()"),
        1: dict(kind="while", dec="hi__1 - at__1", inv="at__1 <= hi__1 <= K"),
        2: dict(kind="while", dec="hi__2 - at__2", inv="at__2 <= hi__2 <= K")}) for lo in (0, 1)],
    tail={"*": "if r__ is Ok { reveal(nondecreasing); let s = r__->Ok_0; assert forall|i: int, j: int| 0 <= i <= j < K implies #[trigger] kn(s)(i) <= #[trigger] kn(s)(j) by { "
               "assert forall|k: int| 0 <= k < K - 1 implies #[trigger] kn(s)(k) <= kn(s)(k + 1) by { assert(knots@[k].val() <= knots@[k + 1].val()); } sorted_adj(kn(s), K as int, i, j); } }"})
DOM = "ret.0.val() == kn(*self)(D as int), ret.1.val() == kn(*self)(C as int)"
for x in ("knot_domain", "knot_domain_clamped", "knot_domain_clamped_start", "knot_domain_clamped_end", "knot_domain_unclamped"):
    CT[f"BSpline::{x}"] = dict(requires="wf(*self)", ensures=DOM)
SPANPOST = "ret is Some, D <= ret->0 < C, kn(*self)(ret->0 as int) <= t.val(), t.val() < kn(*self)(ret->0 + 1) || (ret->0 + 1 == C && t.val() == kn(*self)(C as int))"
SORT = "proof { reveal(nondecreasing); assert forall|i: int, j: int| 0 <= i <= j < K implies (#[trigger] self.knots@[i]).val() <= (#[trigger] self.knots@[j]).val() by { assert(kn(*self)(i) <= kn(*self)(j)); } }"
SEARCH = dict(requires="wf(*self), indom(*self, t.val())", ensures=SPANPOST, params=["t"], start=SORT)
CT["BSpline::knot_span_start_for_t"] = dict(SEARCH)
BIN = dict(kind="while", dec="high + 1 - low", inv="low <= C, high < C, low <= high + 1, self.knots@[low as int].val() <= t.val(), t.val() < self.knots@[high + 1].val()")
# searching the spans one after the other
GE = "t.val() >= self.knots@[$i as int].val()"
LIN = [dict(shape=["for rev * ..* exits"], muts=[], loops={0: dict(kind="for", inv="$i <= C, $i < C ==> t.val() < self.knots@[$i as int].val()")}),
       dict(shape=["for * ..* exits"], muts=[], loops={0: dict(kind="for", inv=GE)}),
       dict(shape=["while"], muts=["first"], loops={0: dict(kind="while", dec="C - first", inv="D <= first, first < C, t.val() >= self.knots@[first as int].val()")})]
for x, mu in (("clamped", ["low", "high"]), ("clamped_start", ["low", "high"]), ("clamped_end", ["low", "high"])):
    CT[f"BSpline::knot_span_start_for_t_{x}"] = dict(SEARCH, alts=LIN, muts=mu, loops={0: dict(BIN, inv=BIN["inv"] + (", D <= low" if x != "clamped_end" else ""))})
CT["BSpline::knot_span_start_for_t_unclamped"] = dict(
    SEARCH, alts=[LIN[0], dict(LIN[1], loops={0: dict(kind="for", inv=GE + ", $i != C")}), LIN[2]], muts=["first", "step", "count"],
    loops={0: dict(kind="while", dec="count", inv="0 <= count <= C, D <= first, first + count <= C, self.knots@[first as int].val() <= t.val(), "
                                                "first + count == C ==> t.val() <= self.knots@[C as int].val(), first + count < C ==> t.val() < self.knots@[first + count].val(), first < C || false")})
SPANK = "D <= k < C, kn(*self)(k as int) <= t.val() <= kn(*self)(k + 1), t.val() < kn(*self)(k + 1) || t.val() == kn(*self)(C as int)"
CT["BSpline::de_boor_iterative"] = dict(
    params=["t"], consts={"D + 1": "DP1"}, where="", requires="wf(*self), indom(*self, t.val()), DP1 == D + 1",
    ensures="ret is Ok, on(ret->Ok_0, bs_cv(*self), t.val())",
    muts=["k", "d"],
    loops={0: dict(kind="while", dec="k", inv=SPANK, start="proof { kn_le(*self, k - 1, k as int); }"),
           1: dict(kind="for", before="proof { span_found(*self, t.val(), k as int); }",
                   inv="forall|q: int| 0 <= q < $i ==> #[trigger] d@[q] == self.control_points@[q + k - D]"),
           2: dict(kind="for", before="proof { assert forall|q: int| 0 <= q <= D implies entry(*self, t.val(), 0, #[trigger] d@[q], q + k - D) by { assert(d@[q] == self.control_points@[q + k - D]); } }",
                   inv="D <= k < C, forall|q: int| $i - 1 <= q <= D ==> entry(*self, t.val(), $i - 1, #[trigger] d@[q], q + k - D)"),
           3: dict(kind="for", inv="D <= k < C, forall|q: int| $i <= q <= D ==> entry(*self, t.val(), $o as int, #[trigger] d@[q], q + k - D), "
                                   "forall|q: int| $o - 1 <= q < $i ==> entry(*self, t.val(), $o - 1, #[trigger] d@[q], q + k - D)",
                   start="let ghost dd = d;",
                   end="proof { let i = $i + k - D; entry_step(*self, t.val(), $o as int, i, alpha.val(), dd@[$i - 1], dd@[$i as int], d@[$i as int]); }")},
    tail={"*": ""})
CT["BSpline::eval"] = dict(
    tail_ty=True, params=["t"], consts={"D + 1": "DP1"}, where="", requires="wf(*self), DP1 == D + 1",
    ensures="(ret is Ok) == indom(*self, t.val()), ret is Err ==> ret == Err::<P, BSplineError>(BSplineError::KnotDomainViolation), ret is Ok ==> on(ret->Ok_0, bs_cv(*self), t.val())")
BASE = ["BSpline::" + x for x in ("knot_domain", "knot_domain_clamped", "knot_domain_clamped_start", "knot_domain_clamped_end", "knot_domain_unclamped",
                                  "knot_span_start_for_t", "knot_span_start_for_t_clamped", "knot_span_start_for_t_clamped_start", "knot_span_start_for_t_clamped_end", "knot_span_start_for_t_unclamped",
                                  "de_boor_iterative", "eval")]
STRUCTS = ["KnotVectorKind", "BSplineError", "BSpline"]
SPEC_DER = """
/// r is the derivative of s: at every parameter of the domain its value is the (formal) derivative of the polynomial piece of the parameter's span
pub open spec fn is_derivative<P: Point, const K: usize, const C: usize, const D: usize, const K2: usize, const C1: usize, const D1: usize>(s: BSpline<P, K, C, D>, r: BSpline<P, K2, C1, D1>) -> bool {
    forall|a: int, t: real| indom(s, t) && sep(kn(s), K as int, t) ==> (#[trigger] bs_cv(r)(a, t)) == ddb(kn(s), cp(s, a), t, D as nat, D as nat, span_of(kn(s), D as int, C as int, t))
        && inspan(kn(s), D as int, C as int, span_of(kn(s), D as int, C as int, t), t)
        && deriv_at(piece(kn(s), cp(s, a), D as nat, span_of(kn(s), D as int, C as int, t)), 0, t, bs_cv(r)(a, t))
}
pub proof fn derivative_all<P: Point, const K: usize, const C: usize, const D: usize, const K2: usize, const C1: usize, const D1: usize>(s: BSpline<P, K, C, D>, r: BSpline<P, K2, C1, D1>)
    requires wf(s), D >= 1, K2 == K - 2, C1 == C - 1, D1 == D - 1, kn(s)(D as int) < kn(s)(C as int),
        forall|i: int| 0 <= i < K2 ==> #[trigger] r.knots@[i] == s.knots@[i + 1],
        forall|a: int, i: int| 0 <= i < C1 ==> (#[trigger] r.control_points@[i].c(a)) == dpts(kn(s), cp(s, a), D as nat)(i),
    ensures is_derivative(s, r),
{
    reveal(nondecreasing);
    assert forall|a: int, t: real| indom(s, t) && sep(kn(s), K as int, t) implies (#[trigger] bs_cv(r)(a, t)) == ddb(kn(s), cp(s, a), t, D as nat, D as nat, span_of(kn(s), D as int, C as int, t))
        && inspan(kn(s), D as int, C as int, span_of(kn(s), D as int, C as int, t), t)
        && deriv_at(piece(kn(s), cp(s, a), D as nat, span_of(kn(s), D as int, C as int, t)), 0, t, bs_cv(r)(a, t)) by {
        assert forall|i: int| 0 <= i <= C + D - 2 implies #[trigger] shift(kn(s))(i) == kn(r)(i) by { assert(r.knots@[i] == s.knots@[i + 1]); }
        assert forall|i: int| 0 <= i <= C - 2 implies #[trigger] dpts(kn(s), cp(s, a), D as nat)(i) == cp(r, a)(i) by { assert(r.control_points@[i].c(a) == dpts(kn(s), cp(s, a), D as nat)(i)); }
        derivative_value(kn(s), cp(s, a), kn(r), cp(r, a), D as nat, C as int, t);
        let k = span_of(kn(s), D as int, C as int, t);
        regular_span(kn(s), D as nat, C as int, k);
        piece_deriv(kn(s), cp(s, a), D as nat, k, t);
    }
}
"""
DPTS = "(#[trigger] new_points@[i].c(a)) == dpts(kn(*self), cp(*self, a), D as nat)(i)"
CT["BSpline::derivative"] = dict(
    mkinds=dict(new_points="arr:pt", new_knots="arr:num"),
    alts=[dict(shape=["for 0 .."] * 2, about=["new_knots", "new_points"], loops={0: dict(kind="for", inv="forall|q: int| 0 <= q < $i ==> #[trigger] new_knots@[q] == self.knots@[q + 1]"),
                                              1: dict(kind="for", inv=f"forall|q: int| 0 <= q < K2 ==> #[trigger] new_knots@[q] == self.knots@[q + 1], forall|a: int, i: int| 0 <= i < $i ==> {DPTS}")}),
          dict(shape=["for 0 .."] * 2, loops={0: dict(kind="for", inv=f"forall|a: int, i: int| 0 <= i < $i ==> {DPTS}"),
                                              1: dict(kind="for", inv="forall|q: int| 0 <= q < $i ==> #[trigger] new_knots@[q] == self.knots@[q + 1]")})],
    attrs=["loop_isolation(false)", "allow_complex_invariants"],
    consts={"K - 2": "K2", "C - 1": "C1", "D - 1": "D1"}, muts=["new_points", "new_knots"], requires="wf(*self), D >= 1, K2 == K - 2, C1 == C - 1, D1 == D - 1",
    ensures="wf(ret), kn(ret)(D1 as int) == kn(*self)(D as int), kn(ret)(C1 as int) == kn(*self)(C as int), "
            "forall|i: int| 0 <= i < K2 ==> #[trigger] ret.knots@[i] == self.knots@[i + 1], "
            "forall|a: int, i: int| 0 <= i < C1 ==> (#[trigger] ret.control_points@[i].c(a)) == dpts(kn(*self), cp(*self, a), D as nat)(i), "
            "kn(*self)(D as int) < kn(*self)(C as int) ==> is_derivative(*self, ret)",
    loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= C - 2",
                   ens="forall|a: int, i: int| 0 <= i < C1 ==> (#[trigger] new_points@[i].c(a)) == dpts(kn(*self), cp(*self, a), D as nat)(i)",
                   inv="forall|a: int, i: int| 0 <= i < $i && i < C1 ==> (#[trigger] new_points@[i].c(a)) == dpts(kn(*self), cp(*self, a), D as nat)(i)"),
           1: dict(kind="for", inv="forall|q: int| 0 <= q < $i ==> #[trigger] new_knots@[q] == self.knots@[q + 1]")},
    tail="""
        reveal(nondecreasing);
        assert forall|i: int| 0 <= i < K2 implies #[trigger] kn(r__)(i) == kn(*self)(i + 1) by { assert(r__.knots@[i] == self.knots@[i + 1]); }
        if kn(*self)(D as int) < kn(*self)(C as int) { derivative_all(*self, r__); }""")
PL = "arclen.val() == polylen(bs_cv(*self), kn(*self)(D as int), kn(*self)(C as int), $i as nat, nsteps as int, P::dim())"
PD = "proof { par_dom(kn(*self)(D as int), kn(*self)(C as int), $i as int, nsteps as int); par_dom(kn(*self)(D as int), kn(*self)(C as int), $i + 1, nsteps as int); }"
CT["BSpline::arclen"] = dict(
    alts=[dict(shape=["for * ..* [2]"], base=["for 0 .."], muts=["arclen", "previous"], mkinds=dict(arclen="num", previous="pt"),
               loops={0: dict(kind="for", start=PD, inv=PL + ", nsteps > 0 ==> on(previous, bs_cv(*self), par(kn(*self)(D as int), kn(*self)(C as int), $i as int, nsteps as int))",
                              before="proof { if nsteps > 0 { par_dom(kn(*self)(D as int), kn(*self)(C as int), 0, nsteps as int); let (n__, w__) = (nsteps as real, kn(*self)(C as int) - kn(*self)(D as int)); assert(w__ * ((0int as real) / n__) == 0real) by(nonlinear_arith) requires n__ > 0real; } }")})],
    params=["nsteps"], consts={"D + 1": "DP1"}, where="", requires="wf(*self), DP1 == D + 1", muts=["arclen"],
    ensures="ret.val() == polylen(bs_cv(*self), kn(*self)(D as int), kn(*self)(C as int), nsteps as nat, nsteps as int, P::dim())",
    start="proof { kn_le(*self, D as int, C as int); }",
    loops={0: dict(kind="for", inv="arclen.val() == polylen(bs_cv(*self), kn(*self)(D as int), kn(*self)(C as int), $i as nat, nsteps as int, P::dim())",
                   start="proof { par_dom(kn(*self)(D as int), kn(*self)(C as int), $i as int, nsteps as int); par_dom(kn(*self)(D as int), kn(*self)(C as int), $i + 1, nsteps as int); }")})
C13 = {"BSpline::eval": dict(
    ensures="ret is Ok && kn(*self)(D as int) < kn(*self)(C as int) && sep(kn(*self), K as int, t.val()) ==> forall|a: int| 0 <= a < P::dim() ==> "
            "(#[trigger] ret->Ok_0.c(a)) == coxsum(kn(*self), cp(*self, a), t.val(), t.val() == kn(*self)(C as int), D as nat, C as nat)",
    tail="if r__ is Ok && kn(*self)(D as int) < kn(*self)(C as int) && sep(kn(*self), K as int, t.val()) { assert forall|a: int| 0 <= a < P::dim() implies "
               "(#[trigger] r__->Ok_0.c(a)) == coxsum(kn(*self), cp(*self, a), t.val(), t.val() == kn(*self)(C as int), D as nat, C as nat) by { reveal(nondecreasing); bsval_cox(kn(*self), cp(*self, a), D as nat, C as int, t.val()); } }")}
C14 = {"BSpline::eval": dict(
    ensures="ret is Ok ==> forall|a: int, k: int, lo: real, hi: real| #![trigger inspan(kn(*self), D as int, C as int, k, t.val()), within(cp(*self, a), k - D, k, lo, hi)] 0 <= a < P::dim() && inspan(kn(*self), D as int, C as int, k, t.val()) && within(cp(*self, a), k - D, k, lo, hi) ==> lo <= ret->Ok_0.c(a) <= hi, "
            "ret is Ok ==> forall|a: int, k: int, g: Sq| #![trigger inspan(kn(*self), D as int, C as int, k, t.val()), agree(cp(*self, a), g, k - D, k)] 0 <= a < P::dim() && inspan(kn(*self), D as int, C as int, k, t.val()) && agree(cp(*self, a), g, k - D, k) ==> ret->Ok_0.c(a) == bsval(kn(*self), g, D as nat, C as int, t.val()), "
            "ret is Ok ==> forall|a: int, lo: real, hi: real| 0 <= a < P::dim() && #[trigger] within(cp(*self, a), 0, C - 1, lo, hi) ==> lo <= ret->Ok_0.c(a) <= hi",
    tail="""if r__ is Ok {
        assert forall|a: int, k: int, lo: real, hi: real| #![trigger inspan(kn(*self), D as int, C as int, k, t.val()), within(cp(*self, a), k - D, k, lo, hi)] 0 <= a < P::dim() && inspan(kn(*self), D as int, C as int, k, t.val()) && within(cp(*self, a), k - D, k, lo, hi) implies lo <= r__->Ok_0.c(a) <= hi by { reveal(nondecreasing); bsval_local(kn(*self), cp(*self, a), D as nat, C as int, k, t.val()); }
        assert forall|a: int, k: int, g: Sq| #![trigger inspan(kn(*self), D as int, C as int, k, t.val()), agree(cp(*self, a), g, k - D, k)] 0 <= a < P::dim() && inspan(kn(*self), D as int, C as int, k, t.val()) && agree(cp(*self, a), g, k - D, k) implies r__->Ok_0.c(a) == bsval(kn(*self), g, D as nat, C as int, t.val()) by { reveal(nondecreasing); bsval_local(kn(*self), cp(*self, a), D as nat, C as int, k, t.val()); }
        assert forall|a: int, lo: real, hi: real| 0 <= a < P::dim() && #[trigger] within(cp(*self, a), 0, C - 1, lo, hi) implies lo <= r__->Ok_0.c(a) <= hi by { reveal(nondecreasing); bsval_range(kn(*self), cp(*self, a), D as nat, C as int, t.val(), lo, hi); } }""")}
