"""Generic Bezier curves."""
from basic import CT, DEFS, LEMMAS
import metric

SPEC = """
pub open spec fn bz<P: Point, const N: usize>(s: [P; N], a: int) -> Sq { |j: int| if 0 <= j < N { s@[j].c(a) } else { 0real } }
pub open spec fn bez_cv<P: Point, const N: usize>(s: Bezier<P, N>) -> Cv { |a: int, t: real| dc(bz(s.control_points, a), t, (N - 1) as nat, 0) }
/// levels of the triangle finished when the loop variable of `1..=N` is i
pub open spec fn lv(n: usize, i: usize) -> nat { if i <= n { (i - 1) as nat } else { (n - 1) as nat } }
pub broadcast proof fn arr_len<P, const N: usize>(s: [P; N]) ensures #[trigger] s@.len() == N { }
"""
CT["Bezier::new"] = dict(params=["control_points"], ensures="ret.control_points == control_points")
CT["Bezier::control_points"] = dict(ensures="ret == self.control_points")
CT["Bezier::eval"] = dict(
    params=["t"], muts=["p"], requires="1 <= N < usize::MAX",
    ensures="on(ret, bez_cv(*self), t.val()), "
            "forall|a: int| #[trigger] ret.c(a) == bernstein(bz(self.control_points, a), (N - 1) as nat, t.val(), N as nat)",
    loops={0: dict(kind="for", itname="it0", inv="forall|a: int, k: int| 0 <= k < N - lv(N, $i) ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), lv(N, $i), k)"),
           1: dict(kind="for", inv="forall|a: int, k: int| $i <= k <= N - $o && k < N ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), ($o - 1) as nat, k), "
                               "forall|a: int, k: int| 0 <= k < $i && k < N - $o ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), $o as nat, k)",
                   end="proof { assert forall|a: int| (#[trigger] p@[$i as int].c(a)) == dc(bz(self.control_points, a), t.val(), $o as nat, $i as int) by { lerp_forms(dc(bz(self.control_points, a), t.val(), ($o - 1) as nat, $i as int), dc(bz(self.control_points, a), t.val(), ($o - 1) as nat, $i as int + 1), t.val()); } }",
                   after="proof { if $o == N { assert forall|a: int, k: int| 0 <= k < N - lv(N, ($o + 1) as usize) implies (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), lv(N, ($o + 1) as usize), k) by { } } }")},
    # counting the points that are left downwards
    alts=[dict(shape=["for rev 1 ..*", "for 0 .."],
               loops={0: dict(kind="for", inv="1 <= $i <= N, forall|a: int, k: int| 0 <= k < $i ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - $i) as nat, k)"),
                      1: dict(kind="for", inv="forall|a: int, k: int| $i <= k <= $o ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - $o - 1) as nat, k), "
                                              "forall|a: int, k: int| 0 <= k < $i ==> (#[trigger] p@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - $o) as nat, k)")})],
    tail="""assert forall|a: int| #[trigger] r__.c(a) == bernstein(bz(self.control_points, a), (N - 1) as nat, t.val(), N as nat) by {
        dc_bsum(bz(self.control_points, a), t.val(), (N - 1) as nat, 0); bsum_bernstein(bz(self.control_points, a), (N - 1) as nat, t.val(), N as nat); }""")

CT["Bezier::split"] = dict(
    params=["t"], muts=["left", "right", "casteljau_points"], requires="1 <= N < usize::MAX",
    ensures="forall|a: int, k: int| 0 <= k < N ==> (#[trigger] ret.0.control_points@[k].c(a)) == left_pts(bz(self.control_points, a), t.val())(k), "
            "forall|a: int, k: int| 0 <= k < N ==> (#[trigger] ret.1.control_points@[k].c(a)) == right_pts(bz(self.control_points, a), t.val(), N - 1)(k), "
            "forall|a: int, s: real| #[trigger] dc(bz(ret.0.control_points, a), s, (N - 1) as nat, 0) == dc(bz(self.control_points, a), t.val() * s, (N - 1) as nat, 0), "
            "forall|a: int, s: real| #[trigger] dc(bz(ret.1.control_points, a), s, (N - 1) as nat, 0) == dc(bz(self.control_points, a), t.val() + (1real - t.val()) * s, (N - 1) as nat, 0), "
            "ret.0.control_points@[0].c(0) == self.control_points@[0].c(0)",
    loops={0: dict(kind="for", inv="forall|a: int, k: int| 0 <= k < N - lv(N, $i) ==> (#[trigger] casteljau_points@[k].c(a)) == dc(bz(self.control_points, a), t.val(), lv(N, $i), k), "
                                   "forall|a: int, k: int| N - $i <= k < N && 0 <= k ==> (#[trigger] casteljau_points@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - 1 - k) as nat, k), "
                                   "forall|a: int, k: int| 0 <= k < $i - 1 ==> (#[trigger] left@[k].c(a)) == dc(bz(self.control_points, a), t.val(), k as nat, 0), "
                                   "forall|a: int, k: int| N - $i < k < N ==> (#[trigger] right@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - 1 - k) as nat, k)"),
           1: dict(kind="for", inv="forall|a: int, k: int| $i <= k <= N - $o ==> (#[trigger] casteljau_points@[k].c(a)) == dc(bz(self.control_points, a), t.val(), ($o - 1) as nat, k), "
                                   "forall|a: int, k: int| N - $o <= k < N ==> (#[trigger] casteljau_points@[k].c(a)) == dc(bz(self.control_points, a), t.val(), (N - 1 - k) as nat, k), "
                                   "forall|a: int, k: int| 0 <= k < $i ==> (#[trigger] casteljau_points@[k].c(a)) == dc(bz(self.control_points, a), t.val(), $o as nat, k)")},
    tail="""
        let n = (N - 1) as nat;
        let tv = t.val();
        assert forall|a: int, s: real| #[trigger] dc(bz(r__.0.control_points, a), s, n, 0) == dc(bz(self.control_points, a), tv * s, n, 0) by {
            let f = bz(self.control_points, a);
            dc_ext(bz(r__.0.control_points, a), left_pts(f, tv), s, n, 0);
            split_left(f, tv, s, n, 0);
            dc_ext(pw(f, tv, 0), f, tv * s, n, 0);
        }
        assert forall|a: int, s: real| #[trigger] dc(bz(r__.1.control_points, a), s, n, 0) == dc(bz(self.control_points, a), tv + (1real - tv) * s, n, 0) by {
            let f = bz(self.control_points, a);
            dc_ext(bz(r__.1.control_points, a), right_pts(f, tv, N - 1), s, n, 0);
            split_right(f, tv, s, N - 1, n, 0);
        }""")
DPTS = "(#[trigger] new_points@[k].c(a)) == delta(bz(self.control_points, a))(k) * (M as real)"
CT["Bezier::derivative"] = dict(
    # over the range of the new points
    alts=[dict(shape=["for 0 .."], loops={0: dict(kind="for", inv=f"forall|a: int, k: int| 0 <= k < $i ==> {DPTS}")})],
    attrs=["loop_isolation(false)", "allow_complex_invariants"], consts={"N - 1": "M"}, requires="2 <= N < usize::MAX, N == M + 1", muts=["new_points"], tys={"new_points": "[P; M]"},
    ensures="forall|a: int, k: int| 0 <= k < M ==> (#[trigger] ret.control_points@[k].c(a)) == delta(bz(self.control_points, a))(k) * (M as real), "
            "forall|a: int, t: real| #[trigger] dc(bz(ret.control_points, a), t, (M - 1) as nat, 0) == ddc(bz(self.control_points, a), t, M as nat, 0)",
    loops={0: dict(kind="for", desugar=True, inv_except_break="$i <= M - 1",
                    ens="forall|a: int, k: int| 0 <= k < M ==> (#[trigger] new_points@[k].c(a)) == delta(bz(self.control_points, a))(k) * (M as real)",
                    inv="forall|a: int, k: int| 0 <= k < $i && k < M ==> (#[trigger] new_points@[k].c(a)) == delta(bz(self.control_points, a))(k) * (M as real)")},
    tail="""
        assert forall|a: int, t: real| #[trigger] dc(bz(r__.control_points, a), t, (M - 1) as nat, 0) == ddc(bz(self.control_points, a), t, M as nat, 0) by {
            let f = bz(self.control_points, a);
            dc_lin(delta(f), delta(f), bz(r__.control_points, a), M as real, 0real, t, (M - 1) as nat, 0);
            ddc_formula(f, t, M as nat, 0);
        }""")
AT0 = "assert(on(self.control_points@[0], bez_cv(*self), 0real)) by { assert forall|a: int| dc(bz(self.control_points, a), 0real, (N - 1) as nat, 0) == self.control_points@[0].c(a) by { dc_at0(bz(self.control_points, a), (N - 1) as nat, 0); } }"
CT["Bezier::distance_to_point"] = dict(metric.dist_contract("bez_cv(*self)", AT0), requires="1 <= N < usize::MAX")
CT["Bezier::arclen"] = dict(metric.arclen_contract("bez_cv(*self)", AT0), requires="1 <= N < usize::MAX")

# C01: the trait forwards
CT["Spline for Bezier::eval"] = dict(src="Spline<P> for Bezier::eval", inherent=True, rename="spline_eval", params=["t"], requires=CT["Bezier::eval"]["requires"], ensures=CT["Bezier::eval"]["ensures"])

# ------------------------------------------------------------------ C04: the derivative by its definition
import ring as RG


def L_quad(ring):
    return (RG.spec_lemma(ring, DEFS, "taylor_quad", ["a", "b", "c", "t", "h"], "quad(a,b,c,t+h)", "quad(a,b,c,t) + h*dquad(a,b,c,t) + h*(h*(a-2.0*b+c))")
            + """pub proof fn deriv_quad(cv: Cv, i: int, a: real, b: real, c: real, t: real)
    requires forall|x: real| #[trigger] cv(i, x) == quad(a, b, c, x),
    ensures deriv_at(cv, i, t, dquad(a, b, c, t)),
{
    let r = a - 2real * b + c;
    assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rem1(cv, i, t, dquad(a, b, c, t), h)) <= rabs(r) * (h * h) by { taylor_quad(a, b, c, t, h); rem_bound(h, r, rabs(r)); }
    deriv_taylor(cv, i, t, dquad(a, b, c, t), rabs(r));
}
""")


def L_cub(ring):
    return (RG.spec_lemma(ring, DEFS, "taylor_cub", ["a", "b", "c", "d", "t", "h"], "cub(a,b,c,d,t+h)",
                          "cub(a,b,c,d,t) + h*dcub(a,b,c,d,t) + h*(h*((3.0*(a-2.0*b+c))*(1.0-t) + (3.0*(b-2.0*c+d))*t + h*(d-3.0*c+3.0*b-a)))")
            + """pub proof fn deriv_cub(cv: Cv, i: int, a: real, b: real, c: real, d: real, t: real)
    requires forall|x: real| #[trigger] cv(i, x) == cub(a, b, c, d, x),
    ensures deriv_at(cv, i, t, dcub(a, b, c, d, t)),
{
    let v = (3real * (a - 2real * b + c)) * (1real - t) + (3real * (b - 2real * c + d)) * t;
    let w = d - 3real * c + 3real * b - a;
    let m = rabs(v) + rabs(w);
    assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rem1(cv, i, t, dcub(a, b, c, d, t), h)) <= m * (h * h) by {
        taylor_cub(a, b, c, d, t, h); rabs_mul(h, w, 1real, rabs(w)); rem_bound(h, v + h * w, m); }
    deriv_taylor(cv, i, t, dcub(a, b, c, d, t), m);
}
""")


def L_line(ring):
    return (RG.spec_lemma(ring, DEFS, "taylor_lin", ["a", "b", "t", "h"], "lin(a,b,t+h)", "lin(a,b,t) + h*(b-a)")
            + """pub proof fn deriv_lin(cv: Cv, i: int, a: real, b: real, t: real)
    requires forall|x: real| #[trigger] cv(i, x) == lin(a, b, x),
    ensures deriv_at(cv, i, t, b - a),
{
    assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rem1(cv, i, t, b - a, h)) <= 0real * (h * h) by { taylor_lin(a, b, t, h); assert(0real * (h * h) == 0real) by(nonlinear_arith); }
    deriv_taylor(cv, i, t, b - a, 0real);
}
""")


LEMMAS.update(deriv_quad=L_quad, deriv_cub=L_cub, deriv_lin=L_line)
C04 = {
    "LineSegment::derivative": dict(
        ensures="forall|i: int, t: real| #[trigger] deriv_at(line_cv(self.start, self.end), i, t, ret.c(i))", lemmas=["deriv_lin"],
        tail="assert forall|i: int, t: real| #[trigger] deriv_at(line_cv(self.start, self.end), i, t, r__.c(i)) by { deriv_lin(line_cv(self.start, self.end), i, self.start.c(i), self.end.c(i), t); }"),
    "QuadraticBezier::derivative": dict(
        ensures="forall|i: int, t: real| #[trigger] deriv_at(quad_cv(*self), i, t, line_cv(ret.start, ret.end)(i, t))", lemmas=["deriv_quad"],
        tail="assert forall|i: int, t: real| #[trigger] deriv_at(quad_cv(*self), i, t, line_cv(r__.start, r__.end)(i, t)) by { deriv_quad(quad_cv(*self), i, self.start.c(i), self.ctrl.c(i), self.end.c(i), t); "
             "assert(line_cv(r__.start, r__.end)(i, t) == dquad(self.start.c(i), self.ctrl.c(i), self.end.c(i), t)); }"),
    "CubicBezier::derivative": dict(
        ensures="forall|i: int, t: real| #[trigger] deriv_at(cub_cv(*self), i, t, quad_cv(ret)(i, t))", lemmas=["deriv_cub"],
        tail="assert forall|i: int, t: real| #[trigger] deriv_at(cub_cv(*self), i, t, quad_cv(r__)(i, t)) by { deriv_cub(cub_cv(*self), i, self.start.c(i), self.ctrl1.c(i), self.ctrl2.c(i), self.end.c(i), t); "
             "assert(quad_cv(r__)(i, t) == dcub(self.start.c(i), self.ctrl1.c(i), self.ctrl2.c(i), self.end.c(i), t)); }"),
    "QuadraticBezier::dd": dict(ensures="deriv_at(quad_cv(*self), axis as int, t.val(), ret.val())", lemmas=["deriv_quad"],
                                tail=" deriv_quad(quad_cv(*self), axis as int, self.start.c(axis as int), self.ctrl.c(axis as int), self.end.c(axis as int), t.val());"),
    "CubicBezier::dd": dict(ensures="deriv_at(cub_cv(*self), axis as int, t.val(), ret.val())", lemmas=["deriv_cub"],
                            tail=" deriv_cub(cub_cv(*self), axis as int, self.start.c(axis as int), self.ctrl1.c(axis as int), self.ctrl2.c(axis as int), self.end.c(axis as int), t.val());"),
    "Bezier::derivative": dict(
        ensures="forall|a: int, t: real| #[trigger] deriv_at(bez_cv(*self), a, t, dc(bz(ret.control_points, a), t, (M - 1) as nat, 0))",
        tail="assert forall|a: int, t: real| #[trigger] deriv_at(bez_cv(*self), a, t, dc(bz(r__.control_points, a), t, (M - 1) as nat, 0)) by { bez_deriv(bez_cv(*self), a, bz(self.control_points, a), M as nat, t); }"),
}
