// The derivative, by its definition.
pub open spec fn rem1(cv: Cv, i: int, t: real, d: real, h: real) -> real { cv(i, t + h) - cv(i, t) - h * d }
pub open spec fn close(cv: Cv, i: int, t: real, d: real, e: real, dl: real) -> bool { dl > 0real && forall|h: real| rabs(h) < dl ==> rabs(#[trigger] rem1(cv, i, t, d, h)) <= e * rabs(h) }
pub open spec fn good(cv: Cv, i: int, t: real, d: real, e: real) -> bool { exists|dl: real| close(cv, i, t, d, e, dl) }
/// coordinate i of the curve has the derivative d at t: for every e > 0 the difference quotients near t are within e of d
pub open spec fn deriv_at(cv: Cv, i: int, t: real, d: real) -> bool { forall|e: real| e > 0real ==> #[trigger] good(cv, i, t, d, e) }
pub proof fn deriv_taylor(cv: Cv, i: int, t: real, d: real, m: real)
    requires m >= 0real, forall|h: real| rabs(h) <= 1real ==> rabs(#[trigger] rem1(cv, i, t, d, h)) <= m * (h * h),
    ensures deriv_at(cv, i, t, d),
{
    assert forall|e: real| e > 0real implies #[trigger] good(cv, i, t, d, e) by {
        let n = m + 1real;
        let q = e / n;
        assert(q > 0real && q * n == e) by(nonlinear_arith) requires q == e / n, n > 0real, e > 0real;
        let dl = rmin(1real, q);
        assert forall|h: real| rabs(h) < dl implies rabs(#[trigger] rem1(cv, i, t, d, h)) <= e * rabs(h) by {
            let a = rabs(h);
            assert(h * h == a * a) by { assert((-h) * (-h) == h * h) by(nonlinear_arith); }
            assert(m * (a * a) <= e * a) by(nonlinear_arith) requires 0real <= a <= q, q * n == e, n == m + 1real, m >= 0real;
        }
        assert(close(cv, i, t, d, e, dl));
    }
}
pub proof fn rabs_mul(a: real, b: real, x: real, y: real)
    requires rabs(a) <= x, rabs(b) <= y,
    ensures rabs(a * b) <= x * y, 0real <= x * y,
{
    let (p, q) = (rabs(a), rabs(b));
    assert(p * q <= x * y) by(nonlinear_arith) requires 0real <= p <= x, 0real <= q <= y;
    assert(0real <= p * q) by(nonlinear_arith) requires 0real <= p, 0real <= q;
    assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && (-a) * (-b) == a * b) by(nonlinear_arith);
}
/// a second order remainder h (h r) with r bounded on |h| <= 1
pub proof fn rem_bound(h: real, r: real, m: real)
    requires rabs(r) <= m,
    ensures rabs(h * (h * r)) <= m * (h * h),
{
    assert(h * (h * r) == (h * h) * r) by(nonlinear_arith);
    assert(h * h >= 0real) by(nonlinear_arith);
    rabs_mul(h * h, r, h * h, m);
    assert((h * h) * m == m * (h * h)) by(nonlinear_arith);
}
