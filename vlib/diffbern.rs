// Generic Bezier curves: ddc is the derivative of the curve.
pub open spec fn rb(f: Sq, t: real, r: nat, j: int, m: real) -> bool { m >= 0real && forall|h: real| rabs(h) <= 1real ==> rabs(#[trigger] rdc(f, t, h, r, j)) <= m }
pub proof fn rdc_bound(f: Sq, t: real, r: nat, j: int) -> (m: real)
    ensures rb(f, t, r, j, m),
    decreases r
{
    if r == 0 { 0real } else {
        let q = (r - 1) as nat;
        let a = rdc_bound(f, t, q, j);
        let b = rdc_bound(f, t, q, j + 1);
        let (s, v) = (rabs(1real - t) + 1real, rabs(t) + 1real);
        let g = ddc(f, t, q, j + 1) - ddc(f, t, q, j);
        let m = a * s + b * v + rabs(g);
        assert(a * s >= 0real && b * v >= 0real) by(nonlinear_arith) requires a >= 0real, s >= 0real, b >= 0real, v >= 0real;
        assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rdc(f, t, h, r, j)) <= m by {
            rabs_mul(rdc(f, t, h, q, j), 1real - t - h, a, s);
            rabs_mul(rdc(f, t, h, q, j + 1), t + h, b, v);
        }
        m
    }
}
pub proof fn bez_deriv(cv: Cv, i: int, f: Sq, n: nat, t: real)
    requires forall|x: real| #[trigger] cv(i, x) == dc(f, x, n, 0),
    ensures deriv_at(cv, i, t, ddc(f, t, n, 0)),
{
    let m = rdc_bound(f, t, n, 0);
    let d = ddc(f, t, n, 0);
    assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rem1(cv, i, t, d, h)) <= m * (h * h) by {
        ddc_is_derivative(f, t, h, n, 0);
        rem_bound(h, rdc(f, t, h, n, 0), m);
    }
    deriv_taylor(cv, i, t, d, m);
}
