// B-splines: ddb is the derivative of the polynomial piece over a span.
pub open spec fn piece(u: Sq, f: Sq, d: nat, k: int) -> Cv { |i: int, t: real| dbw(u, f, t, d, d, k) }
pub open spec fn rbb(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int, m: real) -> bool { m >= 0real && forall|h: real| rabs(h) <= 1real ==> rabs(#[trigger] rdb(u, f, t, h, d, r, i)) <= m }
pub proof fn wt_bound(u: Sq, t: real, i: int, j: int) -> (m: real)
    ensures m >= 0real, forall|h: real| rabs(h) <= 1real ==> rabs(#[trigger] wt(u, t + h, i, j)) <= m,
{
    let e = u(j) - u(i);
    if e == 0real { 0real } else {
        let g = 1real / e;
        let m = (rabs(t - u(i)) + 1real) * rabs(g);
        assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] wt(u, t + h, i, j)) <= m by {
            let x = t + h - u(i);
            assert(x / e == x * g) by(nonlinear_arith) requires g == 1real / e, e != 0real;
            rabs_mul(x, g, rabs(t - u(i)) + 1real, rabs(g));
        }
        rabs_mul(rabs(t - u(i)) + 1real, g, rabs(t - u(i)) + 1real, rabs(g));
        m
    }
}
pub proof fn rdb_bound(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int) -> (m: real)
    ensures rbb(u, f, t, d, r, i, m),
    decreases r
{
    if r == 0 { 0real } else {
        let (q, j) = ((r - 1) as nat, i + d + 1 - r);
        let a = rdb_bound(u, f, t, d, q, i - 1);
        let b = rdb_bound(u, f, t, d, q, i);
        let w = wt_bound(u, t, i, j);
        let g = quo(ddb(u, f, t, d, q, i) - ddb(u, f, t, d, q, i - 1), u(j) - u(i));
        let m = a * (1real + w) + b * w + rabs(g);
        assert(a * (1real + w) >= 0real && b * w >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real, w >= 0real;
        assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rdb(u, f, t, h, d, r, i)) <= m by {
            let x = wt(u, t + h, i, j);
            rabs_mul(rdb(u, f, t, h, d, q, i - 1), 1real - x, a, 1real + w);
            rabs_mul(rdb(u, f, t, h, d, q, i), x, b, w);
            assert(rdb(u, f, t, h, d, r, i) == rdb(u, f, t, h, d, q, i - 1) * (1real - x) + rdb(u, f, t, h, d, q, i) * x + g);
        }
        m
    }
}
pub proof fn piece_deriv(u: Sq, f: Sq, d: nat, k: int, t: real)
    requires regular(u, d, k),
    ensures deriv_at(piece(u, f, d, k), 0, t, ddb(u, f, t, d, d, k)),
{
    let m = rdb_bound(u, f, t, d, d, k);
    let g = ddb(u, f, t, d, d, k);
    assert forall|h: real| rabs(h) <= 1real implies rabs(#[trigger] rem1(piece(u, f, d, k), 0, t, g, h)) <= m * (h * h) by {
        ddb_is_derivative(u, f, t, h, d, k, d, k);
        rem_bound(h, rdb(u, f, t, h, d, d, k), m);
    }
    deriv_taylor(piece(u, f, d, k), 0, t, g, m);
}
