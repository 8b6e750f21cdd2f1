// De Casteljau's scheme over the reals:  dc(f,t,r,j) is entry j of level r of the triangle over f.
pub type Sq = spec_fn(int) -> real;
pub open spec fn dc(f: Sq, t: real, r: nat, j: int) -> real
    decreases r
{ if r == 0 { f(j) } else { dc(f, t, (r - 1) as nat, j) * (1real - t) + dc(f, t, (r - 1) as nat, j + 1) * t } }
/// the step of the algorithm in its other forms
pub proof fn lerp_forms(x: real, y: real, t: real)
    ensures x + (y - x) * t == x * (1real - t) + y * t, t * x == x * t, t * y == y * t, (y - x) * t == y * t - x * t, t * (y - x) == y * t - x * t, (x - y) * t == x * t - y * t,
        x * (1real - t) == x - x * t, y * (1real - t) == y - y * t, (1real - t) * x == x - x * t,
{
    assert((y - x) * t == y * t - x * t && t * (y - x) == y * t - x * t && (x - y) * t == x * t - y * t) by(nonlinear_arith);
    assert(x * (1real - t) == x - x * t && y * (1real - t) == y - y * t && (1real - t) * x == x - x * t) by(nonlinear_arith);
    assert(t * x == x * t && t * y == y * t) by(nonlinear_arith);
}
/// one level applied to a sequence
pub open spec fn lvl(f: Sq, t: real) -> Sq { |j: int| f(j) * (1real - t) + f(j + 1) * t }
pub open spec fn shift(f: Sq) -> Sq { |j: int| f(j + 1) }
pub proof fn dc_ext(f: Sq, g: Sq, t: real, r: nat, j: int)
    requires forall|k: int| j <= k <= j + r ==> #[trigger] f(k) == g(k),
    ensures dc(f, t, r, j) == dc(g, t, r, j),
    decreases r
{ if r > 0 { dc_ext(f, g, t, (r - 1) as nat, j); dc_ext(f, g, t, (r - 1) as nat, j + 1); } }
pub proof fn dc_shift(f: Sq, t: real, r: nat, j: int)
    ensures dc(shift(f), t, r, j) == dc(f, t, r, j + 1),
    decreases r
{ if r > 0 { dc_shift(f, t, (r - 1) as nat, j); dc_shift(f, t, (r - 1) as nat, j + 1); } }
/// A^{r+1} f = A^r (A f)
pub proof fn dc_peel(f: Sq, t: real, r: nat, j: int)
    ensures dc(f, t, r + 1, j) == dc(lvl(f, t), t, r, j),
    decreases r
{ reveal_with_fuel(dc, 2); if r > 0 { dc_peel(f, t, (r - 1) as nat, j); dc_peel(f, t, (r - 1) as nat, j + 1); } }
/// linearity:  h = a f + b g
pub proof fn dc_lin(f: Sq, g: Sq, h: Sq, a: real, b: real, t: real, r: nat, j: int)
    requires forall|k: int| j <= k <= j + r ==> #[trigger] h(k) == f(k) * a + g(k) * b,
    ensures dc(h, t, r, j) == dc(f, t, r, j) * a + dc(g, t, r, j) * b,
    decreases r
{
    if r > 0 {
        dc_lin(f, g, h, a, b, t, (r - 1) as nat, j); dc_lin(f, g, h, a, b, t, (r - 1) as nat, j + 1);
        lin_swap(dc(f, t, (r - 1) as nat, j), dc(g, t, (r - 1) as nat, j), dc(f, t, (r - 1) as nat, j + 1), dc(g, t, (r - 1) as nat, j + 1), a, b, t);
    }
}
pub proof fn lin_swap(x: real, y: real, z: real, w: real, a: real, b: real, t: real)
    ensures (x * a + y * b) * (1real - t) + (z * a + w * b) * t == (x * (1real - t) + z * t) * a + (y * (1real - t) + w * t) * b,
{
    let u = 1real - t;
    assert((x * a + y * b) * u == (x * u) * a + (y * u) * b) by(nonlinear_arith);
    assert((z * a + w * b) * t == (z * t) * a + (w * t) * b) by(nonlinear_arith);
    assert((x * u + z * t) * a == (x * u) * a + (z * t) * a) by(nonlinear_arith);
    assert((y * u + w * t) * b == (y * u) * b + (w * t) * b) by(nonlinear_arith);
}

// ---------------------------------------------------------------- splitting
/// left(k) = (A_t^k f)(0)
pub open spec fn left_pts(f: Sq, t: real) -> Sq { |k: int| if k >= 0 { dc(f, t, k as nat, 0) } else { 0real } }
/// right(k) = (A_t^{n-k} f)(k)
pub open spec fn right_pts(f: Sq, t: real, n: int) -> Sq { |k: int| if k <= n { dc(f, t, (n - k) as nat, k) } else { 0real } }
pub open spec fn pw(f: Sq, t: real, k: nat) -> Sq { |j: int| dc(f, t, k, j) }
/// (A_s^r left)(k) = (A_{ts}^r A_t^k f)(0)
pub proof fn split_left(f: Sq, t: real, s: real, r: nat, k: nat)
    ensures dc(left_pts(f, t), s, r, k as int) == dc(pw(f, t, k), t * s, r, 0),
    decreases r
{
    let u = t * s;
    if r > 0 {
        let q = (r - 1) as nat;
        split_left(f, t, s, q, k); split_left(f, t, s, q, k + 1);
        let g = pw(f, t, k);
        let g1 = pw(f, t, k + 1);
        // (1-s) g + s A_t g = A_u g
        dc_peel(g, u, q, 0);
        assert forall|j: int| 0 <= j <= 0 + q implies #[trigger] lvl(g, u)(j) == g(j) * (1real - s) + g1(j) * s by {
            let (x, y) = (g(j), g(j + 1));
            assert(g1(j) == x * (1real - t) + y * t);
            assert(x * (1real - t * s) + y * (t * s) == x * (1real - s) + (x * (1real - t) + y * t) * s) by(nonlinear_arith);
        }
        dc_lin(g, g1, lvl(g, u), 1real - s, s, u, q, 0);
    }
}
/// (A_s^r right)(k) = (A_t^{n-k-r} A_v^r f)(k),  v = t + (1-t) s
pub proof fn split_right(f: Sq, t: real, s: real, n: int, r: nat, k: int)
    requires k + r <= n,
    ensures dc(right_pts(f, t, n), s, r, k) == dc(pw(f, t + (1real - t) * s, r), t, (n - k - r) as nat, k),
    decreases r
{
    let v = t + (1real - t) * s;
    if r == 0 {
        assert forall|j: int| k <= j <= k + (n - k) implies #[trigger] pw(f, v, 0)(j) == f(j) by {}
        dc_ext(pw(f, v, 0), f, t, (n - k) as nat, k);
    } else {
        let q = (r - 1) as nat;
        let m = (n - k - r) as nat;
        split_right(f, t, s, n, q, k); split_right(f, t, s, n, q, k + 1);
        let g = pw(f, v, q);
        assert(dc(g, t, m + 1, k) == dc(lvl(g, t), t, m, k)) by { dc_peel(g, t, m, k); }
        assert(dc(g, t, m, k + 1) == dc(shift(g), t, m, k)) by { dc_shift(g, t, m, k); }
        let h = pw(f, v, r);
        assert forall|j: int| k <= j <= k + m implies #[trigger] h(j) == lvl(g, t)(j) * (1real - s) + shift(g)(j) * s by {
            let (x, y) = (g(j), g(j + 1));
            assert(h(j) == x * (1real - v) + y * v);
            split_id(x, y, t, s);
        }
        dc_lin(lvl(g, t), shift(g), h, 1real - s, s, t, m, k);
    }
}
pub proof fn split_id(x: real, y: real, t: real, s: real)
    ensures x * (1real - (t + (1real - t) * s)) + y * (t + (1real - t) * s) == (x * (1real - t) + y * t) * (1real - s) + y * s,
{
    let (a, b) = (1real - t, 1real - s);
    let v = t + a * s;
    assert(1real - v == a * b) by(nonlinear_arith) requires a == 1real - t, b == 1real - s, v == t + a * s;
    assert(v == t * b + s) by(nonlinear_arith) requires a == 1real - t, b == 1real - s, v == t + a * s;
    assert((x * a + y * t) * b == x * (a * b) + y * (t * b)) by(nonlinear_arith);
    assert(y * (t * b + s) == y * (t * b) + y * s) by(nonlinear_arith);
}

// ---------------------------------------------------------------- end points, range
pub proof fn dc_at0(f: Sq, r: nat, j: int)
    ensures dc(f, 0real, r, j) == f(j),
    decreases r
{ if r > 0 { dc_at0(f, (r - 1) as nat, j); let (x, y) = (dc(f, 0real, (r - 1) as nat, j), dc(f, 0real, (r - 1) as nat, j + 1)); assert(x * (1real - 0real) + y * 0real == x) by(nonlinear_arith); } }
pub proof fn dc_at1(f: Sq, r: nat, j: int)
    ensures dc(f, 1real, r, j) == f(j + r),
    decreases r
{ if r > 0 { dc_at1(f, (r - 1) as nat, j + 1); let (x, y) = (dc(f, 1real, (r - 1) as nat, j), dc(f, 1real, (r - 1) as nat, j + 1)); assert(x * (1real - 1real) + y * 1real == y) by(nonlinear_arith); } }
pub proof fn conv(x: real, y: real, t: real, lo: real, hi: real)
    requires 0real <= t <= 1real, lo <= x <= hi, lo <= y <= hi,
    ensures lo <= x * (1real - t) + y * t <= hi,
{
    let u = 1real - t;
    assert(lo * u <= x * u && x * u <= hi * u) by(nonlinear_arith) requires u >= 0real, lo <= x <= hi;
    assert(lo * t <= y * t && y * t <= hi * t) by(nonlinear_arith) requires t >= 0real, lo <= y <= hi;
    assert(lo * u + lo * t == lo) by(nonlinear_arith) requires u + t == 1real;
    assert(hi * u + hi * t == hi) by(nonlinear_arith) requires u + t == 1real;
}
pub proof fn dc_range(f: Sq, t: real, r: nat, j: int, lo: real, hi: real)
    requires 0real <= t <= 1real, forall|k: int| j <= k <= j + r ==> lo <= #[trigger] f(k) <= hi,
    ensures lo <= dc(f, t, r, j) <= hi,
    decreases r
{
    if r > 0 {
        dc_range(f, t, (r - 1) as nat, j, lo, hi); dc_range(f, t, (r - 1) as nat, j + 1, lo, hi);
        conv(dc(f, t, (r - 1) as nat, j), dc(f, t, (r - 1) as nat, j + 1), t, lo, hi);
    } else { assert(lo <= f(j) <= hi); }
}

// ---------------------------------------------------------------- Bernstein form
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub open spec fn binom(n: nat, k: int) -> nat decreases n
{ if k < 0 { 0 } else if n == 0 { if k == 0 { 1 } else { 0 } } else { binom((n - 1) as nat, k) + binom((n - 1) as nat, k - 1) } }
/// recursive Bernstein basis
pub open spec fn bn(n: nat, k: int, t: real) -> real decreases n
{ if n == 0 { if k == 0 { 1real } else { 0real } } else { bn((n - 1) as nat, k, t) * (1real - t) + bn((n - 1) as nat, k - 1, t) * t } }
/// sum of bn(n,k,t) f(j+k) for k < m
pub open spec fn bsum(f: Sq, j: int, n: nat, t: real, m: nat) -> real decreases m
{ if m == 0 { 0real } else { bsum(f, j, n, t, (m - 1) as nat) + bn(n, m - 1, t) * f(j + m - 1) } }
pub proof fn bn_zero(n: nat, k: int, t: real)
    requires k < 0 || k > n,
    ensures bn(n, k, t) == 0real,
    decreases n
{ if n > 0 { bn_zero((n - 1) as nat, k, t); bn_zero((n - 1) as nat, k - 1, t); let u = 1real - t; assert(0real * u + 0real * t == 0real); } }
pub proof fn bsum_rec(f: Sq, j: int, n: nat, t: real, m: nat)
    requires n > 0, m >= 1,
    ensures bsum(f, j, n, t, m) == bsum(f, j, (n - 1) as nat, t, m) * (1real - t) + bsum(f, j + 1, (n - 1) as nat, t, (m - 1) as nat) * t,
    decreases m
{
    let n1 = (n - 1) as nat;
    let m1 = (m - 1) as nat;
    let u = 1real - t;
    let (a, b) = (bn(n1, m - 1, t), bn(n1, m - 2, t));
    let x = f(j + m - 1);
    assert((a * u + b * t) * x == (a * x) * u + (b * x) * t) by(nonlinear_arith);
    if m == 1 {
        bn_zero(n1, -1, t);
        assert(bsum(f, j, n1, t, 0) == 0real && bsum(f, j + 1, n1, t, 0) == 0real && bsum(f, j, n, t, 0) == 0real);
        assert(bsum(f, j, n, t, 1) == bsum(f, j, n, t, 0) + bn(n, 0, t) * f(j));
        assert(bsum(f, j, n1, t, 1) == bsum(f, j, n1, t, 0) + bn(n1, 0, t) * f(j));
        assert((0real * x) * t == 0real) by(nonlinear_arith);
        assert(0real * t == 0real) by(nonlinear_arith);
    } else {
        bsum_rec(f, j, n, t, m1);
        let (p, q) = (bsum(f, j, n1, t, m1), bsum(f, j + 1, n1, t, (m - 2) as nat));
        assert(bsum(f, j, n1, t, m) == p + a * x);
        assert(bsum(f, j + 1, n1, t, m1) == q + b * f(j + 1 + m1 - 1));
        assert(j + 1 + m1 - 1 == j + m - 1);
        assert((p + a * x) * u == p * u + (a * x) * u) by(nonlinear_arith);
        assert((q + b * x) * t == q * t + (b * x) * t) by(nonlinear_arith);
    }
}
/// de Casteljau's result is the combination with the recursive basis
pub proof fn dc_bsum(f: Sq, t: real, n: nat, j: int)
    ensures dc(f, t, n, j) == bsum(f, j, n, t, n + 1),
    decreases n
{
    reveal_with_fuel(bsum, 2);
    if n > 0 {
        let n1 = (n - 1) as nat;
        dc_bsum(f, t, n1, j); dc_bsum(f, t, n1, j + 1);
        bsum_rec(f, j, n, t, n + 1);
        bn_zero(n1, n as int, t);
        let x = f(j + n);
        assert(bsum(f, j, n1, t, n + 1) == bsum(f, j, n1, t, n) + bn(n1, n as int, t) * f(j + (n + 1) - 1));
        assert(0real * x == 0real) by(nonlinear_arith);
    } else { assert(1real * f(j) == f(j)); assert(bsum(f, j, 0, t, 1) == bsum(f, j, 0, t, 0) + bn(0, 0, t) * f(j)); }
}
pub proof fn binom_zero(n: nat, k: int)
    requires k < 0 || k > n,
    ensures binom(n, k) == 0,
    decreases n
{ if n > 0 { binom_zero((n - 1) as nat, k); binom_zero((n - 1) as nat, k - 1); } }
/// the recursive basis is the Bernstein polynomial
pub proof fn bn_closed(n: nat, k: int, t: real)
    requires 0 <= k <= n,
    ensures bn(n, k, t) == (binom(n, k) as real) * (rpow(1real - t, (n - k) as nat) * rpow(t, k as nat)),
    decreases n
{
    if n > 0 {
        let u = 1real - t;
        let n1 = (n - 1) as nat;
        let (c1, c2) = (binom(n1, k) as real, binom(n1, k - 1) as real);
        assert(binom(n, k) == binom(n1, k) + binom(n1, k - 1));
        assert(binom(n, k) as real == c1 + c2);
        if k <= n1 { bn_closed(n1, k, t); } else { bn_zero(n1, k, t); binom_zero(n1, k); }
        if k >= 1 { bn_closed(n1, k - 1, t); } else { bn_zero(n1, k - 1, t); binom_zero(n1, k - 1); }
        let (pu, pt) = (rpow(u, (n - k) as nat), rpow(t, k as nat));
        assert(bn(n, k, t) == bn(n1, k, t) * u + bn(n1, k - 1, t) * t);
        assert(bn(n1, k, t) * u == c1 * (pu * pt)) by {
            if k <= n1 { let a = rpow(u, (n1 - k) as nat); assert((n - k - 1) as nat == (n1 - k) as nat); assert(pu == u * a); assert((c1 * (a * pt)) * u == c1 * ((u * a) * pt)) by(nonlinear_arith); }
            else { assert(0real * u == 0real && 0real * (pu * pt) == 0real) by(nonlinear_arith); }
        }
        assert(bn(n1, k - 1, t) * t == c2 * (pu * pt)) by {
            if k >= 1 { let a = rpow(t, (k - 1) as nat); assert(pt == t * a); assert((n1 - (k - 1)) as nat == (n - k) as nat); assert((c2 * (pu * a)) * t == c2 * (pu * (t * a))) by(nonlinear_arith); }
            else { assert(0real * t == 0real && 0real * (pu * pt) == 0real) by(nonlinear_arith); }
        }
        let z = pu * pt;
        assert((c1 + c2) * z == c1 * z + c2 * z) by(nonlinear_arith);
    } else { assert(1real * (1real * 1real) == 1real) by(nonlinear_arith); }
}
/// sum of binom(n,k) (1-t)^(n-k) t^k f(k) for k < m
pub open spec fn bernstein(f: Sq, n: nat, t: real, m: nat) -> real decreases m
{ if m == 0 { 0real } else { bernstein(f, n, t, (m - 1) as nat) + (binom(n, m - 1) as real) * (rpow(1real - t, (n - (m - 1)) as nat) * rpow(t, (m - 1) as nat)) * f(m - 1) } }
pub proof fn bsum_bernstein(f: Sq, n: nat, t: real, m: nat)
    requires m <= n + 1,
    ensures bsum(f, 0, n, t, m) == bernstein(f, n, t, m),
    decreases m
{ if m > 0 { bsum_bernstein(f, n, t, (m - 1) as nat); bn_closed(n, m - 1, t); } }

// ---------------------------------------------------------------- derivative
/// formal derivative of dc with respect to t (sum and product rule applied to its definition)
pub open spec fn ddc(f: Sq, t: real, r: nat, j: int) -> real
    decreases r
{ if r == 0 { 0real } else {
    let q = (r - 1) as nat;
    ddc(f, t, q, j) * (1real - t) - dc(f, t, q, j) + ddc(f, t, q, j + 1) * t + dc(f, t, q, j + 1) } }
pub open spec fn delta(f: Sq) -> Sq { |j: int| f(j + 1) - f(j) }
pub proof fn dc_delta(f: Sq, t: real, r: nat, j: int)
    ensures dc(delta(f), t, r, j) == dc(f, t, r, j + 1) - dc(f, t, r, j),
{
    dc_shift(f, t, r, j);
    assert forall|k: int| j <= k <= j + r implies #[trigger] delta(f)(k) == shift(f)(k) * 1real + f(k) * (0real - 1real) by {}
    dc_lin(shift(f), f, delta(f), 1real, 0real - 1real, t, r, j);
}
pub proof fn ddc_formula(f: Sq, t: real, r: nat, j: int)
    requires r >= 1,
    ensures ddc(f, t, r, j) == (r as real) * dc(delta(f), t, (r - 1) as nat, j),
    decreases r
{
    let q = (r - 1) as nat;
    dc_delta(f, t, q, j);
    if r == 1 {
        assert(ddc(f, t, 0, j) == 0real && ddc(f, t, 0, j + 1) == 0real);
        let u = 1real - t;
        assert(0real * u == 0real && 0real * t == 0real) by(nonlinear_arith);
    } else {
        ddc_formula(f, t, q, j); ddc_formula(f, t, q, j + 1);
        let (x, y) = (dc(delta(f), t, (q - 1) as nat, j), dc(delta(f), t, (q - 1) as nat, j + 1));
        let z = dc(delta(f), t, q, j);
        assert(z == x * (1real - t) + y * t);
        let m = q as real;
        assert((m * x) * (1real - t) + (m * y) * t == m * z) by(nonlinear_arith) requires z == x * (1real - t) + y * t;
        assert((r as real) == m + 1real);
        assert((m + 1real) * z == m * z + z) by(nonlinear_arith);
    }
}
/// remainder of the first-order expansion, a polynomial in h
pub open spec fn rdc(f: Sq, t: real, h: real, r: nat, j: int) -> real
    decreases r
{ if r == 0 { 0real } else {
    let q = (r - 1) as nat;
    rdc(f, t, h, q, j) * (1real - t - h) + rdc(f, t, h, q, j + 1) * (t + h) + (ddc(f, t, q, j + 1) - ddc(f, t, q, j)) } }
/// ddc is the derivative: dc(t+h) = dc(t) + h ddc(t) + h^2 rdc
pub proof fn ddc_is_derivative(f: Sq, t: real, h: real, r: nat, j: int)
    ensures dc(f, t + h, r, j) == dc(f, t, r, j) + h * ddc(f, t, r, j) + h * (h * rdc(f, t, h, r, j)),
    decreases r
{
    if r > 0 {
        let q = (r - 1) as nat;
        ddc_is_derivative(f, t, h, q, j); ddc_is_derivative(f, t, h, q, j + 1);
        let (c0, d0, r0) = (dc(f, t, q, j), ddc(f, t, q, j), rdc(f, t, h, q, j));
        let (c1, d1, r1) = (dc(f, t, q, j + 1), ddc(f, t, q, j + 1), rdc(f, t, h, q, j + 1));
        let u = 1real - t;
        taylor_id(c0, d0, r0, c1, d1, r1, t, h);
    } else { assert(h * 0real == 0real && h * (h * 0real) == 0real) by(nonlinear_arith); }
}
pub proof fn taylor_id(c0: real, d0: real, r0: real, c1: real, d1: real, r1: real, t: real, h: real)
    ensures (c0 + h * d0 + h * (h * r0)) * (1real - (t + h)) + (c1 + h * d1 + h * (h * r1)) * (t + h)
        == (c0 * (1real - t) + c1 * t) + h * (d0 * (1real - t) - c0 + d1 * t + c1) + h * (h * (r0 * (1real - t - h) + r1 * (t + h) + (d1 - d0))),
{
    let (u, v, w) = (1real - t, 1real - (t + h), t + h);
    assert(v == u - h && w == t + h);
    assert((c0 + h * d0 + h * (h * r0)) * v == c0 * v + (h * d0) * v + (h * (h * r0)) * v) by(nonlinear_arith);
    assert((c1 + h * d1 + h * (h * r1)) * w == c1 * w + (h * d1) * w + (h * (h * r1)) * w) by(nonlinear_arith);
    assert(c0 * v == c0 * u - c0 * h) by(nonlinear_arith) requires v == u - h;
    assert(c1 * w == c1 * t + c1 * h) by(nonlinear_arith) requires w == t + h;
    assert((h * d0) * v == h * (d0 * u) - h * (h * d0)) by(nonlinear_arith) requires v == u - h;
    assert((h * d1) * w == h * (d1 * t) + h * (h * d1)) by(nonlinear_arith) requires w == t + h;
    assert((h * (h * r0)) * v == h * (h * (r0 * v))) by(nonlinear_arith);
    assert((h * (h * r1)) * w == h * (h * (r1 * w))) by(nonlinear_arith);
    assert(h * (d0 * u - c0 + d1 * t + c1) == h * (d0 * u) - c0 * h + h * (d1 * t) + c1 * h) by(nonlinear_arith);
    let (e, g) = (r0 * v, r1 * w);
    assert(h * (h * (e + g + (d1 - d0))) == h * (h * e) + h * (h * g) + h * (h * d1) - h * (h * d0)) by(nonlinear_arith);
    assert(1real - t - h == v);
}
