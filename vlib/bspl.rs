// B-splines over the reals: knots u, degree d, points f (one coordinate).
pub open spec fn sorted(u: Sq, m: int) -> bool { forall|i: int, j: int| 0 <= i <= j < m ==> #[trigger] u(i) <= #[trigger] u(j) }
pub proof fn sorted_adj(u: Sq, m: int, i: int, j: int)
    requires forall|k: int| 0 <= k < m - 1 ==> #[trigger] u(k) <= u(k + 1), 0 <= i <= j < m,
    ensures u(i) <= u(j),
    decreases j - i
{ if i < j { sorted_adj(u, m, i, j - 1); assert(u(j - 1) <= u(j - 1 + 1)); } }
/// k is the span of t: the knots k and k+1 differ and t lies in [u(k), u(k+1)); the right end of the domain belongs to the last such span
pub open spec fn inspan(u: Sq, d: int, c: int, k: int, t: real) -> bool { d <= k < c && u(k) <= t && u(k) < u(k + 1) && (t < u(k + 1) || (t == u(k + 1) && t == u(c))) }
pub proof fn inspan_unique(u: Sq, d: int, c: int, m: int, k: int, l: int, t: real)
    requires sorted(u, m), 0 <= d, c < m, inspan(u, d, c, k, t), inspan(u, d, c, l, t),
    ensures k == l,
{ if k < l { assert(u(k + 1) <= u(l)); } if l < k { assert(u(l + 1) <= u(k)); } }
/// blending factor, with the guards against vanishing denominators
pub open spec fn al(u: Sq, t: real, i: int, j: int) -> real {
    if t - u(i) < eps() { 0real } else if rabs(u(j) - u(i)) < eps() { 1real } else { (t - u(i)) / (u(j) - u(i)) }
}
/// de Boor's triangle
pub open spec fn db(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int) -> real
    decreases r
{ if r == 0 { f(i) } else { db(u, f, t, d, (r - 1) as nat, i - 1) * (1real - al(u, t, i, i + d + 1 - r)) + db(u, f, t, d, (r - 1) as nat, i) * al(u, t, i, i + d + 1 - r) } }
pub open spec fn quo(a: real, b: real) -> real { if b == 0real { 0real } else { a / b } }
/// the same triangle with the exact factors
pub open spec fn wt(u: Sq, t: real, i: int, j: int) -> real { quo(t - u(i), u(j) - u(i)) }
pub open spec fn dbw(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int) -> real
    decreases r
{ if r == 0 { f(i) } else { dbw(u, f, t, d, (r - 1) as nat, i - 1) * (1real - wt(u, t, i, i + d + 1 - r)) + dbw(u, f, t, d, (r - 1) as nat, i) * wt(u, t, i, i + d + 1 - r) } }
/// distinct knots, and t and any smaller knot, differ by at least eps
pub open spec fn sep(u: Sq, m: int, t: real) -> bool {
    &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < m && #[trigger] u(i) < #[trigger] u(j) ==> u(j) - u(i) >= eps()
    &&& forall|i: int| 0 <= i < m && #[trigger] u(i) < t ==> t - u(i) >= eps()
}
/// the span: sorted knots, u(k) <= t <= u(k+1)
pub open spec fn span(u: Sq, d: int, c: int, k: int, t: real) -> bool { d <= k < c && u(k) <= t && t <= u(k + 1) }
pub proof fn al_exact(u: Sq, d: nat, c: int, k: int, t: real, r: nat, i: int)
    requires sorted(u, c + d + 1), sep(u, c + d + 1, t), inspan(u, d as int, c, k, t), 1 <= r <= d, k - d + r <= i <= k,
    ensures al(u, t, i, i + d + 1 - r) == wt(u, t, i, i + d + 1 - r), u(i) < u(i + d + 1 - r),
{
    let j = i + d + 1 - r;
    assert(u(i) <= u(k)); assert(u(k + 1) <= u(j));
    if u(i) == t { let e = u(j) - u(i); assert(0real / e == 0real) by(nonlinear_arith) requires e != 0real; }
}
pub proof fn db_exact(u: Sq, f: Sq, d: nat, c: int, k: int, t: real, r: nat, i: int)
    requires sorted(u, c + d + 1), sep(u, c + d + 1, t), inspan(u, d as int, c, k, t), r <= d, k - d + r <= i <= k,
    ensures db(u, f, t, d, r, i) == dbw(u, f, t, d, r, i),
    decreases r
{ if r > 0 { al_exact(u, d, c, k, t, r, i); db_exact(u, f, d, c, k, t, (r - 1) as nat, i - 1); db_exact(u, f, d, c, k, t, (r - 1) as nat, i); } }
pub proof fn al01(u: Sq, t: real, i: int, j: int)
    requires u(i) <= t <= u(j),
    ensures 0real <= al(u, t, i, j) <= 1real,
{
    let (a, b) = (t - u(i), u(j) - u(i));
    if a >= eps() && rabs(b) >= eps() {
        assert(0real <= a / b <= 1real) by(nonlinear_arith) requires 0real <= a <= b, b > 0real;
    }
}
/// every entry of the triangle stays within the range of the points of the span
pub proof fn db_range(u: Sq, f: Sq, d: nat, c: int, k: int, t: real, r: nat, i: int, lo: real, hi: real)
    requires sorted(u, c + d + 1), span(u, d as int, c, k, t), r <= d, k - d + r <= i <= k, forall|j: int| k - d <= j <= k ==> lo <= #[trigger] f(j) <= hi,
    ensures lo <= db(u, f, t, d, r, i) <= hi,
    decreases r
{
    if r > 0 {
        db_range(u, f, d, c, k, t, (r - 1) as nat, i - 1, lo, hi); db_range(u, f, d, c, k, t, (r - 1) as nat, i, lo, hi);
        let j = i + d + 1 - r;
        assert(u(i) <= u(k)); assert(u(k + 1) <= u(j));
        al01(u, t, i, j);
        conv(db(u, f, t, d, (r - 1) as nat, i - 1), db(u, f, t, d, (r - 1) as nat, i), al(u, t, i, j), lo, hi);
    } else { assert(lo <= f(i) <= hi); }
}
/// only f(i-r ..= i) matter
pub proof fn db_ext(u: Sq, f: Sq, g: Sq, t: real, d: nat, r: nat, i: int)
    requires forall|j: int| i - r <= j <= i ==> #[trigger] f(j) == g(j),
    ensures db(u, f, t, d, r, i) == db(u, g, t, d, r, i),
    decreases r
{ if r > 0 { db_ext(u, f, g, t, d, (r - 1) as nat, i - 1); db_ext(u, f, g, t, d, (r - 1) as nat, i); } }
/// the value of the spline: de Boor's triangle over the span of t (over the first span if the domain is a single point)
pub open spec fn span_of(u: Sq, d: int, c: int, t: real) -> int { if exists|k: int| inspan(u, d, c, k, t) { choose|k: int| inspan(u, d, c, k, t) } else { d } }
pub open spec fn bsval(u: Sq, f: Sq, d: nat, c: int, t: real) -> real { db(u, f, t, d, d, span_of(u, d as int, c, t)) }
pub proof fn span_is(u: Sq, d: int, c: int, m: int, k: int, t: real)
    requires sorted(u, m), 0 <= d < c < m, inspan(u, d, c, k, t),
    ensures span_of(u, d, c, t) == k,
{ let l = choose|l: int| inspan(u, d, c, l, t); inspan_unique(u, d, c, m, k, l, t); }
pub proof fn span_empty(u: Sq, d: int, c: int, m: int, t: real)
    requires sorted(u, m), 0 <= d < c < m, u(d) == u(c),
    ensures span_of(u, d, c, t) == d,
{ assert forall|k: int| !inspan(u, d, c, k, t) by { if d <= k < c { assert(u(d) <= u(k)); assert(u(k + 1) <= u(c)); } } }

// ---------------------------------------------------------------- Cox-de Boor basis
/// the basis functions, continuous from the right, or from the left (`left`); 0/0 is 0
pub open spec fn cox(u: Sq, t: real, left: bool, p: nat, i: int) -> real
    decreases p
{ if p == 0 { if (if left { u(i) < t <= u(i + 1) } else { u(i) <= t < u(i + 1) }) { 1real } else { 0real } }
  else { quo(t - u(i), u(i + p) - u(i)) * cox(u, t, left, (p - 1) as nat, i) + quo(u(i + p + 1) - t, u(i + p + 1) - u(i + 1)) * cox(u, t, left, (p - 1) as nat, i + 1) } }
/// sum of cox(d, i) f(i) for i < m
pub open spec fn coxsum(u: Sq, f: Sq, t: real, left: bool, d: nat, m: nat) -> real
    decreases m
{ if m == 0 { 0real } else { coxsum(u, f, t, left, d, (m - 1) as nat) + cox(u, t, left, d, m - 1) * f(m - 1) } }
/// the basis with the span given
pub open spec fn nb(u: Sq, t: real, k: int, p: nat, i: int) -> real
    decreases p
{ if p == 0 { if i == k { 1real } else { 0real } }
  else { quo(t - u(i), u(i + p) - u(i)) * nb(u, t, k, (p - 1) as nat, i) + quo(u(i + p + 1) - t, u(i + p + 1) - u(i + 1)) * nb(u, t, k, (p - 1) as nat, i + 1) } }
pub proof fn nb_zero(u: Sq, t: real, k: int, p: nat, i: int)
    requires i > k || i + p < k,
    ensures nb(u, t, k, p, i) == 0real,
    decreases p
{ if p > 0 { nb_zero(u, t, k, (p - 1) as nat, i); nb_zero(u, t, k, (p - 1) as nat, i + 1); let (a, b) = (quo(t - u(i), u(i + p) - u(i)), quo(u(i + p + 1) - t, u(i + p + 1) - u(i + 1))); assert(a * 0real + b * 0real == 0real) by(nonlinear_arith); } }
pub proof fn cox_nb(u: Sq, t: real, left: bool, k: int, m: int, p: nat, i: int)
    requires sorted(u, m), 0 <= k, k + 1 < m, 0 <= i, i + p + 1 < m, if left { u(k) < t <= u(k + 1) } else { u(k) <= t < u(k + 1) },
    ensures cox(u, t, left, p, i) == nb(u, t, k, p, i),
    decreases p
{
    if p > 0 { cox_nb(u, t, left, k, m, (p - 1) as nat, i); cox_nb(u, t, left, k, m, (p - 1) as nat, i + 1); }
    else if i < k { assert(u(i + 1) <= u(k)); } else if i > k { assert(u(k + 1) <= u(i)); }
}
/// sum of nb(p, lo+j) h(lo+j) for j < m
pub open spec fn nbsum(u: Sq, h: Sq, t: real, k: int, p: nat, lo: int, m: nat) -> real
    decreases m
{ if m == 0 { 0real } else { nbsum(u, h, t, k, p, lo, (m - 1) as nat) + nb(u, t, k, p, lo + m - 1) * h(lo + m - 1) } }
/// sum of nb(p-1, lo+j) (w h(lo+j) + (1-w) h(lo+j-1)) for j < m
pub open spec fn blend(u: Sq, h: Sq, t: real, p: nat) -> Sq { |i: int| h(i - 1) * (1real - wt(u, t, i, i + p)) + h(i) * wt(u, t, i, i + p) }
/// 1 - (t-a)/(b-a) = (b-t)/(b-a)
pub proof fn compl(a: real, b: real, t: real)
    requires b != a,
    ensures 1real - (t - a) / (b - a) == (b - t) / (b - a),
{ let e = b - a; assert(e / e == 1real) by(nonlinear_arith) requires e != 0real; assert((t - a) / e + (b - t) / e == e / e) by(nonlinear_arith) requires e == b - a, e != 0real; }
pub proof fn step_prefix(u: Sq, h: Sq, t: real, k: int, p: nat, m: nat)
    requires 1 <= p, 1 <= m <= p + 1, forall|i: int| k - p + 1 <= i <= k ==> #[trigger] u(i) < u(i + p),
    ensures ({ let i = k - p + m; nbsum(u, h, t, k, p, k - p, m) == nbsum(u, blend(u, h, t, p), t, k, (p - 1) as nat, k - p + 1, (m - 1) as nat)
        + quo(u(i + p) - t, u(i + p) - u(i)) * nb(u, t, k, (p - 1) as nat, i) * h(i - 1) }),
    decreases m
{
    let q = (p - 1) as nat;
    let lo = k - p;
    let i = lo + m;
    let g = blend(u, h, t, p);
    // the term added last: nb(p, i-1) h(i-1)
    let (x, y) = (nb(u, t, k, q, i - 1), nb(u, t, k, q, i));
    let w = wt(u, t, i - 1, i - 1 + p);
    let v = quo(u(i + p) - t, u(i + p) - u(i));
    let z = h(i - 1);
    assert(nb(u, t, k, p, i - 1) == w * x + v * y) by { assert(i - 1 + p + 1 == i + p && i - 1 + 1 == i); }
    assert((w * x + v * y) * z == x * (z * w) + v * y * z) by(nonlinear_arith);
    if m == 1 {
        nb_zero(u, t, k, q, i - 1);
        reveal_with_fuel(nbsum, 2);
        assert(0real * (z * w) == 0real) by(nonlinear_arith);
    } else {
        step_prefix(u, h, t, k, p, (m - 1) as nat);
        let s = quo(u(i - 1 + p) - t, u(i - 1 + p) - u(i - 1));
        assert(u(i - 1) < u(i - 1 + p));
        compl(u(i - 1), u(i - 1 + p), t);
        assert(s == 1real - w);
        let zz = h(i - 2);
        assert(g(i - 1) == zz * (1real - w) + z * w);
        assert(s * x * zz + x * (z * w) == x * (zz * (1real - w) + z * w)) by(nonlinear_arith) requires s == 1real - w;
        assert(nbsum(u, g, t, k, q, lo + 1, (m - 1) as nat) == nbsum(u, g, t, k, q, lo + 1, (m - 2) as nat) + nb(u, t, k, q, lo + 1 + (m - 1) - 1) * g(lo + 1 + (m - 1) - 1));
        assert(lo + 1 + (m - 1) - 1 == i - 1);
    }
    assert(nbsum(u, h, t, k, p, lo, m) == nbsum(u, h, t, k, p, lo, (m - 1) as nat) + nb(u, t, k, p, lo + m - 1) * h(lo + m - 1));
}
pub proof fn step_all(u: Sq, h: Sq, t: real, k: int, p: nat)
    requires 1 <= p, forall|i: int| k - p + 1 <= i <= k ==> #[trigger] u(i) < u(i + p),
    ensures nbsum(u, h, t, k, p, k - p, p + 1) == nbsum(u, blend(u, h, t, p), t, k, (p - 1) as nat, k - p + 1, p),
{
    step_prefix(u, h, t, k, p, p + 1);
    nb_zero(u, t, k, (p - 1) as nat, k + 1);
    let a = quo(u(k + 1 + p) - t, u(k + 1 + p) - u(k + 1));
    let b = h(k);
    assert(a * 0real * b == 0real) by(nonlinear_arith);
}
pub proof fn nbsum_ext(u: Sq, h: Sq, g: Sq, t: real, k: int, p: nat, lo: int, m: nat)
    requires forall|i: int| lo <= i < lo + m ==> #[trigger] h(i) == g(i),
    ensures nbsum(u, h, t, k, p, lo, m) == nbsum(u, g, t, k, p, lo, m),
    decreases m
{ if m > 0 { nbsum_ext(u, h, g, t, k, p, lo, (m - 1) as nat); assert(h(lo + m - 1) == g(lo + m - 1)); } }
/// level r of the triangle has the same combination as the top
pub proof fn boor_level(u: Sq, f: Sq, t: real, d: nat, k: int, r: nat)
    requires r <= d, forall|i: int, p: int| 1 <= p <= d && k - p + 1 <= i <= k ==> #[trigger] u(i) < #[trigger] u(i + p),
    ensures nbsum(u, |i: int| dbw(u, f, t, d, r, i), t, k, (d - r) as nat, k - d + r, (d - r + 1) as nat) == dbw(u, f, t, d, d, k),
    decreases d - r
{
    let h = |i: int| dbw(u, f, t, d, r, i);
    if r == d {
        reveal_with_fuel(nbsum, 2);
        assert(nb(u, t, k, 0, k) == 1real);
        let x = h(k);
        assert(1real * x == x);
    } else {
        let p = (d - r) as nat;
        assert forall|i: int| k - p + 1 <= i <= k implies #[trigger] u(i) < u(i + p) by {}
        step_all(u, h, t, k, p);
        boor_level(u, f, t, d, k, r + 1);
        let g = |i: int| dbw(u, f, t, d, r + 1, i);
        assert forall|i: int| k - p + 1 <= i < k - p + 1 + p implies #[trigger] blend(u, h, t, p)(i) == g(i) by { assert(i + d + 1 - (r + 1) == i + p); }
        nbsum_ext(u, blend(u, h, t, p), g, t, k, (p - 1) as nat, k - p + 1, p);
    }
}
pub proof fn coxsum_window(u: Sq, f: Sq, t: real, left: bool, d: nat, c: int, k: int, m: nat)
    requires sorted(u, c + d + 1), d <= k < c, if left { u(k) < t <= u(k + 1) } else { u(k) <= t < u(k + 1) }, m <= c,
    ensures coxsum(u, f, t, left, d, m) == (if m < k - d { 0real } else if m <= k + 1 { nbsum(u, f, t, k, d, k - d, (m - (k - d)) as nat) } else { nbsum(u, f, t, k, d, k - d, d + 1) }),
    decreases m
{
    if m > 0 {
        coxsum_window(u, f, t, left, d, c, k, (m - 1) as nat);
        cox_nb(u, t, left, k, c + d + 1, d, m - 1);
        let x = f(m - 1);
        if m - 1 < k - d || m - 1 > k { nb_zero(u, t, k, d, m - 1); assert(0real * x == 0real) by(nonlinear_arith); }
        else { assert(k - d + (m - (k - d)) - 1 == m - 1); assert((m - (k - d)) as nat - 1 == (m - 1 - (k - d))); }
    }
}
/// de Boor's algorithm computes the Cox-de Boor combination
pub proof fn boor_is_cox(u: Sq, f: Sq, t: real, left: bool, d: nat, c: int, k: int)
    requires sorted(u, c + d + 1), d <= k < c, if left { u(k) < t <= u(k + 1) } else { u(k) <= t < u(k + 1) },
    ensures dbw(u, f, t, d, d, k) == coxsum(u, f, t, left, d, c as nat),
{
    coxsum_window(u, f, t, left, d, c, k, c as nat);
    assert forall|i: int, p: int| 1 <= p <= d && k - p + 1 <= i <= k implies #[trigger] u(i) < #[trigger] u(i + p) by { assert(u(i) <= u(k)); assert(u(k + 1) <= u(i + p)); }
    boor_level(u, f, t, d, k, 0);
    let h = |i: int| dbw(u, f, t, d, 0, i);
    nbsum_ext(u, h, f, t, k, d, k - d, d + 1);
}

// ---------------------------------------------------------------- derivative
/// formal derivative of dbw over span k (product rule)
pub open spec fn ddb(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int) -> real
    decreases r
{ if r == 0 { 0real } else {
    let (q, j) = ((r - 1) as nat, i + d + 1 - r);
    let w = wt(u, t, i, j);
    ddb(u, f, t, d, q, i - 1) * (1real - w) + ddb(u, f, t, d, q, i) * w + quo(dbw(u, f, t, d, q, i) - dbw(u, f, t, d, q, i - 1), u(j) - u(i)) } }
/// remainder of the first-order expansion
pub open spec fn rdb(u: Sq, f: Sq, t: real, h: real, d: nat, r: nat, i: int) -> real
    decreases r
{ if r == 0 { 0real } else {
    let (q, j) = ((r - 1) as nat, i + d + 1 - r);
    let w = wt(u, t + h, i, j);
    rdb(u, f, t, h, d, q, i - 1) * (1real - w) + rdb(u, f, t, h, d, q, i) * w + quo(ddb(u, f, t, d, q, i) - ddb(u, f, t, d, q, i - 1), u(j) - u(i)) } }
pub open spec fn regular(u: Sq, d: nat, k: int) -> bool { forall|i: int, j: int| i <= k < j <= i + d && k - d < i ==> #[trigger] u(i) < #[trigger] u(j) }
pub proof fn regular_span(u: Sq, d: nat, c: int, k: int)
    requires sorted(u, c + d + 1), d <= k < c, u(k) < u(k + 1),
    ensures regular(u, d, k),
{ assert forall|i: int, j: int| i <= k < j <= i + d && k - d < i implies #[trigger] u(i) < #[trigger] u(j) by { assert(u(i) <= u(k)); assert(u(k + 1) <= u(j)); } }
/// ddb is the derivative of the polynomial piece: dbw(t+h) = dbw(t) + h ddb(t) + h^2 rdb
pub proof fn ddb_is_derivative(u: Sq, f: Sq, t: real, h: real, d: nat, k: int, r: nat, i: int)
    requires regular(u, d, k), r <= d, k - d + r <= i <= k,
    ensures dbw(u, f, t + h, d, r, i) == dbw(u, f, t, d, r, i) + h * ddb(u, f, t, d, r, i) + h * (h * rdb(u, f, t, h, d, r, i)),
    decreases r
{
    if r > 0 {
        let (q, j) = ((r - 1) as nat, i + d + 1 - r);
        ddb_is_derivative(u, f, t, h, d, k, q, i - 1); ddb_is_derivative(u, f, t, h, d, k, q, i);
        assert(u(i) < u(j));
        let e = u(j) - u(i);
        let w = wt(u, t, i, j);
        let g = h / e;
        assert(wt(u, t + h, i, j) == w + g) by { let a = t - u(i); assert((a + h) / e == a / e + h / e) by(nonlinear_arith) requires e != 0real; assert(t + h - u(i) == a + h); }
        assert(h == g * e) by(nonlinear_arith) requires g == h / e, e != 0real;
        let (c0, d0, r0) = (dbw(u, f, t, d, q, i - 1), ddb(u, f, t, d, q, i - 1), rdb(u, f, t, h, d, q, i - 1));
        let (c1, d1, r1) = (dbw(u, f, t, d, q, i), ddb(u, f, t, d, q, i), rdb(u, f, t, h, d, q, i));
        taylor_w(c0, d0, r0, c1, d1, r1, w, g, h, e);
    } else { assert(h * 0real == 0real && h * (h * 0real) == 0real) by(nonlinear_arith); }
}
pub proof fn taylor_w(c0: real, d0: real, r0: real, c1: real, d1: real, r1: real, w: real, g: real, h: real, e: real)
    requires e != 0real, h == g * e, g == h / e,
    ensures (c0 + h * d0 + h * (h * r0)) * (1real - (w + g)) + (c1 + h * d1 + h * (h * r1)) * (w + g)
        == (c0 * (1real - w) + c1 * w) + h * (d0 * (1real - w) + d1 * w + (c1 - c0) / e) + h * (h * (r0 * (1real - (w + g)) + r1 * (w + g) + (d1 - d0) / e)),
{
    let (x, y, z) = (w + g, 1real - w, 1real - (w + g));
    assert((c0 + h * d0 + h * (h * r0)) * z == c0 * z + (h * d0) * z + (h * (h * r0)) * z) by(nonlinear_arith);
    assert((c1 + h * d1 + h * (h * r1)) * x == c1 * x + (h * d1) * x + (h * (h * r1)) * x) by(nonlinear_arith);
    assert(c0 * z == c0 * y - c0 * g) by(nonlinear_arith) requires z == y - g;
    assert(c1 * x == c1 * w + c1 * g) by(nonlinear_arith) requires x == w + g;
    assert((h * d0) * z == h * (d0 * y) - (h * d0) * g) by(nonlinear_arith) requires z == y - g;
    assert((h * d1) * x == h * (d1 * w) + (h * d1) * g) by(nonlinear_arith) requires x == w + g;
    assert((h * (h * r0)) * z == h * (h * (r0 * z))) by(nonlinear_arith);
    assert((h * (h * r1)) * x == h * (h * (r1 * x))) by(nonlinear_arith);
    let (s, v) = ((c1 - c0) / e, (d1 - d0) / e);
    assert(h * s == c1 * g - c0 * g) by(nonlinear_arith) requires s == (c1 - c0) / e, h == g * e, e != 0real;
    assert(h * v == d1 * g - d0 * g) by(nonlinear_arith) requires v == (d1 - d0) / e, h == g * e, e != 0real;
    assert(h * (h * v) == (h * d1) * g - (h * d0) * g) by(nonlinear_arith) requires h * v == d1 * g - d0 * g;
    let (aa, bb) = (d0 * y, d1 * w);
    assert(h * (aa + bb + s) == h * aa + h * bb + h * s) by(nonlinear_arith);
    let (cc, dd) = (r0 * z, r1 * x);
    assert(h * (h * (cc + dd + v)) == h * (h * cc) + h * (h * dd) + h * (h * v)) by(nonlinear_arith);
}
/// points and knots of the derivative
pub open spec fn dpts(u: Sq, f: Sq, d: nat) -> Sq { |i: int| (f(i + 1) - f(i)) * ((d as real) / (u(i + d + 1) - u(i + 1))) }
/// slope at level r: (d^r_i - d^r_{i-1}) / (u(i+d-r) - u(i))
pub open spec fn slope(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int) -> real { quo(dbw(u, f, t, d, r, i) - dbw(u, f, t, d, r, i - 1), u(i + d - r) - u(i)) }
/// the triangle of the derivative is d times the slopes
pub proof fn dpts_level(u: Sq, f: Sq, t: real, d: nat, k: int, r: nat, i: int)
    requires regular(u, d, k), 1 <= d, r < d, k - d + 1 + r <= i <= k,
    ensures dbw(shift(u), dpts(u, f, d), t, (d - 1) as nat, r, i - 1) == (d as real) * slope(u, f, t, d, r, i),
    decreases r
{
    let n = d as real;
    let e = u(i + d - r) - u(i);
    assert(u(i) < u(i + d - r));
    if r == 0 {
        let x = f(i) - f(i - 1);
        assert(dpts(u, f, d)(i - 1) == x * (n / e)) by { assert(i - 1 + d + 1 == i + d); assert(i - 1 + 1 == i); }
        assert(x * (n / e) == n * (x / e)) by(nonlinear_arith) requires e != 0real;
    } else {
        let q = (r - 1) as nat;
        dpts_level(u, f, t, d, k, q, i - 1); dpts_level(u, f, t, d, k, q, i);
        let (s0, s1) = (slope(u, f, t, d, q, i - 1), slope(u, f, t, d, q, i));
        let (x0, x1, x2) = (dbw(u, f, t, d, q, i - 2), dbw(u, f, t, d, q, i - 1), dbw(u, f, t, d, q, i));
        // derivative's factor at this level
        let b = wt(u, t, i, i + d - r);
        assert(wt(shift(u), t, i - 1, i - 1 + (d - 1) + 1 - r) == b) by { assert(i - 1 + (d - 1) + 1 - r + 1 == i + d - r); assert(i - 1 + 1 == i); }
        assert(dbw(shift(u), dpts(u, f, d), t, (d - 1) as nat, r, i - 1) == (n * s0) * (1real - b) + (n * s1) * b);
        // the curve's own level
        let (l0, l1) = (i - 1 + d - q, i + d - q);
        assert(l0 == i + d - r && l1 == i + d + 1 - r);
        assert(u(i - 1) < u(l0)); assert(u(i) < u(l1));
        let (w0, w1) = (wt(u, t, i - 1, l0), wt(u, t, i, l1));
        let (e0, e1) = (u(l0) - u(i - 1), u(l1) - u(i));
        assert(dbw(u, f, t, d, r, i) == x1 * (1real - w1) + x2 * w1);
        assert(dbw(u, f, t, d, r, i - 1) == x0 * (1real - w0) + x1 * w0) by { assert(i - 1 + d + 1 - r == l0); assert(i - 1 - 1 == i - 2); }
        assert(s0 == (x1 - x0) / e0); assert(s1 == (x2 - x1) / e1);
        slope_id(x0, x1, x2, t - u(i - 1), t - u(i), e0, e1, e, w0, w1, b, s0, s1, n);
    }
}
pub proof fn slope_id(x0: real, x1: real, x2: real, a0: real, a1: real, e0: real, e1: real, e: real, w0: real, w1: real, b: real, s0: real, s1: real, n: real)
    requires e0 != 0real, e1 != 0real, e != 0real, e0 - a0 == e - a1, w0 == a0 / e0, w1 == a1 / e1, b == a1 / e, s0 == (x1 - x0) / e0, s1 == (x2 - x1) / e1,
    ensures (n * s0) * (1real - b) + (n * s1) * b == n * (((x1 * (1real - w1) + x2 * w1) - (x0 * (1real - w0) + x1 * w0)) / e),
{
    assert((x2 - x1) * w1 == s1 * a1) by(nonlinear_arith) requires w1 == a1 / e1, s1 == (x2 - x1) / e1, e1 != 0real;
    assert((x1 - x0) * w0 == s0 * a0) by(nonlinear_arith) requires w0 == a0 / e0, s0 == (x1 - x0) / e0, e0 != 0real;
    assert(x1 - x0 == s0 * e0) by(nonlinear_arith) requires s0 == (x1 - x0) / e0, e0 != 0real;
    assert(x1 * (1real - w1) + x2 * w1 == x1 + (x2 - x1) * w1) by(nonlinear_arith);
    assert(x0 * (1real - w0) + x1 * w0 == x0 + (x1 - x0) * w0) by(nonlinear_arith);
    let y = (x1 * (1real - w1) + x2 * w1) - (x0 * (1real - w0) + x1 * w0);
    assert(s0 * e0 - s0 * a0 == s0 * (e0 - a0)) by(nonlinear_arith);
    assert(y == s0 * (e - a1) + s1 * a1);
    assert(b * e == a1) by(nonlinear_arith) requires b == a1 / e, e != 0real;
    assert(s0 * (e - a1) == (s0 * (1real - b)) * e) by(nonlinear_arith) requires b * e == a1;
    assert(s1 * a1 == (s1 * b) * e) by(nonlinear_arith) requires b * e == a1;
    let z = s0 * (1real - b) + s1 * b;
    assert(y == z * e) by(nonlinear_arith) requires y == (s0 * (1real - b)) * e + (s1 * b) * e, z == s0 * (1real - b) + s1 * b;
    assert(y / e == z) by(nonlinear_arith) requires y == z * e, e != 0real;
    assert(n * z == (n * s0) * (1real - b) + (n * s1) * b) by(nonlinear_arith) requires z == s0 * (1real - b) + s1 * b;
}
/// slopes at level q-1 blend to the slope at level q (as in the triangle of the derivative)
pub proof fn slope_blend(u: Sq, f: Sq, t: real, d: nat, k: int, q: nat, i: int)
    requires regular(u, d, k), 1 <= q < d, k - d + q + 1 <= i <= k,
    ensures ({ let w = wt(u, t, i, i + d - q); slope(u, f, t, d, q, i) == slope(u, f, t, d, (q - 1) as nat, i - 1) * (1real - w) + slope(u, f, t, d, (q - 1) as nat, i) * w }),
{
    let p = (q - 1) as nat;
    let n = d as real;
    let w = wt(u, t, i, i + d - q);
    dpts_level(u, f, t, d, k, p, i - 1); dpts_level(u, f, t, d, k, p, i); dpts_level(u, f, t, d, k, q, i);
    let (s0, s1, s) = (slope(u, f, t, d, p, i - 1), slope(u, f, t, d, p, i), slope(u, f, t, d, q, i));
    let (v, g, e) = (shift(u), dpts(u, f, d), (d - 1) as nat);
    assert(wt(v, t, i - 1, i - 1 + e + 1 - q) == w) by { assert(i - 1 + e + 1 - q + 1 == i + d - q); assert(i - 1 + 1 == i); }
    assert(dbw(v, g, t, e, q, i - 1) == dbw(v, g, t, e, p, i - 1 - 1) * (1real - w) + dbw(v, g, t, e, p, i - 1) * w);
    assert(n * s == (n * s0) * (1real - w) + (n * s1) * w);
    assert(s == s0 * (1real - w) + s1 * w) by(nonlinear_arith) requires n * s == (n * s0) * (1real - w) + (n * s1) * w, n != 0real;
}
/// derivative of level r
pub proof fn ddb_level(u: Sq, f: Sq, t: real, d: nat, k: int, r: nat, i: int)
    requires regular(u, d, k), 1 <= r <= d, k - d + r <= i <= k,
    ensures ddb(u, f, t, d, r, i) == (r as real) * slope(u, f, t, d, (r - 1) as nat, i),
    decreases r
{
    let q = (r - 1) as nat;
    let j = i + d + 1 - r;
    assert(i + d - q == j);
    let w = wt(u, t, i, j);
    let s = slope(u, f, t, d, q, i);
    assert(s == quo(dbw(u, f, t, d, q, i) - dbw(u, f, t, d, q, i - 1), u(j) - u(i)));
    assert(ddb(u, f, t, d, r, i) == ddb(u, f, t, d, q, i - 1) * (1real - w) + ddb(u, f, t, d, q, i) * w + s);
    if r == 1 {
        assert(ddb(u, f, t, d, 0, i) == 0real && ddb(u, f, t, d, 0, i - 1) == 0real);
        assert(0real * (1real - w) == 0real && 0real * w == 0real) by(nonlinear_arith);
        assert(r as real == 1real);
        assert(1real * s == s);
    } else {
        ddb_level(u, f, t, d, k, q, i - 1); ddb_level(u, f, t, d, k, q, i);
        let p = (q - 1) as nat;
        let m = q as real;
        slope_blend(u, f, t, d, k, q, i);
        let (s0, s1) = (slope(u, f, t, d, p, i - 1), slope(u, f, t, d, p, i));
        assert(ddb(u, f, t, d, q, i - 1) == m * s0 && ddb(u, f, t, d, q, i) == m * s1);
        assert((m * s0) * (1real - w) + (m * s1) * w == m * s) by(nonlinear_arith) requires s == s0 * (1real - w) + s1 * w;
        assert((m + 1real) * s == m * s + s) by(nonlinear_arith);
        assert(r as real == m + 1real);
    }
}
/// the derivative's triangle is the derivative of the curve's triangle
pub proof fn derivative_formula(u: Sq, f: Sq, t: real, d: nat, c: int, k: int)
    requires sorted(u, c + d + 1), 1 <= d, d <= k < c, u(k) < u(k + 1),
    ensures dbw(shift(u), dpts(u, f, d), t, (d - 1) as nat, (d - 1) as nat, k - 1) == ddb(u, f, t, d, d, k),
{
    regular_span(u, d, c, k);
    dpts_level(u, f, t, d, k, (d - 1) as nat, k);
    ddb_level(u, f, t, d, k, d, k);
}
/// one entry of the triangle
pub proof fn db_step(u: Sq, f: Sq, t: real, d: nat, r: nat, i: int, w: real, x: real, y: real)
    requires r >= 1, w == al(u, t, i, i + d + 1 - r), x == db(u, f, t, d, (r - 1) as nat, i - 1), y == db(u, f, t, d, (r - 1) as nat, i),
    ensures db(u, f, t, d, r, i) == x * (1real - w) + y * w, x * (1real - w) + y * w == (0real - (w * x)) + (w * y) + x,
{ assert(x * (1real - w) + y * w == (0real - (w * x)) + (w * y) + x) by(nonlinear_arith); }
pub open spec fn within(f: Sq, from: int, to: int, lo: real, hi: real) -> bool { forall|j: int| from <= j <= to ==> lo <= #[trigger] f(j) <= hi }
pub open spec fn agree(f: Sq, g: Sq, from: int, to: int) -> bool { forall|j: int| from <= j <= to ==> #[trigger] f(j) == g(j) }
/// a non-empty domain has a span for each of its parameters
pub proof fn span_exists(u: Sq, d: int, c: int, m: int, t: real, k: int)
    requires sorted(u, m), 0 <= d <= k < c < m, u(d) < u(c), u(d) <= t, t < u(c) ==> u(k) <= t, t == u(c) ==> u(k) < t,  t <= u(c),
    ensures exists|l: int| inspan(u, d, c, l, t),
    decreases c - k
{
    if t < u(k + 1) || (t == u(k + 1) && t == u(c)) { assert(inspan(u, d, c, k, t)); }
    else { assert(u(k + 1) <= u(c)); span_exists(u, d, c, m, t, k + 1); }
}
/// what depends on the span: range and locality
pub proof fn bsval_local(u: Sq, f: Sq, d: nat, c: int, k: int, t: real)
    requires sorted(u, c + d + 1), inspan(u, d as int, c, k, t),
    ensures forall|lo: real, hi: real| #[trigger] within(f, k - d, k, lo, hi) ==> lo <= bsval(u, f, d, c, t) <= hi,
        forall|g: Sq| #[trigger] agree(f, g, k - d, k) ==> bsval(u, f, d, c, t) == bsval(u, g, d, c, t),
{
    span_is(u, d as int, c, c + d + 1, k, t);
    assert forall|lo: real, hi: real| #[trigger] within(f, k - d, k, lo, hi) implies lo <= bsval(u, f, d, c, t) <= hi by { db_range(u, f, d, c, k, t, d, k, lo, hi); }
    assert forall|g: Sq| #[trigger] agree(f, g, k - d, k) implies bsval(u, f, d, c, t) == bsval(u, g, d, c, t) by { db_ext(u, f, g, t, d, d, k); }
}
/// the curve never leaves the range of its control points
pub proof fn bsval_range(u: Sq, f: Sq, d: nat, c: int, t: real, lo: real, hi: real)
    requires sorted(u, c + d + 1), d < c, u(d as int) <= t <= u(c), within(f, 0, c - 1, lo, hi),
    ensures lo <= bsval(u, f, d, c, t) <= hi,
{
    if u(d as int) < u(c) {
        span_exists(u, d as int, c, c + d + 1, t, d as int);
        let k = span_of(u, d as int, c, t);
        db_range(u, f, d, c, k, t, d, k, lo, hi);
    } else {
        span_empty(u, d as int, c, c + d + 1, t);
        let e = d as int; assert(u(e) <= u(e + 1)); assert(u(e + 1) <= u(c));
        db_range(u, f, d, c, d as int, t, d, d as int, lo, hi);
    }
}
/// the curve is the Cox-de Boor combination
pub proof fn bsval_cox(u: Sq, f: Sq, d: nat, c: int, t: real)
    requires sorted(u, c + d + 1), d < c, u(d as int) < u(c), u(d as int) <= t <= u(c), sep(u, c + d + 1, t),
    ensures bsval(u, f, d, c, t) == coxsum(u, f, t, t == u(c), d, c as nat),
{
    span_exists(u, d as int, c, c + d + 1, t, d as int);
    let k = span_of(u, d as int, c, t);
    db_exact(u, f, d, c, k, t, d, k);
    if t < u(c) && t == u(k + 1) { assert(false); }
    boor_is_cox(u, f, t, t == u(c), d, c, k);
}
pub proof fn dbw_ext(u: Sq, v: Sq, f: Sq, g: Sq, t: real, d: nat, r: nat, i: int)
    requires agree(u, v, i - r, i + d), agree(f, g, i - r, i), r <= d,
    ensures dbw(u, f, t, d, r, i) == dbw(v, g, t, d, r, i),
    decreases r
{ if r > 0 { dbw_ext(u, v, f, g, t, d, (r - 1) as nat, i - 1); dbw_ext(u, v, f, g, t, d, (r - 1) as nat, i); assert(u(i) == v(i)); assert(u(i + d + 1 - r) == v(i + d + 1 - r)); } }
/// v, g: knots and points of the derivative
pub proof fn derivative_value(u: Sq, f: Sq, v: Sq, g: Sq, d: nat, c: int, t: real)
    requires sorted(u, c + d + 1), 1 <= d < c, u(d as int) < u(c), u(d as int) <= t <= u(c), sep(u, c + d + 1, t),
        agree(shift(u), v, 0, c + d - 2), agree(dpts(u, f, d), g, 0, c - 2),
    ensures bsval(v, g, (d - 1) as nat, c - 1, t) == ddb(u, f, t, d, d, span_of(u, d as int, c, t)), inspan(u, d as int, c, span_of(u, d as int, c, t), t),
{
    span_exists(u, d as int, c, c + d + 1, t, d as int);
    let k = span_of(u, d as int, c, t);
    let e = (d - 1) as nat;
    assert forall|i: int| 0 <= i <= c + d - 2 implies #[trigger] v(i) == u(i + 1) by { assert(shift(u)(i) == v(i)); }
    assert(sorted(v, (c - 1) + e + 1));
    assert(sep(v, (c - 1) + e + 1, t));
    assert(inspan(v, e as int, c - 1, k - 1, t));
    span_is(v, e as int, c - 1, c - 1 + e + 1, k - 1, t);
    db_exact(v, g, e, c - 1, k - 1, t, e, k - 1);
    dbw_ext(shift(u), v, dpts(u, f, d), g, t, e, e, k - 1);
    derivative_formula(u, f, t, d, c, k);
}
/// equally spaced parameters of [a, b]
pub proof fn par_dom(a: real, b: real, k: int, n: int)
    requires a <= b, 0 <= k <= n, n > 0,
    ensures a <= par(a, b, k, n) <= b, a + ((k as real) / (n as real)) * (b - a) == par(a, b, k, n), par(a, b, k, n) + (b - a) / (n as real) == par(a, b, k + 1, n),
{
    let (x, y, z) = (k as real, n as real, b - a);
    let q = x / y;
    assert(0real <= q <= 1real) by(nonlinear_arith) requires q == x / y, 0real <= x <= y, y > 0real;
    assert(0real <= z * q <= z) by(nonlinear_arith) requires 0real <= q <= 1real, z >= 0real;
    assert(q * z == z * q) by(nonlinear_arith);
    assert((k + 1) as real == x + 1real);
    assert(z * ((x + 1real) / y) == z * q + z / y) by(nonlinear_arith) requires q == x / y, y > 0real;
}
