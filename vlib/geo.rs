// Lengths, distances and curves as functions (coordinate, parameter) -> real.
pub proof fn sqsum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures sqsum(f, n) == sqsum(g, n),
    decreases n
{ if n > 0 { sqsum_ext(f, g, (n - 1) as nat); } }
pub proof fn sqsum_neg(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == -g(i),
    ensures sqsum(f, n) == sqsum(g, n),
    decreases n
{ if n > 0 { sqsum_neg(f, g, (n - 1) as nat); let a = f(n - 1); let b = g(n - 1); assert((-b) * (-b) == b * b) by(nonlinear_arith); } }
pub proof fn sqsum_nonneg(f: spec_fn(int) -> real, n: nat)
    ensures sqsum(f, n) >= 0real,
    decreases n
{ if n > 0 { sqsum_nonneg(f, (n - 1) as nat); let a = f(n - 1); assert(a * a >= 0real) by(nonlinear_arith); } }
/// squared distance of two points
pub open spec fn dist2<P: Point>(a: P, b: P) -> real { sqsum(|i: int| a.c(i) - b.c(i), P::dim()) }
pub proof fn dist2_eq<P: Point>(a: P, b: P)
    ensures (forall|i: int| #[trigger] a.c(i) == b.c(i)) ==> dist2(a, b) == 0real,
{ if forall|i: int| #[trigger] a.c(i) == b.c(i) { sqsum_self(|i: int| a.c(i) - b.c(i), P::dim()); } }
pub proof fn sqsum_self(f: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real,
    ensures sqsum(f, n) == 0real,
    decreases n
{ if n > 0 { sqsum_self(f, (n - 1) as nat); let a = f(n - 1); assert(a * a == 0real) by(nonlinear_arith) requires a == 0real; } }
pub broadcast proof fn dist2_of_sub<P: Point>(a: P, b: P)
    ensures #[trigger] SubSpec::<P>::sub_spec(a, b).sqlen() == dist2(a, b),
{ broadcast use {scalar_laws, point_laws}; let d = SubSpec::<P>::sub_spec(a, b); P::law_sqlen(d); sqsum_ext(|i: int| d.c(i), |i: int| a.c(i) - b.c(i), P::dim()); }
pub broadcast proof fn dist2_sym<P: Point>(a: P, b: P)
    ensures #[trigger] dist2(a, b) == dist2(b, a), dist2(a, b) >= 0real,
{ sqsum_neg(|i: int| a.c(i) - b.c(i), |i: int| b.c(i) - a.c(i), P::dim()); sqsum_nonneg(|i: int| a.c(i) - b.c(i), P::dim()); }
pub broadcast proof fn rsqrt_ax(x: real) requires x >= 0real ensures #![trigger rsqrt(x)] rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x { axiom_sqrt(x); }

/// a curve: coordinate and parameter to value
pub type Cv = spec_fn(int, real) -> real;
/// p is the curve's point at t
pub open spec fn on<P: Point>(p: P, cv: Cv, t: real) -> bool { forall|i: int| 0 <= i < P::dim() ==> #[trigger] p.c(i) == cv(i, t) }
/// squared distance between the curve's points at s and t / between point p and the curve's point at t
pub open spec fn chord2(cv: Cv, s: real, t: real, n: nat) -> real { sqsum(|i: int| cv(i, s) - cv(i, t), n) }
pub open spec fn pdist2<P: Point>(p: P, cv: Cv, t: real) -> real { sqsum(|i: int| p.c(i) - cv(i, t), P::dim()) }
pub broadcast proof fn chord2_of_points<P: Point>(p: P, q: P, cv: Cv, s: real, t: real)
    requires on(p, cv, s), on(q, cv, t),
    ensures #![trigger dist2(p, q), on(p, cv, s), on(q, cv, t)] dist2(p, q) == chord2(cv, s, t, P::dim()),
{ sqsum_ext(|i: int| p.c(i) - q.c(i), |i: int| cv(i, s) - cv(i, t), P::dim()); }
pub broadcast proof fn chord2_sym(cv: Cv, s: real, t: real, n: nat)
    ensures #[trigger] chord2(cv, s, t, n) == chord2(cv, t, s, n), chord2(cv, s, t, n) >= 0real,
{ sqsum_neg(|i: int| cv(i, s) - cv(i, t), |i: int| cv(i, t) - cv(i, s), n); sqsum_nonneg(|i: int| cv(i, s) - cv(i, t), n); }
pub broadcast proof fn pdist2_of_points<P: Point>(p: P, q: P, cv: Cv, t: real)
    requires on(q, cv, t),
    ensures #![trigger dist2(p, q), on(q, cv, t)] dist2(p, q) == pdist2(p, cv, t),
{ sqsum_ext(|i: int| p.c(i) - q.c(i), |i: int| p.c(i) - cv(i, t), P::dim()); }
pub broadcast group geo_laws { dist2_of_sub, dist2_sym, rsqrt_ax, chord2_of_points, chord2_sym, pdist2_of_points }

/// length of the polyline through the points at a + (b-a) k/n, k = 0..m
pub open spec fn par(a: real, b: real, k: int, n: int) -> real { a + (b - a) * ((k as real) / (n as real)) }
pub open spec fn polylen(cv: Cv, a: real, b: real, m: nat, n: int, dim: nat) -> real
    decreases m
{ if m == 0 { 0real } else { polylen(cv, a, b, (m - 1) as nat, n, dim) + rsqrt(chord2(cv, par(a, b, m - 1, n), par(a, b, m as int, n), dim)) } }
pub proof fn par01(k: int, n: int)
    requires n > 0,
    ensures par(0real, 1real, k, n) == (k as real) / (n as real), (k as real) * (1real / (n as real)) == (k as real) / (n as real), (k as real) * 1real / (n as real) == (k as real) / (n as real),
        (k as real) / (n as real) + 1real / (n as real) == ((k + 1) as real) / (n as real),
{
    let (x, y) = (k as real, n as real);
    assert(x / y + 1real / y == (x + 1real) / y) by(nonlinear_arith) requires y > 0real;
    assert(x * (1real / y) == x / y) by(nonlinear_arith) requires y > 0real;
    assert((k + 1) as real == x + 1real);
}
/// dot product
pub open spec fn dotsum(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: nat) -> real
    decreases n
{ if n == 0 { 0real } else { dotsum(f, g, (n - 1) as nat) + f(n - 1) * g(n - 1) } }
pub proof fn dotsum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, f2: spec_fn(int) -> real, g2: spec_fn(int) -> real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == f2(i), forall|i: int| 0 <= i < n ==> #[trigger] g(i) == g2(i),
    ensures dotsum(f, g, n) == dotsum(f2, g2, n),
    decreases n
{ if n > 0 { dotsum_ext(f, g, f2, g2, (n - 1) as nat); } }
/// |w - s d|^2 = |w|^2 - 2 s w.d + s^2 |d|^2
pub proof fn sq_line(h: spec_fn(int) -> real, w: spec_fn(int) -> real, d: spec_fn(int) -> real, s: real, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == w(i) - s * d(i),
    ensures sqsum(h, n) == sqsum(w, n) - 2real * (s * dotsum(w, d, n)) + s * (s * sqsum(d, n)),
    decreases n
{
    if n > 0 {
        sq_line(h, w, d, s, (n - 1) as nat);
        let (x, y) = (w(n - 1), d(n - 1));
        let (p, q) = (dotsum(w, d, (n - 1) as nat), sqsum(d, (n - 1) as nat));
        assert((x - s * y) * (x - s * y) == x * x - 2real * (s * (x * y)) + s * (s * (y * y))) by(nonlinear_arith);
        assert(s * (p + x * y) == s * p + s * (x * y)) by(nonlinear_arith);
        assert(s * (q + y * y) == s * q + s * (y * y)) by(nonlinear_arith);
        assert(s * (s * q + s * (y * y)) == s * (s * q) + s * (s * (y * y))) by(nonlinear_arith);
    }
}
/// the clamped minimiser of W - 2 s B + s^2 A on [0,1]
pub open spec fn clamp_t(a: real, b: real) -> real { if b / a < 0real { 0real } else if b / a < 1real { b / a } else { 1real } }
pub proof fn quad_min(a: real, b: real, s: real)
    requires a > 0real, 0real <= s <= 1real,
    ensures clamp_t(a, b) * (clamp_t(a, b) * a) - 2real * (clamp_t(a, b) * b) <= s * (s * a) - 2real * (s * b), 0real <= clamp_t(a, b) <= 1real,
{
    let t = clamp_t(a, b);
    let q = b / a;
    assert(q * a == b) by(nonlinear_arith) requires a > 0real, q == b / a;
    let (e, f) = (s - t, s + t - 2real * q);
    if q < 0real { assert(e * f >= 0real) by(nonlinear_arith) requires e >= 0real, f >= 0real; }
    else if q < 1real { assert(e * f >= 0real) by(nonlinear_arith) requires e == f; }
    else { assert(e * f >= 0real) by(nonlinear_arith) requires e <= 0real, f <= 0real; }
    assert(a * (e * f) >= 0real) by(nonlinear_arith) requires a > 0real, e * f >= 0real;
    assert(s * (s * a) == a * (s * s)) by(nonlinear_arith);
    assert(t * (t * a) == a * (t * t)) by(nonlinear_arith);
    assert(s * (q * a) == a * (s * q)) by(nonlinear_arith);
    assert(t * (q * a) == a * (t * q)) by(nonlinear_arith);
    assert(e * f == s * s - t * t - 2real * (s * q) + 2real * (t * q)) by(nonlinear_arith) requires e == s - t, f == s + t - 2real * q;
    let z = s * s - t * t - 2real * (s * q) + 2real * (t * q);
    assert(a * z == a * (s * s) - a * (t * t) - 2real * (a * (s * q)) + 2real * (a * (t * q))) by(nonlinear_arith) requires z == s * s - t * t - 2real * (s * q) + 2real * (t * q);
}
pub open spec fn line_cv<P: Point>(a: P, b: P) -> Cv { |i: int, t: real| lin(a.c(i), b.c(i), t) }
/// minimum distance to a segment: attained at the clamped projection
pub open spec fn seg_t<P: Point>(a: P, b: P, p: P) -> real {
    clamp_t(dist2(b, a), dotsum(|i: int| p.c(i) - a.c(i), |i: int| b.c(i) - a.c(i), P::dim()))
}
pub proof fn seg_min<P: Point>(a: P, b: P, p: P, s: real)
    requires dist2(b, a) > 0real, 0real <= s <= 1real,
    ensures pdist2(p, line_cv(a, b), seg_t(a, b, p)) <= pdist2(p, line_cv(a, b), s), 0real <= seg_t(a, b, p) <= 1real,
{
    let n = P::dim();
    let w = |i: int| p.c(i) - a.c(i);
    let d = |i: int| b.c(i) - a.c(i);
    let cv = line_cv(a, b);
    let t = seg_t(a, b, p);
    let h1 = |i: int| p.c(i) - cv(i, s);
    let h2 = |i: int| p.c(i) - cv(i, t);
    assert forall|i: int| 0 <= i < n implies #[trigger] h1(i) == w(i) - s * d(i) by {
        let (x, y) = (a.c(i), b.c(i));
        assert(x * (1real - s) + y * s == x + s * (y - x)) by(nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] h2(i) == w(i) - t * d(i) by {
        let (x, y) = (a.c(i), b.c(i));
        assert(x * (1real - t) + y * t == x + t * (y - x)) by(nonlinear_arith);
    }
    sq_line(h1, w, d, s, n);
    sq_line(h2, w, d, t, n);
    quad_min(dist2(b, a), dotsum(w, d, n), s);
}
pub proof fn sqrt_mono(x: real, y: real)
    requires 0real <= x, 0real <= y,
    ensures (x <= y) == (rsqrt(x) <= rsqrt(y)), (x < y) == (rsqrt(x) < rsqrt(y)),
{
    axiom_sqrt(x); axiom_sqrt(y);
    let (a, b) = (rsqrt(x), rsqrt(y));
    if a <= b { assert(a * a <= b * b) by(nonlinear_arith) requires 0real <= a <= b; }
    if a < b { assert(a * a < b * b) by(nonlinear_arith) requires 0real <= a < b; }
    if b < a { assert(b * b < a * a) by(nonlinear_arith) requires 0real <= b < a; }
}
pub proof fn sq_le<P: Point>(a: P, b: P, tol: real)
    requires tol >= 0real,
    ensures (dist2(a, b) <= tol * tol) == (rsqrt(dist2(a, b)) <= tol),
{
    dist2_sym(a, b); axiom_sqrt(dist2(a, b));
    let r = rsqrt(dist2(a, b));
    if r <= tol { assert(r * r <= tol * tol) by(nonlinear_arith) requires 0real <= r <= tol; }
    if tol < r { assert(tol * tol < r * r) by(nonlinear_arith) requires 0real <= tol < r; }
}
